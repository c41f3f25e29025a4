"""Builds the driver and analyses /repo once, so that a broken toolchain shows up early."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "rga"))
import front
for feats in ((), ("rug",)):
    P = front.load(feats)
    print("functions", len(P.fns), "features", feats)
