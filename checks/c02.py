from geo import *
import c01
from c01 import pts, decide

LEVEL = "other"
FEATURES = ("rug",)
EXPLANATION = ("Each scalar implementation of the distance comparison is interpreted over exact polynomials with an interval for every fixed-width "
               "operation, overflow flags split into cases; every path partition's verdict is compared with the exact difference of squared distances.")
ASSUMPTIONS = [a for a in c01.ASSUMPTIONS if "orient2d" not in a]


def prims(ty):
    P_ = pts("pqr", ty)
    p, q, r = (P_[n] for n in "pqr")

    def d2(a, b):
        w = sub(a, b)
        return w[0] * w[0] + w[1] * w[1]
    return {"cmp_dist": ("pqr", lambda o: o.sign(d2(p, q) - d2(p, r)))}


def run(ctx):
    decide(ctx, prims, 14)
