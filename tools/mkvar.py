"""Author's tool: behaviour-preserving edits (tools/vars_data.py) must leave the checks quiet.

    python3-vt tools/mkvar.py [--tests] [ID prefixes]"""
import os
import subprocess
import sys
import json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mkseed
import vars_data


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    os.makedirs(mkseed.W, exist_ok=True)
    allc = sorted(c[:-3].upper() for c in os.listdir(os.path.join(HERE, "checks")) if c.startswith("c") and c.endswith(".py"))
    base = {}
    for v in vars_data.VARS:
        if args and not any(v["id"].startswith(a) for a in args):
            continue
        mkseed.fresh()
        ok = True
        for f, old, new in v["edits"]:
            p = os.path.join(mkseed.S, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(v["id"], "EDIT DOES NOT MATCH", f, t.count(old), old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        rc, out = mkseed.sh("cargo check --lib --offline")
        if rc:
            print(v["id"], "DOES NOT BUILD", out[-1500:])
            continue
        if "--tests" in sys.argv:
            mkseed.build()
            bad = mkseed.tests()
            if bad:
                print(v["id"], "TESTS FAIL", bad[:5])
        for c in (v["props"] or allc):
            rc, out = mkseed.check(c)
            ev = json.load(open(os.path.join(HERE, "evidence", c + ".json")))["coverage"]
            inc = [(x["obligation"], x["why"][:90]) for x in ev["inconclusive_list"]]
            print(v["id"], c, "quiet" if rc == 0 else f"*** EXIT {rc}\n" + out[-1500:], "inconclusive: %s" % inc if inc else "", flush=True)
    mkseed.fresh()


main()
