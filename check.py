#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rga"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    sys.setrecursionlimit(20000)
    import front
    from ctx import Ctx
    ctx = Ctx(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        ctx.P = front.load(getattr(mod, "FEATURES", ()))
        try:
            mod.run(ctx)
        except Exception as x:
            # a construct the analysis was not written for: what was decided so far stands
            traceback.print_exc()
            ctx.inconclusive("analysis stopped", type(x).__name__, str(x)[:300])
        return ctx.finish(getattr(mod, "LEVEL", "other"), mod.EXPLANATION, mod.ASSUMPTIONS)
    except front.FrontError as e:
        print(f"ERROR: front end: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
