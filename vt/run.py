#!/usr/bin/env python3
"""Entry point of every check: run.py <property id>."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

GROUPS = {"S": "step", "M": "meshes", "X": "export", "D": "planar", "B": "spatial", "N": "nurbs", "R": "vectors", "C": "calls"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("c_" + GROUPS[prop[0]])
        getattr(mod, prop)(ctx)
        return core.finish(ctx)
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % prop)
    # a violation already established by the code's own behaviour stands
    if ctx.bad:
        return core.finish(ctx)
    return 2


sys.exit(main())
