#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]: decides one property (see DESIGN.md)."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vf
from vf import plans


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.prop == "setup":
        vf.build()
        return 0
    ctx = vf.Ctx(a.prop, a.tier, a.seed)
    ctx.start_build()
    try:
        failures = plans.run(ctx)
        return vf.finish(ctx, failures, "model_checking")
    except vf.ToolError as e:
        print("check %s could not decide: %s" % (a.prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
