#!/usr/bin/env python3
"""check.py ID  -- decides one property on /repo's working tree (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vlib.Context(prop, tier, seed)
    try:
        return checks.CHECKS[prop](ctx)
    except vlib.HarnessError as e:
        print("error: " + str(e))
        return 2


sys.exit(main())
