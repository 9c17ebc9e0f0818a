#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import lib

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        from vp import checks
        return checks.run(prop, tier, seed)
    except lib.ToolError as e:
        print(f"ERROR: {e}")
    except Exception:
        traceback.print_exc()
    return 2

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
