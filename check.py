#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property. Tier from VERIF_TIER (quick|thorough) or --tier."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import lib
from registry import CHECKS


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:
        import replay
        return replay.main(sys.argv[sys.argv.index("--replay") + 1])
    ck = lib.Check(prop, tier, seed)
    try:
        CHECKS[prop](ck)
    except lib.MachineryError as e:
        print("MACHINERY-ERROR", e)
        if not ck.violations:
            ck.finish()
            return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
