#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property against /repo's working tree."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, engines, stage
import props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = core.Result(pid, tier, seed)
    try:
        rc = props.CHECKS[pid](res, tier)
    except engines.Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        rc = 2
    sys.exit(rc)


main()
