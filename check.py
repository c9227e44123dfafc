#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property on /repo's working tree (VERIF_SEED, VERIF_TIER=quick|thorough)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common, checks

if __name__ == "__main__":
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
        common.THOROUGH = common.TIER == "thorough"
    r = common.Report(sys.argv[1])
    checks.CHECKS[sys.argv[1]](r)
    r.finish()
