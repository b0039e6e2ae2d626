#!/usr/bin/env python3
"""python3 check.py <property id>: run one check (VERIF_SEED, VERIF_TIER from the environment)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import runner, checks
if __name__ == "__main__":
    rc = 0
    for pid in sys.argv[1:]:
        rc = max(rc, runner.run_check(pid, checks.CHECKS[pid]))
    sys.exit(rc)
