#!/usr/bin/env python3
"""check.py <property>: runs the check of one property (VERIF_TIER, VERIF_SEED)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import engine
from vf.checks import CHECKS

if __name__ == "__main__":
    p = sys.argv[1]
    c = CHECKS[p]
    sys.exit(engine.main(p, c["run"], c["level"], c.get("assumptions", ())))
