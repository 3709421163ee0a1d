#!/usr/bin/env python3
"""check.py <property id>   exit 0 = held on everything explored, 1 = VIOLATION, 2 = harness error"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.exit(core.main(sys.argv[1]))
