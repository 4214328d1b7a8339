#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.runner import run_property
from specs import SPECS

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
try:
    rc = run_property(pid, tier, SPECS[pid])
except Exception:
    traceback.print_exc()
    rc = 2  # no verdict
sys.exit(rc)
