#!/usr/bin/env python3
"""Builds every harness that a check in checks.py uses (the checks also build what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
for pid, cfg in CHECKS.items():
    for v in cfg.get('mix', {'plain': 6, 'asan': 2}):
        print(pid, B.build(v, cfg['harness']), flush=True)
