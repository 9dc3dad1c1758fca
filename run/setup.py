#!/usr/bin/env python3
"""Builds the harness and runs TLC on everything the quick checks use."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *  # noqa
import plan

try:
    exe = harness()
    run_slices([(n, 1, False) for n in plan.EVERY])
    try:
        import units
        units.prepare(exe)
    except ImportError:
        pass
except ToolError as e:
    print("TOOL ERROR:", e)
    sys.exit(1)
print("ready")
