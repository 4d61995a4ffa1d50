#!/usr/bin/env python3
"""Builds every driver once (checks rebuild whatever /repo changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    for pkg, variant in vlib.DRIVERS:
        vlib.build(pkg, variant)
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
