#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree (the checks rebuild what has changed since)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build()
check.build_ext()
print("built", check.BIN)
