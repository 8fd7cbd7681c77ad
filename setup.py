#!/usr/bin/env python3
"""builds the analysis front ends (checks also build them on demand)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, ssa
core.astdump_tool()
ssa.irdump_tool()
print("setup done")
