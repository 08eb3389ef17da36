#!/usr/bin/env python3
"""Builds the IR dumper and compiles the analysed translation units once."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
from absint import ir
from specs import registry
ir.ensure_irdump()
jobs = [j for p in registry.PROPS.values() for j in p(2)]
registry.precompile(jobs)
print("ready")
