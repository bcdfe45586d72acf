#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
import harness
pid = sys.argv[1]
mod = importlib.import_module('r_' + pid.lower())
harness.main(pid, mod.check)
