#!/usr/bin/env python3
"""Builds the IR exporter and checks that the model of /repo can be made."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules'))
import model
model.build_tool()
for v in ('plain', 'inline'):
    m = model.load(v)
    print('model %s: %d functions, %.1f s' % (v, len(m['functions']), m['build_s']))
