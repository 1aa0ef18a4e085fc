#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import engine
if sys.argv[1] == 'setup':
    engine.build_tool(); sys.exit(0)
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
m = importlib.import_module('checks.' + prop)
sel = os.environ.get('VP_ONLY')
units = m.units(tier)
if sel: units = [u for u in units if sel in u.name]
try:
    rc = engine.main(prop, units, m.INFO, tier)
except engine.ToolError as e:
    print('CHECK-ERROR: %s' % e); rc = 2
sys.exit(rc)
