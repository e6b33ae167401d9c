#!/usr/bin/env python3
"""writes MANIFEST.json from engine/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
from registry import REG
try: from registry import NA
except ImportError: NA = {}
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in REG:
        e = REG[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique=e['technique'], level=e['level'], level_note=e['note']))
    else: na.append(dict(property=p, reason=NA.get(p, 'check under construction')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'engine\'); import ir; ir.tool_irdump()"', checks=checks, not_applicable=na,
               notes='All checks read /repo/src on every run; machinery described in DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
