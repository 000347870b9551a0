#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py
(run by hand after editing them; the checks never run it)."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools'), os.path.join(HERE, 'engine')]
from props import PROPS, NA
import check
reg = check.registry()
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
checks = []
for p in PROPS:
    i = p['id']
    if i in NA:
        assert i not in reg, i
        continue
    assert i in reg, i
    checks.append({'property': i,
                   'quick_cmd': 'python3 check.py %s' % i,
                   'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
assert set(reg) <= set(ids), set(reg) - set(ids)
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
