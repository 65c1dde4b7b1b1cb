#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py (the texts) and checks.py (the harnesses)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
from propdefs import P
from checks import CHECKS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        for n in p['anchors']['files']: assert os.path.exists('/repo/' + n), (p['id'], n)
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[], notes='hooks: none; /repo carries only fix: commits')
for p in P:
    if p['id'] in CHECKS:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 tools/run.py %s' % p['id'], thorough_cmd='python3 tools/run.py %s --tier thorough' % p['id'],
                                technique=p['technique'], level='exploration', level_note=p['note']))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(m['checks']), 'checks')
