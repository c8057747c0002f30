#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
from table import PROPS, NOT_APPLICABLE
from vlib.specs import SPECS

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    assert p['id'] in SPECS, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                       technique=p['technique'], level='exploration', level_note=p['note'], evidence_file='evidence/%s.json' % p['id']))
json.dump(dict(version=1, setup_cmd='python3 -c "import vlib.build, vlib.specs"',
               checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties,', len(checks), 'checks')
