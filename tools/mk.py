#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import properties as P

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P.PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'claim'}) + '\n')
checks, na = [], []
for p in P.PROPERTIES:
    c = p['claim']
    if isinstance(c, str):
        na.append({'property': p['id'], 'reason': c})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s' % p['id'],
        'thorough_cmd': 'python3 run.py %s --thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c['technique'],
        'level': 'other',
        'level_note': c['note'],
    })
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
