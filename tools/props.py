#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import P
from sa.checks import CHECKS

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
for i in CHECKS:
    assert i in ids, i
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
m = {'version': 1, 'setup_cmd': 'bash sa/build.sh setup', 'checks': [], 'not_applicable': []}
for p in P:
    if p['id'] in CHECKS:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
            'technique': p['tech'], 'level': 'other', 'level_note': p['note'],
        })
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p.get('na') or 'no check has been built for it yet'})
m['notes'] = 'See DESIGN.md. Genuine defects are listed in known-findings.txt.'
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']], 'not applicable')
