#!/usr/bin/env python3
# Writes MANIFEST.json from the list of checks that exist.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC, bound to the code by trace validation'
# property -> (technique detail, level note)
CHECKS = json.load(open(os.path.join(V, 'lib', 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS and os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        t, note = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 checks/run.py %s quick' % p,
                            'thorough_cmd': 'python3 checks/run.py %s thorough' % p,
                            'technique': TECH + ': ' + t, 'level': 'model_checking', 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': CHECKS.get('na', {}).get(p, 'check not built yet')})
if not m['not_applicable']:
    m['not_applicable'] = []
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
