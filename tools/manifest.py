#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.json (run by hand after editing the plan)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(os.path.join(V, 'plan.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    e = plan['properties'].get(i)
    if not e:
        na.append({'property': i, 'reason': plan.get('not_applicable', {}).get(i, 'no check built yet')})
        continue
    bounded = sorted({h['bounded'] for h in e['harnesses'] if h.get('bounded')})
    proved = [h for h in e['harnesses'] if not h.get('bounded')]
    note = []
    if proved:
        note.append('Contract obligations discharged for all inputs of the harness domain on the compiled real source.')
    if bounded:
        note.append('Bounded, not counted as proved: ' + '; '.join(bounded) + '.')
    if e.get('trusted'):
        note.append('Trusts: ' + '; '.join(e['trusted']) + '.')
    c = {'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
         'technique': 'function contracts on the real Rust source, discharged by Kani/CBMC',
         'level': e['level'], 'level_note': ' '.join(note), 'evidence_file': 'evidence/%s.json' % i}
    if e['level'] == 'proof':
        c['theorems'] = [h['name'] for h in proved]
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'The checks need no hooks in /repo: they compile its source unchanged against contract models of its dependencies.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
