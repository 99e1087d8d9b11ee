#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from bin/props.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
from props import PROPS, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 bin/check.py %s quick' % i,
            'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
            'technique': p.get('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'),
            'level': p.get('level', 'proof'),
            'level_note': p['note'],
        })
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Every check re-extracts the functions under contract from /repo and re-proves every obligation.'}
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
