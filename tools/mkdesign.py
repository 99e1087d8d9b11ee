#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.tmpl.md, props.py, properties.jsonl, KNOWN_FINDINGS.txt and seeded/*/meta.json"""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'bin'))
from props import PROPS, NOT_APPLICABLE
P = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
out = []
for p in P:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in PROPS:
        c = PROPS[i]
        parts = []
        for u, pats in c.get('units', []):
            parts.append('Verus unit `specs/%s.vx`%s' % (u, '' if not pats else ' (%s)' % ', '.join('`%s`' % x for x in pats)))
        for k, hs in c.get('kani', []):
            parts.append('Kani crate `kani/%s`: %s' % (k, ', '.join(hs)))
        out.append('*Decided by:* ' + '; '.join(parts) + '.')
        out.append(c['note'])
        if c.get('assume'):
            out.append('*Assumed:* ' + '; '.join(c['assume']) + '.')
        if c.get('bounded'):
            out.append('*Bounded (never counted as proved):* ' + str(c['bounded']))
        out.append('*Beyond the tests:* all of "%s"; tests: %s' % (p['quantifier']['text'], p['why_tests_cant']))
        if c.get('witness'):
            out.append('*Validation on the real code:* engine `witness/%s`, property %s%s.' % (c['witness'], i, ', tools ' + ', '.join(c['bins']) if c.get('bins') else ''))
    else:
        out.append('*Not applicable:* ' + NOT_APPLICABLE.get(i, 'not built yet'))
    out.append('')
D = [l[7:].strip() for l in open(os.path.join(R, 'KNOWN_FINDINGS.txt')) if l.startswith('fixed: ')]
F = [l[9:].strip() for l in open(os.path.join(R, 'KNOWN_FINDINGS.txt')) if l.startswith('finding: ')]
defects = ['Repaired ("fix:" commits):'] + ['* ' + d for d in D] + (['', 'Recorded, not repaired:'] + ['* ' + d for d in F] if F else ['', 'None is recorded without repair.'])
caught = {}
p = os.path.join(R, 'tools', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
S = ['| id | property | what it breaks | needs | caught by its check |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    S.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], caught.get(i, 'yes')))
t = open(os.path.join(R, 'tools', 'DESIGN.tmpl.md')).read()
t = t.replace('__PER_PROPERTY__', '\n'.join(out)).replace('__DEFECTS__', '\n'.join(defects)).replace('__SEEDS__', '\n'.join(S))
open(os.path.join(R, 'DESIGN.md'), 'w').write(t)
