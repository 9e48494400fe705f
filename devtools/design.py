#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from the evidence files and seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | contracts | obligations | back ends | loops by invariant / unrolled | run-time cases (bounded) | wall s |', '|---|---|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    li = sum((x.get('loops') or {}).get('loops_by_invariant', 0) for x in c['contracts'])
    lu = sum((x.get('loops') or {}).get('loops_unrolled', 0) for x in c['contracts'])
    rows.append('| %s | %d | %d | %s | %d / %d | %d | %.0f |' % (d['property'], len(c['contracts']), c['obligations'],
        ', '.join('%s %d' % kv for kv in sorted(c['backends'].items())), li, lu, c['bounded_runtime_checks']['cases'], d['wall_s']))
seed = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
by = {}
p = V + '/devtools/caught.txt'
if os.path.exists(p):
    for l in open(p):
        if ':' in l: k, v = l.strip().split(':', 1); by[k] = v.strip()
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    seed.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], by.get(n, '')))
t = open(V + '/DESIGN.md').read()
for tag, r in (('EVIDENCE', rows), ('SEEDED', seed)):
    t = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(r), tag), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
