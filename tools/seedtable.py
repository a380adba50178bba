#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and
tools/caught.txt (lines "ID PROP", the last results of trial.py -a or trial.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(V + '/tools/caught.txt'):
    f = l.split()
    if len(f) == 2: got.setdefault(f[0], []).append(f[1])
rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {', '.join(sorted(set(got.get(i, [])))) or 'none'} |")
d = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->'
t = a + '\n'.join(rows) + '\n' + b
if 'SEEDTABLE' in d: d = d.replace('SEEDTABLE', t)
else: d = d[:d.index(a)] + t + d[d.index(b) + len(b):]
open(V + '/DESIGN.md', 'w').write(d)
