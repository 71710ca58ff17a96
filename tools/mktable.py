#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (seeded/*/meta.json, column 'caught' from tools/caught.json)."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| bug | property | what it breaks | caught by quick check of |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m, i = json.load(open(d)), d.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {', '.join(caught.get(i, ['none'])) } |")
s = open(V + '/DESIGN.md').read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
