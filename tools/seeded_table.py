#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s |' % (d, ' '.join(m['needs'].split()).replace('|', '\\|'), m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if 'SEEDED-TABLE' in s: s = s.replace('SEEDED-TABLE', t)
else: s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
