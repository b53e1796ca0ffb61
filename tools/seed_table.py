#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs']))
rows.sort()
out = ['| seed | caught by | what it breaks | what it needs to show |', '|---|---|---|---|']
for p, n, b, k in rows:
    esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out.append(f'| {n} | {p} | {esc(b)} | {esc(k)} |')
f = root + '/DESIGN.md'
s = open(f).read()
i = s.index('<!-- seeds -->')
s = s[:i] + '<!-- seeds -->\n' + '\n'.join(out) + '\n'
open(f, 'w').write(s)
