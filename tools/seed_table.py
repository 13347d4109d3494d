#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and seeded_results.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(root + '/findings/seeded_results.json'))
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {i} | {c(d['what_it_breaks'])} | {c(d['needs'])} | {res.get(i, '?')} |")
p = root + '/DESIGN.md'; t = open(p).read()
a, b = '<!-- seeded table -->\n', '<!-- end of table -->\n'
if '@@TABLE@@\n' in t: t = t.replace('@@TABLE@@\n', a + b)
t = t[:t.index(a) + len(a)] + '\n'.join(rows) + '\n' + t[t.index(b):]
open(p, 'w').write(t)
