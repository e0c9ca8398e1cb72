#!/usr/bin/env python3
"""prints section 5 of DESIGN.md: the planted changes kept in seeded/, per property, and the check that catches each"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    x = json.load(open(m))
    rows.setdefault(x['property'], []).append((os.path.basename(os.path.dirname(m)), x))
cut = lambda s, n: s if len(s) <= n else s[:n - 2].rsplit(' ', 1)[0] + ' ..'
n = sum(map(len, rows.values()))
print('| planted change | needs | breaks |\n|---|---|---|')
for p in sorted(rows):
    for i, x in rows[p]:
        print('| %s | %s | %s |' % (i, cut(x['needs'], 110).replace('|', '\\|'), cut(x['what_it_breaks'], 130).replace('|', '\\|')))
