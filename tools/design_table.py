#!/usr/bin/env python3
"""Prints the planted-bug table for DESIGN.md; the matrix file holds 'bugs.py --all' output."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    w = l.split()
    if len(w) > 2: m.setdefault(w[0], set()).update(re.findall(r'(P\d\d):CAUGHT', l))
print('| bug | property | needs | caught by (quick search at a quarter of its size) |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*')):
    n = os.path.basename(d); j = json.load(open(d + '/meta.json'))
    print('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], ' '.join(sorted(m.get(n, {j['property']})))))
