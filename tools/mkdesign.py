#!/usr/bin/env python3
"""Prints the table of the planted bugs for DESIGN.md: mkdesign.py RESULTS (lines: bug property rc ... obligation)"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d\d) rc=(\d)(.*)', l)
    if m:
        o = re.search(r'failed obligation (\S+)', m.group(4))
        res.setdefault(m.group(1), []).append((m.group(2), m.group(3), o.group(1) if o else '', 'replayed natively' in m.group(4)))
print('| bug | needs | caught by |')
print('|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = f.split('/')[-2]
    d = json.load(open(f))
    c = '; '.join('%s `%s`%s' % (p, o, ', replayed' if r else ' (no input)') for p, rc, o, r in res.get(n, []) if rc == '1')
    print('| %s | %s | %s |' % (n, d['needs'], c or 'NOT CAUGHT'))
