#!/usr/bin/env python3
"""settable.py RESULTS: puts the table of the planted bugs into DESIGN.md"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.check_output([sys.executable, V + '/tools/mkdesign.py', sys.argv[1]], text=True)
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!--TABLE-->.*?<!--/TABLE-->', lambda m: '<!--TABLE-->\n' + t + '<!--/TABLE-->', s, flags=re.S)
open(p, 'w').write(s)
