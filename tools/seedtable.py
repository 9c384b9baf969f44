#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
p = '/verif/DESIGN.md'
s = open(p).read()
i = s.find('\n| bug | property |')
if i < 0: i = s.index('\nSEEDTABLE')
t = '\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
missed = json.load(open('/verif/tools/missed.json')) if os.path.exists('/verif/tools/missed.json') else []
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json')); n = os.path.basename(d)
    t += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], 'not caught' if n in missed else m['property'])
open(p, 'w').write(s[:i] + t)
