#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md"""
import glob, json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(d + '/DESIGN.md').read()
head = '| id | property | change | what it needs to show |\n|---|---|---|---|\n'
a = s.index('| id | property | change |')
b = s.index('\n\n', a)
rows = ''
for x in sorted(glob.glob(d + '/seeded/S*')):
    m = json.load(open(x + '/meta.json'))
    rows += '| %s | %s | %s | %s |\n' % (os.path.basename(x), m['property'], m['what_it_breaks'], m['needs'])
open(d + '/DESIGN.md', 'w').write(s[:a] + head + rows.rstrip('\n') + s[b:])
