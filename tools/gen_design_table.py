#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
head = '| bug | caught by | what it breaks |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = i
while s[j] == '|':
    j = s.index('\n', j) + 1
open(V + '/DESIGN.md', 'w').write(s[:i] + ''.join(rows) + s[j:])
print(len(rows))
