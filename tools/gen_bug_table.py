#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
Documentation only: no check reads either."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = {}
for line in open(here + '/tools/first_missed.txt'):
    k, _, v = line.strip().partition(' ')
    if k:
        first[k] = v
rows = ['| bug | property, caught by | needs | what it breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(here + '/seeded/*/meta.json'), key=lambda m: (json.load(open(m))['property'], m)):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append('| %s%s | %s | %s | %s |' % (n, ' *' if n in first else '', d['property'], d['needs'], d['what_it_breaks']))
s = open(here + '/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
i, j = s.index(a) + len(a), s.index(b)
notes = ['', 'Those marked * were missed at first:', ''] + ['* %s: %s' % kv for kv in sorted(first.items())] + ['']
open(here + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows + notes) + s[j:])
