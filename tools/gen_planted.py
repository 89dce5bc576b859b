#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md.

tools/planted.txt has a line "id: checks that catch it" for each."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(root + '/tools/planted.txt'):
    if ':' in l:
        i, c = l.rstrip('\n').split(':', 1)
        caught[i] = c.strip()
d = open(root + '/DESIGN.md').read()
d = d[:d.index('## Planted bugs')]
d += '''## Planted bugs

`seeded/` holds planted bugs, each written from the text of a property and the
code. The table says which quick checks catch each of them (the check of the
property it breaks is always run, others where noted).

| Planted bug | Needs | Caught by |
|---|---|---|
'''
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/%s/meta.json' % i))
    d += '| %s | %s | %s |\n' % (i, m['needs'].replace('|', '\\|').replace('\n', ' '), caught.get(i, 'not run'))
open(root + '/DESIGN.md', 'w').write(d)
