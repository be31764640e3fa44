#!/usr/bin/env python3
"""Write the table of the planted bugs into DESIGN.md, from seeded/*/meta.json
and tools/missed.tsv (id, what its check did not generate at
first)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = {}
for l in open(root + '/tools/missed.tsv'):
    a, b = l.rstrip('\n').split('\t')
    first[a] = b
rows = []
for m in glob.glob(root + '/seeded/*/meta.json'):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append((d['property'], i, d['needs'], first.get(i, '')))
rows.sort()
out = ['| caught by | planted bug | needs | missed until the check had |', '|---|---|---|---|']
out += ['| ' + ' | '.join(c.replace('|', '/') for c in r) + ' |' for r in rows]
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- table -->\n', '<!-- end of table -->\n'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '\n'.join(out) + '\n' + s[j:]
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
