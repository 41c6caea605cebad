#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 7. Planted bugs\n'
p = os.path.join(ROOT, 'DESIGN.md')
head = open(p).read().split(MARK)[0]
rows = ['| id | caught by | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'].replace('|', '\\|'),
                                           d['needs'].replace('|', '\\|')))
open(p, 'w').write(head + MARK + '\nThe check of the property in the second column reports each of them (`tools/plant.py --check`).\n\n' + '\n'.join(rows) + '\n\n[rapid]: https://pkg.go.dev/pgregory.net/rapid\n')
