#!/usr/bin/env python3
"""seedtable.py CATCH-OUTPUT...: puts the table of planted bugs into DESIGN.md."""
import json, os, re, sys
cls = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) exit (\d) \d+s (.*)', l)
        if m:
            c = re.search(r'run \d+: ([\w:-]+?): ', m[3])
            cls[m[1]] = c[1] if m[2] == '1' and c else 'MISSED'
rows = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['needs']} | {cls.get(i, '?')} |")
p = '/verif/DESIGN.md'
d = open(p).read()
h = '|---|---|---|\n'
k = d.rindex(h) + len(h)
open(p, 'w').write(d[:k] + '\n'.join(rows) + '\n')
