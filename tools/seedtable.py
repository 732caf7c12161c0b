#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the two markers) from seeded/."""
import os, json, re, collections
R = '/verif'
missed = set(open(f'{R}/tools/missed_first.txt').read().split())
t = collections.defaultdict(list)
for i in sorted(os.listdir(f'{R}/seeded')):
    p = json.load(open(f'{R}/seeded/{i}/meta.json'))['property']
    n = i.split('-', 1)[1]
    t[p].append(f'**{n}**' if i in missed else n)
rows = ['| check | planted bugs it catches (bold: missed at first) |', '|---|---|']
rows += [f'| {p} | {", ".join(v)} |' for p, v in sorted(t.items())]
s = open(f'{R}/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: a + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open(f'{R}/DESIGN.md', 'w').write(s)
print(sum(map(len, t.values())), 'planted bugs')
