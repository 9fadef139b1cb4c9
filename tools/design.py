#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md from seeded/."""
import json, os, re
D = '/verif/seeded'
by = {}
for b in sorted(os.listdir(D)):
    by.setdefault(json.load(open(f'{D}/{b}/meta.json'))['property'], []).append(b)
rows = '\n'.join(f'| {p} | {", ".join(v)} |' for p, v in sorted(by.items()))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(\| property \| planted bugs caught by its check \|\n\|---\|---\|\n).*?\n\n', lambda m: m.group(1) + rows + '\n\n', s, flags=re.S)
s = re.sub(r'`seeded/` has \S+ bugs', '`seeded/` has %d bugs' % sum(map(len, by.values())), s)
open('/verif/DESIGN.md', 'w').write(s)
