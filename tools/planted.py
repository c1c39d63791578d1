#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
p = '/verif/DESIGN.md'
s = open(p).read()
i = s.index('| id | property | manifests with |')
j = s.index('\n\n', i) if '\n\n' in s[i:] else len(s)
s = s[:i] + '| id | property | manifests with |\n|---|---|---|\n' + '\n'.join(rows) + (s[j:] or '\n')
open(p, 'w').write(s)
