#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'].replace('|', '/')))
rows.sort()
t = "| caught by | planted bug | needs |\n|---|---|---|\n" + ''.join("| %s | %s | %s |\n" % r for r in rows)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
