#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.txt
(lines: <bug> <property> <caught|missed>, written by hand from runs of the quick checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(V + '/tools/seed_results.txt'):
    f = line.split()
    if len(f) >= 3:
        res.setdefault(f[0], {})[f[1]] = f[2]
out = ['| bug | property | needs | caught by (quick) | missed by (of those tried) |', '|---|---|---|---|---|']
rows = []
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + b + '/meta.json'))
    r = res.get(b, {})
    rows.append((m['property'], b, '| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'],
        ', '.join(sorted(p for p in r if r[p] == 'caught')) or 'none', ', '.join(sorted(p for p in r if r[p] != 'caught')) or '')))
out += [x[2] for x in sorted(rows)]
p = V + '/DESIGN.md'
s = open(p).read()
h = '## Seeded bugs and what catches them\n'
i = s.index(h) + len(h)
j = s.find('\n## ', i)
tail = s[j:] if j >= 0 else ''
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + tail)
