#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d))); rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read(); a = s.index('<!--seeds-->'); b = s.index('<!--/seeds-->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!--seeds-->\n| change | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:])
