#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| bug | breaks | caught by | needs |', '|---|---|---|---|']
cut = lambda t: t.replace('|', '/') if len(t) < 150 else t[:147].replace('|', '/') + '...'
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), cut(m['what_it_breaks']), m.get('caught', m['property']), cut(m['needs'])))
s = open(R + '/DESIGN.md').read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
open(R + '/DESIGN.md', 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
