#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = json.load(open(root + '/tools/seed_notes.json'))
t = open(root + '/DESIGN.md').read()
mark = '<!-- seeds -->\n'
t = t.split(mark)[0]
rows = ['| planted bug | caught by | needs | missed at first |', '|---|---|---|---|']
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), 'after: ' + miss[s] if s in miss else ''))
open(root + '/DESIGN.md', 'w').write(t + mark + '\n'.join(rows) + '\n')
