#!/usr/bin/env python3
"""Refresh the seeded-bug table in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                      ' '.join(m['needs'].split()).replace('|', '\\|')))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!--SEEDS-->.*?(?=\n\nBesides these)', lambda _: '<!--SEEDS-->\n' + '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
