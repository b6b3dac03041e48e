#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (the property named in meta.json is the check that catches it)."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('caught_by', m['property']), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
d = open(H + '/DESIGN.md').read()
open(H + '/DESIGN.md', 'w').write(d[:d.index('| planted bug |')] + '\n'.join(out) + '\n')
