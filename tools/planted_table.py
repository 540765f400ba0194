#!/usr/bin/env python3
"""Development aid: rewrites the table of planted bugs in DESIGN.md."""
import glob, json, re
rows = {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    rows.setdefault(json.load(open(f))['property'], []).append(f.split('/')[3].split('-', 1)[1])
table = '| check | planted bugs it catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (p, ', '.join(rows[p])) for p in sorted(rows))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'\| check \| planted bugs it catches \|\n(\|.*\n)+', lambda m: table, s)
open('/verif/DESIGN.md', 'w').write(s)
