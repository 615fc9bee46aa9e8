#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| bug | what it needs | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[1], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
s = open('DESIGN.md').read()
s = re.sub(r'\n\| bug \|.*', '', s, flags=re.S).rstrip('\n') + '\n\n' + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(s)
