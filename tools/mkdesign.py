"""Writes the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | what it breaks | what it needs | caught by |', '|---|---|---|---|---|']
also = {}
p = os.path.join(V, 'tools', 'caught.json')
if os.path.exists(p):
    also = json.load(open(p))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(also.get(i, [m['property']]))))
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
