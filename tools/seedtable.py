"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property that reports it | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], d['property'], d['needs']))
p = root + '/DESIGN.md'
s = open(p).read()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', table)
else:
    s = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda m: table, s, flags=re.S)
open(p, 'w').write(s)
