#!/opt/venv/bin/python
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| seed | caught by | what it breaks | needs |', '|---|---|---|---|']
for fn in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(fn))
    cell = lambda x: ' '.join(str(x).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(fn)), m.get('caught_by', m['property']), cell(m['what_it_breaks']), cell(m['needs'])))
s = open(V + '/DESIGN.md').read()
tab = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in s:
    a, b = s.split('<!-- seeds -->')[0], s.split('<!-- /seeds -->')[1]
    s = a + tab + b
else:
    s = s.replace('SEEDTABLE', tab)
open(V + '/DESIGN.md', 'w').write(s)
print(len(rows) - 2, 'seeds')
