"""fills the table of planted bugs in DESIGN.md (between the section headings) from seeded/*/meta.json"""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['Every one passes the stable tests; each is caught by the quick check of its property (and of others where listed).', '', '| id | breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'] + ' quick')))
s = open(os.path.join(H, 'DESIGN.md')).read()
a = s.index('## 8. Planted bugs'); b = s.index('## 9.')
open(os.path.join(H, 'DESIGN.md'), 'w').write(s[:a] + '## 8. Planted bugs\n\n' + '\n'.join(rows) + '\n\n' + s[b:])
