"""rewrite the table of planted bugs in DESIGN.md section 5 from seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/')))
s = open(R + '/DESIGN.md').read()
h = '| bug | property | what it breaks |\n|---|---|---|\n'
i = s.index(h) + len(h); j = s.index('\n\n', i)
s = s[:i] + '\n'.join(rows) + s[j:]
open(R + '/DESIGN.md', 'w').write(s)
print(len(rows))
