"""rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property, and the check that catches it | what it needs |', '|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], ' '.join(m['needs'].split())))
p = here + '/DESIGN.md'
s = open(p).read()
new = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if '(table to come)' in s:
    s = s.replace('(table to come)', new)
else:
    s = re.sub('<!-- seeded -->.*<!-- /seeded -->', lambda m: new, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 2, 'planted bugs')
