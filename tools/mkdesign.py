"""Rewrites the table of the planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded_results.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, 'tools', 'seeded_results.json')))
rows = ['| planted bug | property | needs | checks |', '| --- | --- | --- | --- |']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    cs = res.get(d, {}).get('checks', {})
    txt = ', '.join('%s %s' % (c, r) for c, r in sorted(cs.items()))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), txt))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(\n<!-- end -->)', lambda x: x.group(1) + '\n'.join(rows) + x.group(2), s, flags=re.S)
open(p, 'w').write(s)
