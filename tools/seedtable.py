"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property (caught by its check) | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks']))
p = H + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 2)
