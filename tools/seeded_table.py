"""Writes the table of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json and notes."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    files = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', open(f'{root}/seeded/{d}/patch.diff').read(), re.M)))
    what = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append(f"| {d} | {m['property']} | {', '.join(f.split('/')[-1] for f in files)} | {what} |")
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '| bug | caught by | in | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
