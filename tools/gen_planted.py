# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
p = V + '/DESIGN.md'; s = open(p).read()
b, e = '<!-- planted:begin -->\n', '<!-- planted:end -->\n'
i, j = s.index(b) + len(b), s.index(e)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
