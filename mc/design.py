# Writes the table of planted bugs into DESIGN.md, between its two markers (run by hand; no check reads seeded/).
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['what_it_breaks'], m.get('caught_by', m['property'])))
rows.sort()
t = '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + ''.join(f'| {s} | {p} | {w} | {c} |\n' for p, s, w, c in rows)
p = root + '/DESIGN.md'
d = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
open(p, 'w').write(d)
