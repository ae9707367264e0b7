"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/caught.json (written by tools/tryseed.sh runs)."""
import json, os, re
os.chdir('/verif')
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {caught.get(s, m['property'])} |")
d = open('DESIGN.md').read()
d = d.split('## Planted bugs (seeded/)')[0] + '## Planted bugs (seeded/) and the checks that catch them\n\n' + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(d)
