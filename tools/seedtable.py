#!/usr/bin/env python3
"""writes the table of planted bugs in DESIGN.md"""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(ROOT + '/seeded_results.json')) if os.path.exists(ROOT + '/seeded_results.json') else {}
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, m['property'])} |")
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->|SEEDED_TABLE', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
