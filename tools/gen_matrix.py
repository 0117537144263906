#!/usr/bin/env python3
"""gen_matrix.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
ALSO = {'c08': 'C12', 'c09': 'C24', 'd10': 'C14', 'd12': 'C06, C07'}
rows = ['| id | caught by | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]
    m = json.load(open(f))
    by = m['property'] + (f", {ALSO[i]}" if i in ALSO else '')
    rows.append(f"| {i} | {by} | {m['what_it_breaks']} |")
t = open('DESIGN.md').read()
table = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
if '@MATRIX@' in t:
    t = t.replace('@MATRIX@', table)
else:
    t = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: table, t, flags=re.S)
open('DESIGN.md', 'w').write(t)
