"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {
    's08': 'first draft was benign (the gap cell protects the read); redesigned',
    's11': 'missed at first; TestC11Long added',
    's11b': 'missed at first; spare-capacity overwrite added',
    's14b': 'first replay depended on earlier cases; fixed cases with two connections added',
}
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    what = ' '.join(m['what_it_breaks'].split()).replace('|', '/')
    rows.append(f"| {d} | {m['property']} | {what} | {m.get('caught_by', m['property'])}{'; ' + notes[d] if d in notes else ''} |")
table = '<!-- planted bugs -->\n\n| id | property | what it breaks | caught by the check of |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
p = root + '/DESIGN.md'
s = open(p).read()
s = re.split(r'SEEDTABLE|<!-- planted bugs -->', s)[0].rstrip() + '\n\n' + table
open(p, 'w').write(s)
