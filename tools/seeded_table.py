"""Rewrites the table of planted bugs at the end of DESIGN.md (python3 tools/seeded_table.py).

`also` and `missed` are what was observed when the other checks were tried on the patch.
"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'c02-high-index': 'missed by C03', 'c07-pop-negative': 'missed by C01',
    'c10-clear-required': 'missed by C12', 'c13-sparse-parent': 'missed by C10',
    'c13-recycled': 'missed by C10',
    'c09-set-element': 'needed `setforeign`', 'c09-pop-optional': 'needed optional fields in Dict',
    'c18-falsy-state': 'needed falsy states', 'c40-path-state': 'needed slice finds in threads',
}
NOTE.update(json.load(open(os.path.join(HERE, 'tools', 'seeded_notes.json')))
            if os.path.exists(os.path.join(HERE, 'tools', 'seeded_notes.json')) else {})
rows = ['| planted bug | caught by | what it breaks | note |', '|---|---|---|---|']
root = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['what_it_breaks'].replace('|', '/'), NOTE.get(name, '')))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
mark = '<!-- seeded -->'
open(path, 'w').write(text[:text.index(mark)] + mark + '\n' + '\n'.join(rows) + '\n')
print(len(rows) - 2)
