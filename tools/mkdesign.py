"""Renews the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | breaks | needs |', '|---|---|---|']
seeded = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(seeded)):
    with open(os.path.join(seeded, i, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s: %s | %s |' % (
        i, m['property'], m['what_it_breaks'], m['needs']))
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    text = f.read()
head = text[:text.index('| change | breaks | needs |')]
with open(path, 'w') as f:
    f.write(head + '\n'.join(rows) + '\n')
