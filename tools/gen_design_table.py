"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = json.load(open(os.path.join(V, 'tools/planted/exceptions.json')))
d = open(os.path.join(V, 'DESIGN.md')).read()
head = d[:d.index('## Planted bugs')]
rows = []
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    rows.append(f"| {s} | {m['needs'].strip().rstrip('.')} | {NOT.get(s, m['property'])} |".replace('\n', ' '))
open(os.path.join(V, 'DESIGN.md'), 'w').write(head + f'''## Planted bugs

{len(rows)} changes, each of which passes the stable tests and has a demonstration
that fails with it only. The third column names the quick check that caught it
(seed 1, on a copy of the tree with the change) when it was planted or after the
check had been strengthened.

| change | what it needs | caught by |
|---|---|---|
''' + '\n'.join(rows) + '\n')
