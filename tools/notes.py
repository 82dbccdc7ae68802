"""notes.json (technique and bounds of each check) from the table in DESIGN.md,
and the table of planted bugs there from seeded/."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
notes = {}
for l in s.splitlines():
    m = re.match(r'\| (C\d\d) [^|]*\|([^|]*)\|([^|]*)\|([^|]*)\|$', l)
    if m:
        i, g, o, b = [x.strip() for x in m.groups()]
        notes[i] = {'technique': f'generated {g}; oracle: {o}',
                    'note': f'Bounds: {b}.' if b else ''}
with open(os.path.join(HERE, 'tools', 'notes.json'), 'w') as f:
    json.dump(notes, f, indent=1)
    f.write('\n')
rows = []
S = os.path.join(HERE, 'seeded')
for k in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, k, 'meta.json')))
    rows.append(f'| {k} | {m["property"]} | {m["needs"]} | {m["property"]} |')
head = '| id | breaks | needs | caught by |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = i
while s[j:j + 1] == '|':
    j = s.index('\n', j) + 1
s = s[:i] + '\n'.join(rows) + '\n' + s[j:]
s = re.sub(r'All \d+ properties', f'All {len(notes)} properties', s)
open(p, 'w').write(s)
