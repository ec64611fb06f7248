"""Writes the table of planted bugs into DESIGN.md."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
rows = ['<!-- seeds -->', '| id | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    also = ', '.join(m.get('caught_by', [m['property']]))
    rows.append(f'| {d.name} | {m["what_it_breaks"]} | {m["needs"]} | {also} |')
rows.append('<!-- /seeds -->')
p = V / 'DESIGN.md'
s = p.read_text()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE', lambda _: '\n'.join(rows), s, flags=re.S)
p.write_text(s)
