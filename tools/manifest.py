"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / 'tools' / 'level_notes.json').read_text())
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    f = V / 'checks' / f'{p["id"].lower()}.py'
    if f.exists():
        n = NOTES.get(p['id'], {})
        spec = ', '.join(sorted(set(re.findall(r"'module': '(\w+)'", f.read_text()))
                                | set(re.findall(r"^JUDGE = '(\w+)'", f.read_text(), re.M))))
        checks.append({
            'property': p['id'],
            'quick_cmd': f'./check {p["id"]} quick',
            'thorough_cmd': f'./check {p["id"]} thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': n.get('technique', f'TLA+ specification ({spec}) checked with TLC; real executions replayed from / validated against it'),
            'level': 'model_checking',
            'level_note': n.get('note', 'TLC checks the specification exhaustively within small constants; every recorded execution of the real code is judged by TLC against the same operators.'),
        })
    else:
        na.append({'property': p['id'], 'reason': n if isinstance(n := NOTES.get('na', {}).get(p['id']), str) else 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the public API exposes the abstract state. Specifications are in spec/, bindings in checks/, the driver in lib/.'}
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not claimed')
