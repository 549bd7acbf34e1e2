#!/usr/bin/env python3
"""Write MANIFEST.json: every property of properties.jsonl with a check in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'TLA+ specification checked with TLC; TLC behaviours replayed into the code, recorded calls validated as traces by TLC',
                       'level': 'model_checking', 'level_note': notes.get(i, 'bounded; see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
