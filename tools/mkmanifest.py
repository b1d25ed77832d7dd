#!/usr/bin/env python3
"""writes MANIFEST.json from units/index.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(f'{V}/units/index.json'))
idx['properties'] = {f[:-5]: json.load(open(f'{V}/units/props/{f}')) for f in sorted(os.listdir(f'{V}/units/props'))}
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    c = idx['properties'].get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': idx['not_applicable'].get(p['id'], 'not claimed yet: its check is still being built')}); continue
    parts = []
    if c.get('verus'): parts.append('deductive verification (Verus/Z3 contracts) of the extracted functions')
    if c.get('kani'): parts.append('Kani/CBMC contract harnesses on the extracted functions')
    checks.append({'property': p['id'], 'quick_cmd': f"./check.py {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check.py {p['id']}",
      'evidence_file': f"evidence/{p['id']}.json", 'technique': ' + '.join(parts) + ', with a bounded replay of the executable contract on the real crate',
      'level': c.get('level', 'proof'), 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: the functions under contract are extracted from the source text on every run, and the replay harness uses the public API. See DESIGN.md.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
