"""Generates MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if c is None or c.get('draft'):
        na.append({'property': p['id'], 'reason': 'No check has been built for this property yet.'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hook in the repository is needed', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Each check builds the library from /repo and explores its bounded space exhaustively.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
