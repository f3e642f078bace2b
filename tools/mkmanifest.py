"""Regenerate MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    m = registry.META[p['id']]
    if m.get('not_applicable'):
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"python3-vt check.py --property {p['id']} --tier quick",
                   'thorough_cmd': f"python3-vt check.py --property {p['id']} --tier thorough",
                   'technique': m.get('technique', 'contracts'), 'level': m['level'], 'level_note': m.get('level_note', 'bounded')})
man = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': registry.META[p['id']]['not_applicable']} for p in props if registry.META[p['id']].get('not_applicable')]}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
