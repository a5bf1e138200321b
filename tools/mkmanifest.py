#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that are implemented."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'analyzer'))
from vp import run
NA = {}
na_file = os.path.join(here, 'tools', 'not_applicable.json')
if os.path.exists(na_file):
    NA = json.load(open(na_file))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
rules = run.rules()
TECH = run.TECHNIQUE
checks = []
for p in props:
    if p['id'] in rules and p['id'] not in NA:
        tech, note = TECH(p['id'])
        checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': tech, 'level': 'other', 'level_note': note})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props if p['id'] in NA],
       'notes': 'All checks are source-level static analyses; nothing of /repo is executed.'}
json.dump(doc, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(doc['not_applicable']), 'not applicable', [p['id'] for p in props if p['id'] not in rules and p['id'] not in NA])
