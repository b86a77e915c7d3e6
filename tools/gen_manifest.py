#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it is in CLAIMED."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = T.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': 'no monitor yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': c['technique'], 'level': c.get('level', 'exploration'), 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all observation points (storage, mutator, policy, transport, request and response) are interfaces of the library, which the harness implements or wraps. Properties are anchored in the source by properties.jsonl.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
