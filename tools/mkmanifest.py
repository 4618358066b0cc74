#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl (run by hand after a change of the claims)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
TECH = 'contract-based deductive verification of the MIR of /repo (modular symbolic execution against per-function contracts, Z3)'
NOTE = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        continue
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'proof',
                   'level_note': NOTE.get(p, '') + ' ' + NOTE['*']})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
           'notes': 'No hooks in /repo: private functions are reached through the MIR. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
