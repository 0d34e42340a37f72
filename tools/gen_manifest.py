#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_table import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'technique': c.get('technique', 'property-based testing: generated and enumerated inputs against a reference oracle, shrunk choice-sequence replay; libFuzzer on the same properties in the thorough tier'),
            'level': 'exploration',
            'level_note': c.get('note', 'Search over generated inputs, not proof. Trusts the self-written reference (validated by standard known answers at start-up), clang sanitizers, and that the system Abseil/OpenSSL/BoringSSL behave as in production.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build-all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Unlisted here: fix commits, see known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
