#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties which have checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
import importlib.util
NOTES = json.load(open(os.path.join(here, 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'contracts', i + '.go')) and i in NOTES and 'level_note' in NOTES[i]:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'contract-based deductive verification (govc: symbolic execution of the SSA of /repo against executable Go contracts, obligations discharged by z3/cvc5)',
            'level': 'proof',
            'level_note': NOTES[i]['level_note'],
        })
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('reason', 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Known and fixed defects: known-findings.txt.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
