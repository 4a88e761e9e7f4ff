#!/usr/bin/env python3
"""writes MANIFEST.json from the contract modules that exist (authoring helper, not run by any check)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification (pyded: symbolic execution of the real Python source against function contracts, loop rule, algebraic normal forms + z3/cvc5)',
                       'level': NOTES.get(i, ['proof', ''])[0], 'level_note': NOTES.get(i, ['proof', ''])[1] or 'see DESIGN.md'})
    else:
        na.append({'property': i, 'reason': NOTES.get(i + '-na', 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
