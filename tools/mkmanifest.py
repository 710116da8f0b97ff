#!/opt/veriftools/pyvenv/bin/python3
"""writes MANIFEST.json from contracts/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(R, 'contracts'), os.path.join(R, 'vc')]
from props import PROPS, NA
titles = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))}
checks = []
for p in sorted(PROPS):
    q = PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt vc/check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt vc/check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': q.get('technique', 'function contracts verified deductively over the clang AST of the current sources (SMT: z3, cvc5)'),
                   'level': q.get('level', 'proof'), 'level_note': q.get('note', '')})
m = {'version': 1, 'setup_cmd': 'python3-vt vc/selftest.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'One deductive verifier (vc/) and one contract module per property (contracts/); bounded native harnesses (native/) replay and stand in.'}
assert set(PROPS) | set(NA) == set(titles), set(titles) ^ (set(PROPS) | set(NA))
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
