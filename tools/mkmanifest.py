#!/usr/bin/env python3
"""Generates MANIFEST.json and checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from checks_data import CHECKS, NA

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract-based deductive verification of the Go source (own VC generator gvc over go/ssa, SMT: z3, cvc5); failed obligations are replayed on the real code by a bounded harness'
checks, meta, na = [], {}, []
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet: no check decides this property at the moment')})
        continue
    level = c.get('level', 'proof')
    checks.append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': c.get('technique', TECH), 'level': level, 'level_note': c['note']})
    meta[i] = {'level': level, 'explanation': c['note'], 'assumptions': c.get('assumptions', []), 'proof': c.get('proof', True)}
m = {'version': 1, 'setup_cmd': 'sh /verif/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contracts are in contracts/*.gvc, the verifier in gvc/, bounded stand-ins and replay harnesses in harness/. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
json.dump(meta, open(os.path.join(V, 'checks.json'), 'w'), indent=1)
open(os.path.join(V, 'checks.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
