#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification: weakest-precondition style obligations generated from the go/ssa form of /repo, discharged by z3/cvc5',
            'level': 'proof',
            'level_note': CLAIMS[i],
        })
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'no contract for this property discharges yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contracts are in /verif/contracts/*.vc, the verifier in /verif/govc; no hooks in /repo are needed.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
