#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and NA below"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.P: continue
    p = props.P[i]
    checks.append(dict(property=i, quick_cmd='python3 lib/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 lib/check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification: WhyML contracts on functions extracted from /repo by clang on every run, discharged by z3/cvc5',
        level='proof' if p['proofs'] else 'exploration', level_note=p['note'] or props.NOTE))
na = [dict(property=i, reason=props.NA.get(i, 'no contract within reach yet')) for i in ids if i not in props.P]
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks read and compile the unmodified sources. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
