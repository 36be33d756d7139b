#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/proptext.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
sys.path.insert(0, here)
from proptext import TEXT, NOT_APPLICABLE, NOTES
with open(os.path.join(verif, 'properties.jsonl'), 'w') as f:
    for p in TEXT:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd='python3-vt dv/selftest.py', checks=[], not_applicable=NOT_APPLICABLE, notes=NOTES)
for p in TEXT:
    if p['id'] in na: continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt dv/check.py %s quick' % p['id'], thorough_cmd='python3-vt dv/check.py %s thorough' % p['id'],
        technique='contract-based deductive verification: requires/ensures contracts on the real code, verification conditions generated from its LLVM IR, discharged by z3/cvc5',
        level=p.get('level', 'proof'), level_note=p['note']))
with open(os.path.join(verif, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(m['checks']), 'checks')
