#!/usr/bin/env python3
"""MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/vc')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 vc/check.py %s' % i, thorough_cmd='python3 vc/check.py %s --tier thorough' % i,
        technique='contract-based deductive verification: obligations generated from clang AST of /repo sources, discharged by z3/cvc5', level='proof', level_note=P['note']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'contracts for the functions behind this property are not finished; nothing is claimed for it')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 vc/selftest.py', checks=checks, not_applicable=na, notes='see DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
