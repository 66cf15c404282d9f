#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from props import PROPS
from registry import CHECKS, NOT_APPLICABLE
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
na = []
for p in PROPS:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py run %s --tier quick' % i, thorough_cmd='python3 check.py run %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='symbolic execution of the LLVM IR of the real code, assertions decided by z3', level='model_checking',
                           level_note='Bounded: ' + '; '.join(c['bounds']) + '. Outside: ' + ('; '.join(c.get('outside', [])) or 'larger inputs') +
                           '. Trusts clang 18, z3 and the modelled C library (rt/); sampled paths and every counterexample are re-run natively.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Repairs are listed in KNOWN_FINDINGS.txt.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
