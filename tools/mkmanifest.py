#!/usr/bin/env python3
"""Writes MANIFEST.json from symx/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from symx import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if s is None:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'check not built yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=s.get('technique', 'symbolic execution of the LLVM IR of the real sources; SMT (z3) plus a finite-field decision procedure; counterexamples replayed natively'),
                       level='model_checking',
                       level_note=s.get('note', 'Every assertion is decided for all values within the stated bounds: ' + '; '.join(s.get('bounds', []))
                                        + '. Trusts the GMP/libc models, the translator and z3; every reported violation is first reproduced natively.')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); from symx import llvmc; llvmc.L(); print(z3.get_version_string())"',
         checks=checks, not_applicable=na,
         notes='check.py <property> <quick|thorough>; see DESIGN.md. Exit 2 (NO ANSWER) when an obligation could not be decided.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
