#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness headers (a property is claimed when it has a harness)."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin'); import check
NA = {'C32': 'convergence to the global optimum is a limit statement about an unbounded run with stochastic search over real-valued surrogates; no bounded symbolic execution decides it and the code gives no rate to assert'}
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; hs = check.parse_harnesses(i)
    if i in NA or not hs: na.append(dict(property=i, reason=NA.get(i, 'no harness built yet: the code could be encoded, the check is not written'))); continue
    b = '; '.join('%s: %s' % (h['entry'], h['bounds']) for h in hs)
    modes = sorted({h['mode'] for h in hs})
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='bounded symbolic execution of the LLVM IR of the real code, every assertion decided by z3 (%s), counterexamples replayed natively' % ', '.join('bit-precise floating point' if m == 'fp' else 'exact reals' for m in modes),
        level='model_checking', level_note=('Holds for all values within these bounds: ' + b + '. Trusted: z3, engine/rsym.cpp, the models in include/ and rt/ (streams, random numbers, BLAS/LAPACK, processes). Real-arithmetic harnesses do not cover rounding beyond the stated tolerances.')[:3900]))
m = dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed;', [x['property'] for x in na])
