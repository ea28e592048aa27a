#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with at least one job in harness/h is claimed."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
jobs = {}
for f in sorted(glob.glob(root + '/harness/h/*.go')):
    for m in re.finditer(r'^func (C\d\d)_(\w+)\(\)', open(f).read(), re.M):
        jobs.setdefault(m.group(1), []).append(m.group(2))
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs and i not in NA:
        real = any('_Real' in j or j.endswith('Real') for j in jobs[i])
        mach = any('Real' not in j for j in jobs[i])
        enc = []
        if mach: enc.append('bit-vectors and SMT floating point')
        if real: enc.append('exact reals with exp as a constrained uninterpreted function')
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': "symbolic execution of the real code's SSA form + SMT (z3, cvc5), " + ' / '.join(enc),
            'level': 'model_checking',
            'level_note': 'Every assertion of %d jobs is decided for all values of the symbolic inputs and all listed shapes and configurations within the bounds printed in the evidence file; beyond those bounds nothing is claimed. Trusted: the executor (translation of go/ssa, stand-ins for standard-library calls, listed in the evidence), the solvers. The rewriting steps of the term normal form are certified by the solver at the end of each job. Counterexamples are reported only after a native run of the same harness on the solver assignment confirms them; sample assignments of passing paths are replayed natively on every run as a cross-check of the executor.' % len(jobs[i]),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses use the exported API through a separate module with a replace directive. Repairs are the fix: commits in /repo, listed in known_findings.json.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
