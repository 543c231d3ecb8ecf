#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = 'symbolic execution of the compiled LLVM IR of the library; SMT (z3 bit-vectors, IEEE floats) equivalence with a written specification'
ER = 'path-wise symbolic execution of the compiled LLVM IR; SMT (z3 bit-vectors, and nonlinear reals with rounding-error bounds) decides the error bound on every path'
N_EQ = ('For every bit pattern of the inputs, within the bounds listed in the evidence (types, exponents), the library code and the specification agree or z3 gives an input that is replayed natively. '
        'Trusted: rustc/LLVM lowering of the dev profile, the symbolic executor (validated on native runs each time), z3; library functions outside the crate named in the evidence are uninterpreted.')
N_ER = ('For every input within the bounds listed in the evidence, on every execution path. Rounding is over-approximated by proven error bounds, so a path the solver cannot decide is reported as undecided, never as held. '
        'Trusted: rustc/LLVM lowering, the symbolic executor and the error-bound rules (validated on native runs), z3.')
KN = 'Kani: CBMC symbolic execution of the compiled crate and core::fmt on a symbolic component type; SAT solver decides the text against the required text'
N_KN = ('For every value of an 8-bit component type that follows the formatting conventions of the number types and every combination of sign, alternate and precision flags; a counterexample is replayed natively. '
        'Trusted: Kani and CBMC; how a part prints its own digits is left to its type.')
CLAIMS = json.load(open(f'{V}/tools/claims.json'))
checks = []
for pid in CLAIMS['eq'] + CLAIMS['err'] + CLAIMS['kani']:
    tq, nt = (ER, N_ER) if pid in CLAIMS['err'] else (KN, N_KN) if pid in CLAIMS['kani'] else (EQ, N_EQ)
    checks.append(dict(property=pid, quick_cmd=f'python3-vt run.py {pid} quick', thorough_cmd=f'python3-vt run.py {pid} thorough', technique=tq, level='model_checking', level_note=nt))
checks.sort(key=lambda c: c['property'])
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
na = [dict(property=p, reason=CLAIMS['na'].get(p, 'check not built yet')) for p in props if p not in [c['property'] for c in checks]]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Each check builds a driver crate against /repo, links its LLVM IR and decides it with z3 (C19: with Kani); build output under /verif/build.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
