#!/usr/bin/env python3
"""writes MANIFEST.json from specs/ and properties.jsonl"""
import json, os, sys, glob, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, here)
props = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
NA = {
 'C21': 'needs contracts for LAPACK/BLAS, sparse and Fortran (RALFit, L-BFGS-B) solvers and convergence arguments over floating point; no contract within reach of a deductive verifier here states or decides them, and these units do not link in this sandbox',
}
checks, na = [], []
for p in props:
    f = glob.glob(here + '/specs/%s_*.py' % p)
    if f and p not in NA:
        m = importlib.import_module('specs.' + os.path.basename(f[0])[:-3])
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique='contract-based deductive verification of the LLVM IR extracted from /repo on every run (pre/postconditions, loop invariants, z3/cvc5); labelled bounded replay of the real code',
                           level=getattr(m, 'LEVEL', 'proof'),
                           level_note=getattr(m, 'LEVEL_NOTE', 'every obligation of the listed functions is discharged for all inputs and iterations; trusted: clang -O0 lowering, the verifier in vc/, z3/cvc5; assumptions are listed in the evidence file')))
    else: na.append(dict(property=p, reason=NA.get(p, 'not claimed: no contract has been brought to a verdict for it yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5, jsonschema" && clang-18 --version && mkdir -p evidence replay', checks=checks, not_applicable=na,
               notes='Checks read /repo/source directly; replay files go to replay/, evidence to evidence/ (both git-ignored). No hooks in /repo.'), open(here + '/MANIFEST.json', 'w'), indent=1)
import jsonschema; jsonschema.validate(json.load(open(here + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
