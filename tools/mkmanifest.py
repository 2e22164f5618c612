#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import spec
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.PROPS:
        s = spec.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 checks/runner.py %s --tier quick' % i, 'thorough_cmd': 'python3 checks/runner.py %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the LLVM bitcode of /repo + SMT (z3/cvc5), native replay of counterexamples',
            'level': 'model_checking',
            'level_note': ('Bounds: %s. Outside: %s. ' % (s.get('bounds', ''), s.get('outside') or 'nothing further')) + 'Trusted: the symbolic executor, the SMT solvers, the NTL/libc models (cross-checked by native replay), clang.'})
    else:
        na.append({'property': i, 'reason': spec.NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'make -C engine -j8', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks are needed in /repo. Engine: engine/; harnesses: harness/; models: model/; jobs and bounds: checks/spec.py; runner: checks/runner.py.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
