#!/usr/bin/env python3
"""writes MANIFEST.json from the property modules present in props/"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
    'C37': "whether a local optimiser reaches the global maximum is a statement about scipy's SLSQP/L-BFGS-B on a non-convex transcendental objective over R^4..R^9; no bounded symbolic encoding of the optimiser decides it",
    'C38': "correctness of bundled or downloaded market data is a fact about the data set, not about code an SMT solver can reason over",
}
EXTRA = {}
TODO = 'check under construction: not claimed yet'
ENG_B = {'C01', 'C02', 'C03', 'C04', 'C05', 'C11', 'C12', 'C14', 'C32', 'C33', 'C34', 'C35'}
checks = []; na = []
for i in ids:
    if os.path.exists(os.path.join(H, 'props', i.lower() + '.py')) and i not in NA:
        tech = 'symbolic execution of the Python source' + (' and of the LLVM IR of the C++ extensions' if i in ENG_B else '') + ' with path conditions and assertions decided by z3, counterexamples replayed on the real package'
        checks.append({'property': i, 'quick_cmd': f'./check.py {i} --tier quick', 'thorough_cmd': f'./check.py {i} --tier thorough', 'technique': tech, 'level': 'model_checking',
                       'level_note': EXTRA.get(i, 'bounded: holds for all real-valued inputs within the sizes, steps and ranges listed in the evidence (bounds); floating point is treated as exact reals, library calls by their documented meaning; see DESIGN.md for stubs and what lies outside')})
    else:
        na.append({'property': i, 'reason': NA.get(i, TODO)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
