"""Regenerates MANIFEST.json from checks/*.py and tools/na.json."""
import json, os, sys, importlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
na = json.load(open(R + '/tools/na.json'))
checks = []; nas = []
for i in ids:
    if os.path.exists(R + '/checks/%s.py' % i) and i not in na:
        m = importlib.import_module('checks.' + i)
        checks.append({'property': i, 'quick_cmd': 'python3-vt kvc/driver.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt kvc/driver.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the real C++ (kvc VCs from the clang AST, z3/cvc5); labelled bounded stand-in for replay'),
            'level': getattr(m, 'LEVEL', 'proof'),
            'level_note': getattr(m, 'NOTE', 'All obligations generated from the current source must discharge, for all inputs and iterations. Trusted: clang AST, kvc generator, built-in contracts of library types (listed in the evidence), z3/cvc5; instantiation at Epeck with an opaque face-data type.')})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt kvc/setup.py', 'checks': checks, 'not_applicable': nas,
     'notes': 'kvc: a contract-based deductive verifier for the C++ subset kigumi is written in; see DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
