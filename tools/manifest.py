#!/usr/bin/env python3
# Regenerates MANIFEST.json from the harnesses present and tools/notes.json ({"Cxx": {"note":..., "na": reason}})
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
have = sorted(set(os.path.basename(p).split('_')[0] for p in glob.glob(V + '/harness/C*_*.cpp')))
checks, na = [], []
GEN = 'Every input within the stated bounds is decided by symbolic execution of the LLVM IR compiled from the current source plus z3; trusted: clang -O1 lowering, the IR interpreter in /verif/engine (cross-checked by native replay of solver-chosen inputs on every run) and the environment stubs named in the evidence file. Outside the bounds nothing is claimed.'
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'python3 vf.py {i} --tier quick', 'thorough_cmd': f'python3 vf.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
          'technique': 'symbolic execution of the real code (LLVM IR of the current source) with SMT (z3) deciding branches and assertions; counterexamples replayed natively', 'level': 'model_checking', 'level_note': (notes.get(i, {}).get('note', '') + ' ' + GEN).strip()})
    else: na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 vf.py --setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
