#!/usr/bin/env python3
"""Rewrites MANIFEST.json: one check per harness, the rest not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
if os.path.exists(V + '/tools/notes.json'):
    NOTE = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(f'{V}/harness/{i}.cc'):
        bounds = [x[10:].strip() for x in open(f'{V}/harness/{i}.cc') if x.startswith('//@ bound ')]
        ass = [x[11:].strip() for x in open(f'{V}/harness/{i}.cc') if x.startswith('//@ assume ')]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 tools/check.py run {i}',
            'thorough_cmd': f'python3 tools/check.py run {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': "symbolic execution of the real code's LLVM IR, every path's assertions decided by Z3 over bit-vectors (conjunctions of 64-bit differences by a difference-logic procedure, sampled against Z3); counterexamples replayed natively",
            'level': 'model_checking',
            'level_note': 'Holds for every value of the symbolic inputs within: ' + '; '.join(bounds) + '.' + (' Assumes: ' + '; '.join(ass) + '.' if ass else '') +
                          ' Trusts the executor, clang, Z3 and the protobuf/stream models; sampled paths are re-run natively and compared.',
        })
    else:
        na.append({'property': i, 'reason': NOTE.get(i, 'no sound solver-based check built (see DESIGN.md)')})
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo. See DESIGN.md; genuine defects found are in known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
