"""writes MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ('Obligations are generated on every run from clang\'s AST of /repo/src and discharged for all inputs by polynomial normalisation and z3 (mathematical integers and reals, '
        'no int overflow); functions called across a contract boundary are used through contracts that other obligations discharge. Trusted: clang front end, the VC generator in dv/, z3, '
        'contracts of MPI/FFTW/libc. Obligations the generator cannot decide are backed by a bounded run of the real code and reported as undecided, never as proved. ')
EXTRA = json.load(open(os.path.join(H, 'tools/levels.json'))) if os.path.exists(os.path.join(H, 'tools/levels.json')) else {}
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'dv/props', i.lower() + '.py')):
        e = EXTRA.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': e.get('technique', 'contract-based deductive verification: function contracts and inferred loop invariants on the real sources, VCs discharged by polynomial normal form and z3'),
                       'level': e.get('level', 'proof'), 'level_note': NOTE + e.get('note', '')})
    else: na.append({'property': i, 'reason': EXTRA.get(i, {}).get('reason', 'not claimed yet: contracts under construction')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks read the sources as they are. fix: commits in /repo are listed in known-findings.txt.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
