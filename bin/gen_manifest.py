#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CLAIMED = ['P%02d' % i for i in range(1, 37)]
NA = {
    'N01': 'A cryptographic hardness claim about libsecp256k1 (C, elliptic-curve arithmetic over every adversary): not a bounded assertion over code that an SMT solver can decide; the library is modelled as an ideal scheme.',
    'N02': 'Internals of the sled dependency (lock-free tree, worker threads, log recovery on a real disk): outside the repository and not encodable within reach; the database is modelled by its contract.',
}
LATER = 'not claimed yet: its harness is not written'
NOTE = ('Bounded symbolic execution of the LLVM IR rustc emits for the current /repo: all values of all inputs within the bounds listed in the evidence, '
        'every assertion decided by rewriting or z3; counterexamples are reported only after they reproduce natively. Trusts: rustc, the engine, z3, and the models of '
        'third-party crates in /verif/model (databases, files, signatures, compression by contract; SHA-256 collision free).')
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 bin/check.py --setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build /repo unmodified and replace only its third-party crates ([patch.crates-io] in /verif/harness)', 'source_commits': []},
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 bin/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
        'technique': 'symbolic execution of the real code (LLVM IR) with SMT (z3)',
        'level': 'model_checking',
        'level_note': NOTE,
    } for i in ids if i in CLAIMED],
    'not_applicable': [{'property': i, 'reason': NA.get(i, LATER)} for i in ids if i not in CLAIMED],
}
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
