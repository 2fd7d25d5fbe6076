"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl')) as fh:
    props = [json.loads(l) for l in fh]
note = ('Bounded: every path of the compiled code, for all values of the free inputs within the ranges given in DESIGN.md and in '
        'the evidence file, decided by z3/cvc5; nothing is claimed outside them. Trusts rustc up to LLVM IR, the executor '
        '(sampled paths are replayed on native builds in every run) and the solvers.')
doc = {
    'version': 1,
    'setup_cmd': 'python3 engine/build.py',
    'hooks': {'guard': 'none: the checks use the public interface only', 'enable': 'nothing to enable', 'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3-vt engine/check.py %s' % p['id'],
        'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of LLVM IR with SMT-decided assertions',
        'level': 'model_checking',
        'level_note': note,
    } for p in props],
    'not_applicable': [],
    'notes': 'DESIGN.md describes the executor, the harness, the bounds and the seeded changes; known-findings lists repaired defects.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
