"""MANIFEST.json from tools/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import registry as R

TECH = ('contract-based deductive verification: contracts and loop invariants on the real /repo source, '
        'obligations discharged by z3/cvc5 (pyvc)')
NOTE = ('All paths and all iterations of the functions under contract, on the source of /repo as it is at run '
        'time; a refuted obligation is replayed on the real code. Trusted: CPython, z3/cvc5, the mechanical '
        'loop/list transformation (vc/loader.py) and the stated contracts of pandas/numpy; numbers are '
        'mathematical.')
pids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in pids:
    if p in R.UNITS:
        lv = getattr(R, 'LEVEL', {}).get(p, 'proof')
        note = NOTE + ' ' + ' '.join(getattr(R, 'NOT_PROVED', {}).get(p, []))
        checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=TECH, level=lv,
                           level_note=note.strip()))
    else:
        na.append(dict(property=p, reason=R.NA.get(p, 'contracts for these functions are not written yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks read its source and import it as it is.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
