#!/usr/bin/env python3
"""writes MANIFEST.json from specs/groups.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import groups  # noqa
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = ('contract-based deductive verification: weakest-precondition obligations generated from the current Python source of the functions under contract '
        '(specs/, vcgen/), callees by contract, discharged by z3/cvc5 for all shapes and values; refutations replayed by evaluating the same contracts on the real code')
TECHB = 'contracts of the real functions evaluated on bounded inputs (bounded stand-in, not proved)'
NOTE = ('Every obligation of the contracts is discharged for arbitrary sizes and real values. Assumes: real arithmetic for floats; the numpy/scipy/astropy models '
        'in vcgen/npmodel.py; scipy.optimize.nnls optimal or RuntimeError; the vcgen front end. The contracts are also evaluated on the real code over generated inputs '
        '(bounded; counted separately).')
NOTEB = 'Bounded: contracts evaluated on the real code over generated inputs; nothing proved.'
from specs.assume import LEVELNOTE  # noqa
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5, numpy, scipy"', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    ded = i in groups.PROPS
    m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                            technique=TECH if ded else TECHB, level='proof' if ded else 'exploration',
                            level_note=(NOTE if ded else NOTEB) + (' ' + LEVELNOTE[i] if i in LEVELNOTE else '')))
m['notes'] = ('python3-vt runs the verifier; /opt/venv/bin/python runs the code of /repo. Genuine defects found are listed in known-findings.txt '
              '(repaired ones as "fixed:" lines). No instrumentation hooks are used.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
