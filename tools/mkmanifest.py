"""Writes MANIFEST.json: one entry per property that has a check."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import registry

TECH = {
    'L': 'property-based testing: generated operators and expressions against exact dense algebra, with shrinking',
    'Q': 'model-based property testing: generated update histories against dense BFGS recursions, with shrinking',
    'T': 'property-based testing against exact (rational or dense) reference computations, with shrinking',
    'K': 'property-based testing: generated systems, budgets and options against reference Krylov computations, with shrinking',
    'S': 'property-based testing: generated symmetric systems against dense reference solutions and Krylov minimisers, with shrinking',
    'R': 'property-based testing: generated least-squares and quasi-definite systems against dense references, with shrinking',
    'X': 'metamorphic and stateful property testing of all solvers, with shrinking',
}
TECH_OF = {'L10': 'stateful model-based property testing: generated assignment sequences against a freshly built operator, with shrinking'}
PY = '/opt/veriftools/pyvenv/bin/python'
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    c = importlib.import_module('props.' + registry.GROUP[i]).CHECKS.get(i)
    if c is None:
        na.append({'property': i, 'reason': 'the check is not written yet'})
        continue
    note = ('Random search, no proof: what is shown is that no violation was found among the cases counted in the evidence (%d quick, %d thorough). %s. '
            'Trusts Hypothesis and the sampler of vlib/gen.py, numpy and the 2to3 translation of the working tree under PyPy, which is how this Python 2 code base is built here.'
            % (c.quick, c.thorough, '; '.join(c.assumptions) or 'No further assumption'))
    checks.append({'property': i,
                   'quick_cmd': '%s run.py %s --tier quick' % (PY, i),
                   'thorough_cmd': '%s run.py %s --tier thorough' % (PY, i),
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': TECH_OF.get(i, TECH[i[0]]),
                   'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': '%s tools/setup_check.py' % PY, 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Known findings and repaired defects: known_findings.txt. Every check translates /repo/pykrylov afresh (Python 2 to 3) into a scratch directory that it removes.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
