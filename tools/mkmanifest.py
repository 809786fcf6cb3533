"""Write MANIFEST.json. LEVELS says which properties the deductive verifier decides for all inputs."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
PY = '/opt/veriftools/pyvenv/bin/python3'
try:
    LEVELS = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
except OSError:
    LEVELS = {}
PROVED = json.load(open(os.path.join(HERE, 'tools', 'proved.json')))
for k, v in PROVED.items():
    LEVELS[k] = dict(level='proof', technique='contract-based deductive verification of the real functions (pyvc: verification conditions from /repo source, discharged by z3)',
                     note='Every obligation generated from the current source is discharged for %s. Trusted: the pyvc interpreter and its models of Python builtins, z3, the sum rules '
                          '(stated and proved in lean/), integers mathematical, floats as the reals they denote. The same contracts also run as bounded executable checks, '
                          'which give failing inputs and are not counted as proved.%s' % (v['n'], ' ' + v['x'] if v.get('x') else ''))
NA = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    lv = LEVELS.get(i, {})
    checks.append(dict(property=i, quick_cmd='%s check.py %s' % (PY, i), thorough_cmd='VERIF_TIER=thorough %s check.py %s --thorough' % (PY, i),
                       technique=lv.get('technique', 'executable contracts on the real functions, bounded stand-in'),
                       level=lv.get('level', 'exploration'),
                       level_note=lv.get('note', 'Contracts evaluated on the real code over enumerated and seeded random inputs; bounded, not a proof.')))
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python3 -m compileall -q pyvc oracle check.py || true', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='See DESIGN.md. known_findings.txt lists the defects repaired in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
