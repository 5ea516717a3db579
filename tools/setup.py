"""Checks that the interpreters and the solver are where the checks look."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run  # noqa

jobs = run.list_jobs('quick')
print('harnesses:', {k: len(v) for k, v in sorted(jobs.items())})
with open(os.path.join(HERE, 'MANIFEST.json')) as f:
    for c in json.load(f)['checks']:
        assert jobs.get(c['property']), c['property']
