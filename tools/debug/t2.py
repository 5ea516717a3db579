"""Traceback of the first violation of a job: pypy t2.py JOB"""
import sys, traceback
sys.path.insert(0, '/verif')
from sx import worker
from sx.api import JOBS
st = worker.load()
jobs = {j.id: j for js in JOBS.values() for j in js}


class R:
    def run(self, *a):
        return {'status': 'x', 'events': []}


r = worker.Runner(jobs[sys.argv[1]], 'quick', 1, 60, st, R())
from sx.ctx import SymCtx


def oc(self, f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        self.tb = traceback.format_exc()
        return None, e


SymCtx.outcome = oc
r.finished = lambda: None


def viol(label, model, detail=None):
    print(label, [(n, d) for n, k, d in r.ctx.inputs if k == 'const'],
          detail, getattr(r.ctx, 'tb', '')[-1800:])
    raise SystemExit


r.violation = viol
r.ex.on_violation = viol
r.run()
