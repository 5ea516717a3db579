"""Runs harnesses symbolically; job requests and results are JSON lines."""
import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import instrument, models, rope, standin, stubs, values
from .api import JOBS, NOW
from .core import (Ctl, Entry, Explorer, Infeasible, OutOfBudget, Stop,  # noqa
                   Unsupported)
from .ctx import Concretiser, SymCtx
from .values import CUR
from .z3env import z3

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


PUBLIC = {}
REAL = []


def public_of(n):
    if n not in PUBLIC:
        secret = hashlib.sha256(b'key%d' % n).digest()
        PUBLIC[n] = REAL[0](secret).public_key.format(
            compressed=False)[1:]
    return PUBLIC[n]


def source(a):
    """(term, function of its value giving the bytes of the atom) when the
    atom is a public key or digest of a simple input; or None."""
    s = a.args[0]
    if not values.is_sym(s) or len(s.chunks) != 1:
        return None
    c = s.chunks[0]
    if a.kind == 'pub' and type(c) is rope.Atom and c.kind == 'priv':
        return c.args[0], public_of
    if a.kind.startswith('sha') and type(c) is rope.IntC:
        return c.z, lambda n: hashlib.new(
            a.kind, n.to_bytes(c.n, 'big')).digest()
    return None


class Boot:
    """Context while the code under test is imported."""
    hash_ok = True
    keyed = False
    sample_limit = 0
    now_us = NOW

    def __init__(self):
        self.interned = {}
        self.memo = {}
        self.valued = {}
        self.hashed = {}
        self.fresh_keys = []

    def clock(self):
        return NOW

    def fork(self, tag, n):
        raise RuntimeError('choice at import time')

    def record(self, kind, value):
        pass


def load():
    CUR.ctx = Boot()
    CUR.ex = Explorer()
    standin.release_version()
    import coincurve
    REAL.append(coincurve.PrivateKey)
    stubs.install()
    models.patch_times()
    import semantic_version
    roots = {
        'golem_messages': os.path.join(REPO, 'golem_messages'),
        'semantic_version': os.path.dirname(semantic_version.__file__),
        'harness': os.path.join(HERE, 'harness'),
    }
    for m in list(sys.modules):
        if m.split('.')[0] in roots:
            del sys.modules[m]
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    instrument.install(roots)
    import golem_messages  # noqa
    import golem_messages.message  # noqa
    models.shortcut_versions()
    from harness import catalogue
    catalogue.load_all()
    return State()


class State:
    """Mutable state of the code under test, restored before every path."""

    def __init__(self):
        self.saved = []
        seen = set()
        todo = []
        for name, m in list(sys.modules.items()):
            if name.split('.')[0] == 'golem_messages' and m is not None:
                todo.append(m.__dict__)
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            t = type(x)
            if isinstance(x, type):
                if x.__module__.split('.')[0] != 'golem_messages':
                    continue
                d = dict(x.__dict__)
                self.saved.append(('class', x, d))
                todo += list(d.values())
            elif isinstance(x, dict):
                d = dict.copy(x) if t is dict else dict(dict.items(x))
                self.saved.append(('dict', x, d))
                todo += list(d.values())
            elif t is list:
                self.saved.append(('list', x, list(x)))
                todo += x
            elif t is set:
                self.saved.append(('set', x, set(x)))
            elif t is tuple:
                todo += x
            elif t.__module__.split('.')[0] == 'golem_messages':
                d = getattr(x, '__dict__', None)
                if isinstance(d, dict):
                    self.saved.append(('obj', x, dict(d)))
                    todo += list(d.values())
                for c in t.__mro__:
                    slots = c.__dict__.get('__slots__', ())
                    for n in (slots,) if isinstance(slots, str) else slots:
                        if hasattr(x, n):
                            v = getattr(x, n)
                            self.saved.append(('slot', x, (n, v)))
                            todo.append(v)

    def restore(self):
        for kind, x, old in self.saved:
            if kind == 'dict':
                if not same_dict(x, old):
                    dict.clear(x)
                    dict.update(x, old)
            elif kind == 'list':
                if len(x) != len(old) or any(
                        a is not b for a, b in zip(x, old)):
                    x[:] = old
            elif kind == 'set':
                if x != old:
                    x.clear()
                    x |= old
            elif kind == 'obj':
                d = x.__dict__
                if not same_dict(d, old):
                    d.clear()
                    d.update(old)
            elif kind == 'slot':
                if getattr(x, old[0], None) is not old[1]:
                    setattr(x, *old)
            elif kind == 'class':
                cur = x.__dict__
                for k in list(cur):
                    if k not in old:
                        delattr(x, k)
                for k, v in old.items():
                    if cur.get(k) is not v:
                        setattr(x, k, v)
        for m in models.MEMOS:
            m.entries.clear()


def same_dict(x, old):
    if len(x) != len(old):
        return False
    for k, v in dict.items(x):
        if k not in old or old[k] is not v:
            return False
    return True


# -- replay on the untouched code ------------------------------------------------

class Replayer:
    def __init__(self):
        self.proc = None

    def start(self):
        if self.proc is None:
            self.proc = subprocess.Popen(
                [sys.executable, '-m', 'sx.concrete'], cwd=HERE,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                env=dict(os.environ, VERIF_REPO=REPO,
                         PYTHONDONTWRITEBYTECODE='1'))
            self.ready = False

    def run(self, job, tier, case):
        self.start()
        if not self.ready:
            line = self.proc.stdout.readline()
            if line != b'ready\n':
                raise RuntimeError('replay process: %r' % line)
            self.ready = True
        msg = json.dumps(dict(case, job=job, tier=tier))
        self.proc.stdin.write(msg.encode() + b'\n')
        self.proc.stdin.flush()
        return json.loads(self.proc.stdout.readline().decode())

    def stop(self):
        if self.proc is not None:
            self.proc.stdin.close()
            self.proc.wait()
            self.proc = None


# -- findings -----------------------------------------------------------------

def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('known', [])


FINDINGS = known_findings()


def is_known(finding, violation):
    """Listed by harness, claim and the inputs that identify it."""
    if finding['job'] != violation['job'] or \
            finding['label'] != violation['label']:
        return False
    inputs = violation['case']['inputs']
    return all(inputs.get(k) == v
               for k, v in finding.get('inputs', {}).items())


# -- one job ------------------------------------------------------------------------

class Runner:
    MAX_VIOLATIONS = 3
    MAX_CANDIDATES = 8

    def __init__(self, job, tier, seed, budget, state, replayer):
        self.job = job
        self.tier = tier
        self.state = state
        self.replayer = replayer
        self.rng = random.Random('%s %s' % (seed, job.id))
        self.ex = Explorer(deadline=time.time() + budget)
        self.ex.on_violation = self.violation
        self.ex.fit = self.fit
        self.reached = set()
        self.ctx = None
        self.violations = []
        self.known = []
        self.unreproduced = []
        self.undecided = {}      # reason -> count
        self.undecided_cases = []
        self.samples = []
        self.validated = 0
        self.diverged = []
        self.candidates = 0
        self.validate_max = 40 if tier == 'thorough' else 12
        self.path_status = None

    def run(self):
        CUR.ex = self.ex
        ex = self.ex
        budget_out = None
        try:
            while True:
                status = self.path()
                if status == 'done':
                    ex.stats.paths += 1
                    self.finished()
                elif status == 'violated':
                    ex.stats.paths += 1
                elif status == 'infeasible':
                    ex.stats.infeasible += 1
                if ex.stats.paths > ex.max_paths:
                    raise OutOfBudget('path budget exceeded')
                ex.dead = None
                if not ex.backtrack():
                    break
        except OutOfBudget as e:
            budget_out = str(e)
        except Stop:
            pass
        return self.result(budget_out)

    def path(self):
        ex = self.ex
        ex.begin()
        self.state.restore()
        self.ctx = ctx = SymCtx(ex, self.tier, self.job.params)
        ctx.reached = self.reached
        CUR.ctx = ctx
        try:
            self.job.fn(ctx, **self.job.params)
            ex.alive()
        except Infeasible:
            if ex.dead is None or isinstance(ex.dead, Infeasible):
                return 'infeasible'
            raise ex.dead
        except Unsupported as e:
            return self.unsupported(e)
        except Exception as e:      # pylint: disable=broad-except
            if ex.dead is not None:
                if isinstance(ex.dead, Infeasible):
                    return 'infeasible'
                if isinstance(ex.dead, Unsupported):
                    return self.unsupported(ex.dead)
                raise ex.dead
            if ex.replaying:
                return self.unsupported(Unsupported(
                    'non-deterministic re-execution: %s' % e))
            label = 'escaped ' + type(e).__name__
            tb = traceback.format_exc()
            try:
                model = ex.need_model()
            except Infeasible:
                return 'infeasible'
            except Unsupported as e2:
                return self.unsupported(e2)
            ex.stats.requires += 1
            self.violation(label, model, tb)
            return 'violated'
        if ex.replaying:
            return self.unsupported(Unsupported(
                'non-deterministic re-execution: path ended early'))
        return 'done'

    # -- outcomes ---------------------------------------------------------

    def models(self, extra=2):
        """Some models of the current path condition."""
        ex = self.ex
        out = []
        try:
            ex.dead = None
            out.append(self.fit(ex.need_model(), strict=True))
        except Ctl:
            return out
        return out

    def fit(self, model, strict=False):
        """The model with the real public keys and digests of inputs where
        their bits matter."""
        atoms = [(a, source(a)) for group in self.ctx.valued.values()
                 for a in group]
        atoms = [(a, x) for a, x in atoms if x is not None]
        if not atoms:
            return model
        tries = 6 if all(a.kind == 'pub' for a, _ in atoms) else 200
        solver = self.ex.solver
        found = model
        solver.push()
        try:
            for _ in range(tries):
                ids = []
                facts = []
                for a, (z, real) in atoms:
                    n = found.eval(z, model_completion=True)
                    ids.append(z == n)
                    raw = real(n.as_long())
                    for i, bit in enumerate(a.valbits):
                        one = raw[i // 8] >> (7 - i % 8) & 1
                        facts.append(bit if one else z3.Not(bit))
                solver.push()
                solver.add(*(ids + facts))
                r = self.ex.check()
                found = solver.model() if r else None
                solver.pop()
                if r:
                    return found
                solver.add(z3.Not(z3.And(*ids)))
                if not self.ex.check():
                    break
                found = solver.model()
        finally:
            solver.pop()
        return None if strict else model

    def replay(self, model, variants=(0, 1)):
        case = None
        for v in variants:
            case = Concretiser(self.ctx, model, v).case()
            res = self.replayer.run(self.job.id, self.tier, case)
            if res['status'] == 'assume':
                res = self.replayer.run(self.job.id, self.tier, case)
            yield case, res

    def confirmed(self, label, case, res):
        v = {'label': res['label'], 'expected': label, 'case': case,
             'job': self.job.id, 'tier': self.tier,
             'trace': res.get('trace')}
        for f in FINDINGS:
            if is_known(f, v):
                if f not in self.known:
                    self.known.append(f)
                return
        if any(x['label'] == v['label'] for x in self.violations):
            return
        self.violations.append(v)
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def violation(self, label, model, detail=None):
        self.candidates += 1
        last = None
        for case, res in self.replay(model):
            last = (case, res)
            if res['status'] == 'violated':
                self.confirmed(label, case, res)
                if self.candidates >= self.MAX_CANDIDATES:
                    raise Stop()
                return
        self.unreproduced.append({
            'label': label, 'case': last[0], 'result': last[1],
            'detail': detail, 'env': self.ctx.env})
        if self.candidates >= self.MAX_CANDIDATES * (
                5 if self.violations else 3):
            raise Stop()

    def unsupported(self, e):
        ex = self.ex
        reason = str(e)
        n = self.undecided.get(reason, 0)
        self.undecided[reason] = n + 1
        tb = traceback.format_exc()
        if n == 0:
            self.undecided_cases.append(tb[-1500:])
        if sum(self.undecided.values()) <= 12 and not ex.replaying:
            for model in self.models():
                for case, res in self.replay(model):
                    if res['status'] == 'violated':
                        self.confirmed('undecided path: ' + reason,
                                       case, res)
                        return 'undecided'
        if ex.replaying:
            # the rest of the trace is stale
            while len(ex.trace) > ex.pos:
                if ex.trace.pop().scoped:
                    ex.solver.pop()
        return 'undecided'

    def finished(self):
        n = self.ex.stats.paths
        if self.validated >= self.validate_max:
            return
        if n > 6 and self.rng.random() > max(0.02, 4.0 / n):
            return
        ms = self.models()
        if not ms or ms[0] is None:
            return
        case = Concretiser(self.ctx, ms[0]).case()
        # what the real code draws at random may happen not to suit the path
        for _ in range(4):
            res = self.replayer.run(self.job.id, self.tier, case)
            if res['status'] != 'assume' or self.ctx.env:
                break
        if res['status'] == 'violated':
            self.confirmed('path validation', case, res)
            return
        if res['status'] != 'ok' or res['events'] != self.ctx.events:
            if self.ctx.env and res['status'] in ('ok', 'assume'):
                return
            if len(self.diverged) < 5:
                self.diverged.append({
                    'case': case, 'result': res,
                    'events': self.ctx.events})
            return
        self.validated += 1
        if len(self.samples) < 2:
            self.samples.append({'job': self.job.id, 'inputs': case['inputs'],
                                 'events': res['events'][:12]})

    def result(self, budget_out):
        s = self.ex.stats
        missing = [r for r in self.job.reach if r not in self.reached]
        return {
            'job': self.job.id, 'paths': s.paths, 'infeasible': s.infeasible,
            'branches': s.branches, 'queries': s.queries,
            'solver_s': round(s.solver_s, 3),
            'max_query_s': round(s.max_query_s, 3),
            'requires': s.requires, 'trivial': s.requires_trivial,
            'violations': self.violations, 'known': self.known,
            'unreproduced': self.unreproduced[:3],
            'undecided': self.undecided,
            'undecided_traces': self.undecided_cases[:3],
            'budget_out': budget_out,
            'missing': missing, 'samples': self.samples,
            'validated': self.validated, 'diverged': self.diverged,
            'functions': sorted(instrument.SEEN),
        }


def resident():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.setrecursionlimit(5000)
    replayer = Replayer()
    replayer.start()
    state = load()
    jobs = {j.id: j for js in JOBS.values() for j in js}
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        t = time.time()
        instrument.SEEN.clear()
        try:
            r = Runner(jobs[req['job']], req['tier'], req['seed'],
                       min(req['budget'],
                           max(1, req['deadline'] - time.time())),
                       state, replayer).run()
        except BaseException:       # pylint: disable=broad-except
            r = {'job': req['job'], 'error': traceback.format_exc()[-3000:]}
        r['wall_s'] = round(time.time() - t, 3)
        r['bye'] = resident() > 1500 << 20
        out.write(json.dumps(r) + '\n')
        out.flush()
        if r['bye']:
            # the caller starts another one
            break
    replayer.stop()


if __name__ == '__main__':
    from sx import worker
    worker.main()
