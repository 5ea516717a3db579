"""Concrete execution of harnesses over the untouched code.

Reads cases as JSON lines on stdin; each runs in a forked child.
"""
import enum
import json
import os
import select
import signal
import sys
import time
import traceback
import uuid

from .api import JOBS, NOW, Api, from_json


real_time = time.time


class AssumeFailed(BaseException):
    pass


class Violated(BaseException):
    pass


class Mismatch(BaseException):
    """The case does not provide an input asked for."""


class ConcreteCtx(Api):
    symbolic = False

    def __init__(self, tier, params, case):
        self.tier = tier
        self.params = params
        self.names = {}
        self.inputs = {k: from_json(v) for k, v in case['inputs'].items()}
        self.records = [(k, from_json(v)) for k, v in case['records']]
        self.events = []
        self.violation = None
        self.now_us = NOW
        self.sample_limit = 0
        self.hash_ok = True

    def get(self, name):
        name = self.unique(name)
        if name not in self.inputs:
            raise Mismatch('no input ' + name)
        return self.inputs[name]

    def choice(self, name, n):
        i = self.get(name)
        if not 0 <= i < n:
            raise Mismatch('choice %s out of range' % name)
        return i

    def int(self, name, lo=None, hi=None):
        return self.get(name)

    def bool(self, name):
        return self.get(name)

    def bytes(self, name, n):
        return self.get(name)

    def bits(self, name, n, positions):
        return self.get(name)

    def blob(self, name, lo, hi):
        return self.get(name)

    def text(self, name, lo, hi):
        return self.get(name)

    def decimal(self, name, lo, hi):
        return str(self.get(name))

    def ip(self, name):
        return self.get(name)

    def key(self, name):
        return self.get(name)

    def uuid_text(self, name, node=None):
        v = self.get(name)
        if node is None:
            return v
        return str(uuid.UUID(bytes=v + node.to_bytes(6, 'big')))

    def set_now(self, us):
        self.now_us = us

    def clock(self):
        return self.now_us

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def same(self, a, b):
        return same(a, b)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return not a or bool(b)

    def require(self, c, label):
        self.events.append('require ' + label)
        if not c:
            self.violation = label
            raise Violated(label)

    def reach(self, label):
        self.events.append('reach ' + label)

    def note(self, text):
        self.events.append('note ' + text)

    def is_true(self, c):
        return bool(c)

    def count_bits(self, data):
        return bin(int.from_bytes(data, 'big')).count('1')

    def take(self, kind):
        """The next recorded random value of this kind."""
        for i, (k, v) in enumerate(self.records):
            if k == kind:
                del self.records[i]
                return v
        return None


def kind(x):
    if x is None:
        return 'none'
    for t in (bool, str, int, float):
        if isinstance(x, t):
            return t.__name__
    if isinstance(x, (bytes, bytearray)):
        return 'bytes'
    if isinstance(x, (list, tuple)):
        return 'list'
    if isinstance(x, dict):
        return 'dict'
    return 'obj'


def same(a, b):
    if a is b:
        return True
    k = kind(a)
    if k != kind(b):
        return False
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        if type(a) is not type(b):
            return False
    if k == 'list':
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if k == 'dict':
        return len(a) == len(b) and all(
            x in b and same(a[x], b[x]) for x in a)
    if k == 'float':
        return a == b or (a != a and b != b)
    if k == 'obj' and type(a) is not type(b):
        return False
    return bool(a == b)


def patch_environment(ctx):
    """Clock and randomness come from the case."""
    import calendar  # noqa
    import datetime
    import random

    plain_gmtime = time.gmtime
    epoch = datetime.datetime(1970, 1, 1)

    def now():
        us = ctx.now_us
        return us // 1000000 if us % 1000000 == 0 else us / 1000000

    time.time = lambda: float(now())
    time.monotonic = time.time

    def gmtime(t=None):
        return plain_gmtime(ctx.now_us // 1000000 if t is None else t)
    time.gmtime = gmtime

    def utcnow():
        return epoch + datetime.timedelta(microseconds=ctx.now_us)

    def now_dt(tz=None):
        if tz is None:
            return utcnow()
        return utcnow().replace(tzinfo=datetime.timezone.utc).astimezone(tz)
    try:
        datetime.datetime.utcnow = staticmethod(utcnow)
        datetime.datetime.now = staticmethod(now_dt)
    except TypeError:       # immutable type (CPython)
        pass

    plain_sample = random.sample
    plain_choice = random.choice
    plain_randrange = random.randrange

    def sample(population, n, **k):
        v = ctx.take('sample')
        items = list(population)
        if v is not None and len(v) == n and all(x in items for x in v):
            return list(v)
        return plain_sample(sorted(items), n, **k)

    def choice(seq):
        v = ctx.take('choice')
        if v is not None and v < len(seq):
            return list(seq)[v]
        return plain_choice(seq)

    def randrange(start, stop=None, step=1):
        v = ctx.take('rand')
        if v is not None:
            return v
        return plain_randrange(start, stop, step)
    random.sample = sample
    random.choice = choice
    random.randrange = randrange
    random.randint = lambda a, b: randrange(a, b + 1)


def run_case(job, tier, case):
    ctx = ConcreteCtx(tier, job.params, case)
    patch_environment(ctx)
    out = {'status': 'ok'}
    try:
        job.fn(ctx, **job.params)
    except AssumeFailed:
        out['status'] = 'assume'
    except Violated:
        out['status'] = 'violated'
        out['label'] = ctx.violation
    except Mismatch as e:
        out['status'] = 'mismatch'
        out['label'] = str(e)
    except Exception as e:      # pylint: disable=broad-except
        out['status'] = 'violated'
        out['label'] = 'escaped ' + type(e).__name__
        out['trace'] = traceback.format_exc()[-2000:]
    out['events'] = ctx.events
    return out


def forked(job, tier, case, limit=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = run_case(job, tier, case)
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = real_time() + limit
    while True:
        left = end - real_time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return {'status': 'died', 'label': 'no answer', 'events': []}


def load(repo):
    from . import standin
    sys.dont_write_bytecode = True
    standin.install()
    sys.path.insert(0, repo)
    patch_environment(ConcreteCtx('quick', {}, {'inputs': {}, 'records': []}))
    import golem_messages  # noqa
    import golem_messages.message  # noqa
    from harness import catalogue
    catalogue.load_all()


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    load(os.environ.get('VERIF_REPO', '/repo'))
    jobs = {j.id: j for js in JOBS.values() for j in js}
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        case = json.loads(line)
        res = forked(jobs[case['job']], case['tier'], case)
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    from sx import concrete
    concrete.main()
