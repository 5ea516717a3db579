"""C27, C29: time and deposit limits; serialisation failures."""
import datetime

from golem_messages import exceptions, helpers, serializer
from golem_messages.message import tasks

from sx.api import job

from .build import Builder

MINUTE = 60
RATES = (None, 1, 7, 48, 1000, 1 << 20)
PARAMS = {'r%s' % r: {'rate': r} for r in RATES}


def download_seconds(size, rate):
    per_second = (48 if rate is None else rate) * 1024
    return MINUTE + (size + per_second - 1) // per_second


@job('C27', reach=('done',), params=PARAMS,
     bounds='every size of 0..2**52 bytes; rates of 1, 7, 48, 1000 and 2**20 '
            'KB/s and the default')
def download(ctx, rate):
    size = ctx.int('size', 0, 1 << 52)
    if rate is None:
        got = helpers.maximum_download_time(size)
    elif ctx.flag('named'):
        got = helpers.maximum_download_time(size=size, rate=rate)
    else:
        got = helpers.maximum_download_time(size, rate)
    ctx.require(isinstance(got, datetime.timedelta), 'a time span')
    want = datetime.timedelta(seconds=download_seconds(size, rate))
    ctx.require(got == want, 'a minute and the rounded-up transfer time')
    ctx.reach('done')


@job('C27', reach=('later', 'earlier'),
     bounds='every size of 0..2**44 bytes, every assignment timestamp and '
            'deadline of the years 1970 to 3000, one deadline with half a '
            'second')
def verification(ctx):
    b = Builder(ctx)
    top = 32503680000
    ts = ctx.int('ts', 0, top)
    half = ctx.flag('half')
    deadline = 1600000000 if half else ctx.int('deadline', 0, top - 1)
    ttc = b.message('ttc', 'TaskToCompute', nested=True, ts=ts)
    ttc.compute_task_def['deadline'] = deadline + 0.5 if half else deadline
    size = ctx.int('size', 0, 1 << 44)
    rct = b.message('rct', 'ReportComputedTask', task_to_compute=ttc,
                    size=size)
    got = helpers.subtask_verification_time(rct)
    timeout = 2 * (deadline - ts) + (1 if half else 0)      # half seconds
    want = 4 * (4 * 4 * MINUTE + 3 * download_seconds(size, None)) + timeout
    ctx.require(isinstance(got, datetime.timedelta), 'a time span')
    ctx.require(got == datetime.timedelta(microseconds=want * 250000),
                '4 messaging times, 3 downloads, half the time-out')
    ctx.reach('later' if ctx.is_true(deadline > ts) else 'earlier')


@job('C27', reach=('done',), bounds='every price')
def deposits(ctx):
    price = ctx.int('price')
    a = helpers.requestor_deposit_amount(price)
    ctx.require(len(a) == 2, 'two amounts')
    ctx.require(ctx.same(a[0], price * 2), 'required of a requestor')
    ctx.require(ctx.same(a[1], price * 4), 'suggested to a requestor')
    a = helpers.provider_deposit_amount(price)
    ctx.require(len(a) == 2, 'two amounts')
    ctx.require(ctx.same(a[0], price), 'required of a provider')
    ctx.require(ctx.same(a[1], price * 4), 'suggested to a provider')
    ctx.reach('done')


# -- C29 -------------------------------------------------------------------------

class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.code = a


def subclasses(c):
    out = []
    for s in c.__subclasses__():
        if s.__module__ == 'builtins':
            out += [s] + subclasses(s)
    return out


def error(cls):
    if issubclass(cls, UnicodeDecodeError):
        return cls('utf-8', b'\xff', 0, 1, 'reason')
    if issubclass(cls, UnicodeEncodeError):
        return cls('utf-8', '\u0107', 0, 1, 'reason')
    if issubclass(cls, UnicodeTranslateError):
        return cls('\u0107', 0, 1, 'reason')
    if cls is Odd:
        return cls(1, 'x')
    return cls('message')


BUILTIN = sorted({c.__name__: c for c in subclasses(Exception)}.items())
ERRORS = [c for _, c in BUILTIN] + [
    Exception, Odd, exceptions.MessageError, exceptions.SerializationError]


@job('C29', reach=('returned', 'failed'),
     bounds='codecs that return any value or raise an error of any of the '
            'built-in and some other exception classes, any argument')
def wrapped(ctx):
    fails = ctx.flag('fails')
    arg = ctx.any('arg', ('none', 'int', 'bytes') if fails else None)
    cls = ctx.pick('error', ERRORS) if fails else None
    result = ctx.any('result', ('none', 'bool', 'int', 'str', 'list0',
                                'dict')) if not fails else None
    seen = []

    def codec(*a, **k):
        """Doc."""
        seen.append((a, k))
        if fails:
            raise error(cls)
        return result

    wrap = ctx.pick('with', [exceptions.SerializationError,
                             exceptions.MessageError])
    f = serializer.wrap_error(wrap)(codec)
    r, e = ctx.outcome(f, arg, key=7) if ctx.flag('keyword') else \
        ctx.outcome(f, arg)
    ctx.require(len(seen) == 1, 'called once')
    ctx.require(len(seen[0][0]) == 1 and seen[0][0][0] is arg,
                'with the argument')
    if fails:
        ctx.require(type(e) is wrap, 'reported as such')
        ctx.require(type(e.__cause__) is cls, 'with its cause')
        ctx.reach('failed')
    else:
        ctx.require(e is None and r is result, 'the result of the codec')
        ctx.reach('returned')


@job('C29', reach=('done',), bounds='values of every encodable kind')
def encodable(ctx):
    v = ctx.any('v', ('none', 'bool', 'int', 'float', 'str', 'str0', 'bytes',
                      'bytes0', 'list0', 'list', 'list2', 'dict0', 'dict'))
    data = serializer.dumps(v)
    ctx.require(isinstance(data, bytes), 'bytes')
    ctx.require(ctx.same(serializer.loads(data), v), 'comes back')
    ctx.reach('done')


@job('C29', reach=('done',),
     bounds='values that cannot be encoded, alone and inside lists and '
            'dictionaries')
def not_encodable(ctx):
    v = ctx.pick('v', [object(), object, {1, 2}, len, Odd(1, 2), 1j,
                       tasks.ComputeTaskDef])
    where = ctx.pick('where', ['alone', 'list', 'dict'])
    if where == 'list':
        v = [ctx.int('x'), v]
    elif where == 'dict':
        v = {'k': v}
    r, e = ctx.outcome(serializer.dumps, v)
    ctx.require(type(e) is exceptions.SerializationError,
                'a serialisation error')
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    ctx.reach('done')


@job('C29', reach=('decoded', 'failed'),
     bounds='opaque bytes of 0..1000, malformed samples, arguments of other '
            'kinds')
def decodable(ctx):
    k = ctx.pick('which', ['blob', 'bad', 'kind', 'good'])
    if k == 'blob':
        data = ctx.blob('data', 0, 1000)
    elif k == 'bad':
        data = ctx.pick('data', [b'', b'\xff', b'\x82\x01', b'\x1c',
                                 b'\x61\xff'])
    elif k == 'kind':
        data = ctx.any('data', ('none', 'bool', 'int', 'float', 'str',
                                'list0', 'dict0'))
    else:
        v = ctx.any('v', ('none', 'int', 'str', 'bytes', 'list'))
        data = serializer.dumps(v)
    r, e = ctx.outcome(serializer.loads, data)
    if e is not None:
        ctx.require(type(e) is exceptions.SerializationError,
                    'a serialisation error')
        ctx.require(k != 'good', 'encoded values are decoded')
        ctx.reach('failed')
    else:
        ctx.require(k not in ('bad', 'kind'), 'nothing made up')
        if k == 'good':
            ctx.require(ctx.same(r, v), 'what was encoded')
        ctx.reach('decoded')
