"""C41, C42: making messages by keyword; printing them and errors."""
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages.message import base, tasks
from golem_messages.register import library

from sx.api import SENT, job

from . import build
from .build import Builder, CLASSES, nested, same_value

EACH = {k: {'name': k} for k in sorted(CLASSES)}
WITH = {k: v for k, v in EACH.items() if Builder.slots_of(None, CLASSES[k])}

# converted only on reception
NUMBERS = ('num_subtasks', 'cpu_usage', 'price', 'size', 'payment_ts')

# what a field is when it is not given (else None)
DEFAULTS = {
    ('WantToComputeTask', 'concent_enabled'): False,
    ('WantToComputeTask', 'num_subtasks'): 1,
    ('TaskToCompute', 'concent_enabled'): False,
    ('Peers', 'peers'): [],
    ('Tasks', 'tasks'): [],
    ('ResourcePeers', 'resource_peers'): [],
    ('Gossip', 'gossip'): [],
    ('TaskFailure', 'reason'): tasks.TaskFailure.DEFAULT_REASON,
}


def own(cls):
    return Builder.slots_of(None, cls)


def default(ctx, m, s):
    want = DEFAULTS.get((type(m).__name__, s))
    have = getattr(m, s)
    if isinstance(want, list):
        return type(have) is list and not have
    return have is want if want is None or isinstance(want, bool) \
        else ctx.same(have, want)


@job('C41', reach=('done',), params=EACH,
     bounds='every type with no field, any one field or all of them given, '
            'with any header and signature')
def made(ctx, name):
    b = Builder(ctx, many=True)
    cls = CLASSES[name]
    slots = own(cls)
    how = ctx.pick('given', ['none', 'one', 'all'] if slots else ['none'])
    given = {}
    if how == 'one':
        slots = [ctx.pick('slot', slots)]
    if how != 'none':
        for s in slots:
            e = b.enum_of(cls, s)
            if e is not None:
                given[s] = ctx.pick(s, list(e)) if how == 'one' else list(e)[0]
            elif how == 'one' and (s in build.free_slots(cls) or s in NUMBERS):
                given[s] = ctx.any(s, build.WIRE)
            else:
                given[s] = b.field(s, cls, s)
    header = datastructures.MessageHeader(
        library.get_type(cls), ctx.int('ts', 0, (1 << 64) - 1),
        ctx.flag('encrypted'))
    sig = ctx.pick('sig', [None, ctx.blob('signature', 0, 65)])
    m = cls(header=header, sig=sig, **given)
    ctx.require(type(m) is cls, 'the type')
    ctx.require(ctx.same(m.timestamp, header.timestamp), 'the time')
    ctx.require(ctx.same(m.header.type_, header.type_), 'the number')
    ctx.require(m.encrypted is header.encrypted, 'the flag')
    ctx.require(ctx.same(m.sig, sig), 'the signature')
    for s in own(cls):
        if s in given:
            ctx.require(same_value(ctx, getattr(m, s), given[s])
                        if given[s] is not None else default(ctx, m, s),
                        'the given value')
        else:
            ctx.require(default(ctx, m, s), 'unset or default')
    ctx.reach('done')


STRANGE = ('nonsense', '', 'Sig', 'headers', 'task_idd', 'reason ', '_sig',
           'value', 'payload', 'data', 'signature', 'type', 'version')


@job('C41', reach=('done',), params=EACH,
     bounds='every type with a field it does not declare (of other types and '
            'samples of names) given or assigned, with any value')
def undeclared(ctx, name):
    cls = CLASSES[name]
    names = sorted(set(STRANGE).union(*[own(c) for c in CLASSES.values()])
                   - set(own(cls)))
    names = [n for n in names if not hasattr(cls, n)]
    value = ctx.any('value', ('int', 'str'))
    for n in names:
        _, e = ctx.outcome(lambda: cls(**{n: value}))
        ctx.require(type(e) is AttributeError, 'not given')
        m = cls()
        _, e = ctx.outcome(setattr, m, n, value)
        ctx.require(type(e) is AttributeError, 'not assigned')
        ctx.require(not hasattr(m, n), 'not there')
    ctx.reach('done')


# -- C42 -----------------------------------------------------------------------

def text(ctx, v, what):
    r, e = ctx.outcome(lambda: repr(v))
    ctx.require(e is None, what + ' can be printed')
    ctx.require(isinstance(r, str), what + ' gives text')
    t, e = ctx.outcome(lambda: str(v))
    ctx.require(e is None and isinstance(t, str), what + ' as text')


def odd(ctx):
    """Any value, or one that means something in templates."""
    how = ctx.pick('odd', ['as is', 'pair', 'single', '{x}', '%s %d', '\\n'])
    if how == 'as is':
        return ctx.any('value', SENT)
    v = ctx.int('inside')
    if how in ('pair', 'single'):
        return (v, 'x') if how == 'pair' else (v,)
    return how


@job('C42', reach=('done',), params=EACH,
     bounds='every type with all fields set, with none, or with any value '
            'for any one nested or freely valued field')
def printed(ctx, name):
    b = Builder(ctx, many=True)
    cls = CLASSES[name]
    how = ctx.pick('how', ['full', 'empty', 'one'])
    if how == 'full':
        m = b.valid('m', name)
    else:
        m = cls()
    if how == 'one':
        slots = [s for s in own(cls)
                 if s in nested(cls) or s in build.free_slots(cls)]
        if not slots:
            ctx.assume(False)
        setattr(m, ctx.pick('slot', slots), odd(ctx))
    text(ctx, m, 'a message')
    if how == 'full':
        for s in own(cls):
            v = getattr(m, s)
            text(ctx, v, 'a value')
    ctx.reach('done')


@job('C42', reach=('done',),
     bounds='errors of any class of the library with any text; field errors '
            'with any field and value')
def errors(ctx):
    cls = getattr(exceptions, ctx.pick('class', [
        n for n in dir(exceptions)
        if isinstance(getattr(exceptions, n), type) and
        issubclass(getattr(exceptions, n), exceptions.MessageError)]))
    what = ctx.text('text', 0, 40)
    if cls is exceptions.FieldError:
        given = ctx.pick('given', [(), ('field',), ('value',),
                                   ('field', 'value')])
        d = {}
        if 'field' in given:
            d['field'] = ctx.text('field', 1, 40)
        if 'value' in given:
            d['value'] = odd(ctx)
        e = cls(what, **d)
        if 'field' in d:
            ctx.require(ctx.same(e.field, d['field']), 'the field')
            ctx.require(str(e).startswith('%s [%s:' % (what, d['field'])),
                        'names them')
        if 'value' in d:
            ctx.require(e.value is d['value'], 'the value')
    else:
        e = cls(what)
        ctx.require(ctx.same(str(e), what), 'the text')
    ctx.require(e.args == (what,), 'the arguments')
    text(ctx, e, 'an error')
    ctx.reach('done')
