"""C30: message equality and signed copies."""
from golem_messages import datastructures, utils

from sx.api import job

from . import build
from .build import (Builder, CLASSES, Party, UNSETTABLE, free_slots,
                    same_message, same_value)

EACH = {k: {'name': k} for k in sorted(CLASSES)}
KINDS = ('none', 'int', 'bool', 'str', 'bytes', 'list', 'dict')


def rebuilt(m, **over):
    """A message with the same components, save those given."""
    cls = over.pop('cls', type(m))
    h = m.header
    header = over.pop('header', datastructures.MessageHeader(
        h.type_, h.timestamp, h.encrypted))
    sig = over.pop('sig', m.sig)
    d = {s: getattr(m, s) for s in Builder.slots_of(None, type(m))}
    d.update(over)
    out = cls(header=header, sig=sig)
    for k, v in d.items():
        setattr(out, k, v)
    if hasattr(m, '_version'):
        out._version = m._version       # pylint: disable=protected-access
    return out


def verdict(ctx, a, b, want):
    ctx.require(ctx.iff(a == b, want), 'equal as they should be')
    ctx.require(ctx.iff(b == a, want), 'equal the other way')
    ctx.require(ctx.iff(a != b, ctx.no(want)), 'different otherwise')
    ctx.reach('same' if ctx.is_true(want) else 'different')


@job('C30', reach=('same', 'different'), params=EACH,
     bounds='every type; another timestamp, signature, header type or '
            'encryption flag')
def frame_parts(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name, sig=ctx.opt(
        'sig', lambda: ctx.blob('sig', 65, 65)))
    h = m.header
    part = ctx.pick('part', ['none', 'type', 'time', 'sig', 'flag', 'all'])
    type_, ts, sig, flag = h.type_, h.timestamp, m.sig, h.encrypted
    if part in ('type', 'all'):
        type_ = ctx.int('type2', 0, 65535)
    if part in ('time', 'all'):
        ts = ctx.int('ts2', 0, (1 << 64) - 1)
    if part in ('sig', 'all'):
        sig = ctx.opt('sig2', lambda: ctx.blob('sig2', 65, 65))
    if part in ('flag', 'all'):
        flag = True
    n = rebuilt(m, sig=sig, header=datastructures.MessageHeader(
        type_, ts, flag))
    verdict(ctx, m, n, ctx.all(type_ == h.type_, ts == h.timestamp,
                               ctx.same(sig, m.sig)))


FIELDS = {k: v for k, v in EACH.items()
          if Builder.slots_of(None, CLASSES[k])}


@job('C30', reach=('same', 'different'), params=FIELDS,
     bounds='every type; any one field with another value of the same type, '
            'or unset')
def fields(ctx, name):
    cls = CLASSES[name]
    b = Builder(ctx)
    m = b.valid('m', name, sig=ctx.blob('sig', 65, 65))
    slot = ctx.pick('slot', Builder.slots_of(None, cls))
    mine = getattr(m, slot)
    how = ctx.pick('how', ['same', 'other', 'unset', 'free'])
    if how == 'free' and slot not in free_slots(cls):
        how = 'same'
    e = b.enum_of(cls, slot)
    if how == 'unset' and not (slot in free_slots(cls) or e is not None or
                               slot in UNSETTABLE.get(name, ())):
        how = 'other'
    other = mine
    if how == 'other':
        other = ctx.pick('member', list(e)) if e is not None else \
            b.field('o', cls, slot)
    elif how == 'unset':
        other = None
    elif how == 'free':
        mine = ctx.any('v', KINDS)
        setattr(m, slot, mine)
        other = ctx.any('w', [ctx.last_kind])
    n = rebuilt(m)
    setattr(n, slot, other)
    verdict(ctx, m, n, same_value(ctx, mine, other))


@job('C30', reach=('same', 'different'),
     params={k: {'name': k} for k in (
         'TaskToCompute', 'ReportComputedTask', 'SubtaskResultsRejected',
         'ForcePayment', 'RemoveTaskContainer', 'SubtaskResultsVerify')},
     bounds='types with nested messages; another timestamp, signature, '
            'number or text in a nested message')
def inner(ctx, name):
    cls = CLASSES[name]
    b = Builder(ctx)
    m = b.valid('m', name, sig=ctx.blob('sig', 65, 65))
    slot = ctx.pick('slot', [s for s in build.nested(cls)
                             if getattr(m, s) is not None])
    mine = getattr(m, slot)
    x = mine[0] if isinstance(mine, list) else mine
    part = ctx.pick('part', ['time', 'sig', 'field', 'more'])
    same = True
    y = rebuilt(x)
    if part == 'time':
        ts = ctx.int('ts2', 0, (1 << 64) - 1)
        y.header = datastructures.MessageHeader(x.header.type_, ts, False)
        same = ts == x.timestamp
    elif part == 'sig':
        y.sig = ctx.blob('sig2', 65, 65)
        same = ctx.same(x.sig, y.sig)
    elif part == 'field':
        inner_cls = type(x)
        s = ctx.pick('inner', [s for s in Builder.slots_of(None, inner_cls)
                               if s not in build.nested(inner_cls)])
        v = b.field('o', inner_cls, s)
        same = same_value(ctx, getattr(x, s), v)
        setattr(y, s, v)
    elif isinstance(mine, list):
        n = rebuilt(m, **{slot: [y, x]})
        return verdict(ctx, m, n, False)
    n = rebuilt(m, **{slot: [y] if isinstance(mine, list) else y})
    return verdict(ctx, m, n, same)


@job('C30', reach=('different',),
     bounds='messages of different types with the same header, signature '
            'and fields; other objects')
def types(ctx):
    names = ['Ping', 'Pong', 'GetPeers', 'StopGossip', 'RandVal', 'RemoveTask',
             'Hello', 'AckReportComputedTask', 'ForceReportComputedTask',
             'ReportComputedTask', 'SubtaskResultsAccepted']
    b = Builder(ctx)
    m = b.valid('m', ctx.pick('name', names), sig=ctx.blob('sig', 65, 65))
    what = ctx.pick('what', ['Pong', 'GetTasks', 'Hello', 'Disconnect',
                             'ForceReportComputedTask', 'sub', 'none', 'text',
                             'header', 'dict'])
    if what == 'sub':
        cls = type(m)
        sub = type(cls.__name__, (cls,), {})
        # its type is looked up by class only when it has no header
        n = sub(header=m.header, sig=m.sig)
        for s in Builder.slots_of(None, cls):
            setattr(n, s, getattr(m, s))
    elif what in CLASSES:
        cls = CLASSES[what]
        if cls is type(m):
            return ctx.reach('different')
        n = cls(header=m.header, sig=m.sig)
        for s in Builder.slots_of(None, cls):
            setattr(n, s, getattr(m, s, None))
    else:
        n = {'none': None, 'text': 'x', 'header': m.header,
             'dict': {}}[what]
    ctx.require(not m == n, 'different types are different')
    ctx.require(m != n, 'different types are different')
    return ctx.reach('different')


@job('C30', reach=('same', 'different'),
     bounds='greetings with every pair of versions of up to 9 characters')
def greeting(ctx):
    b = Builder(ctx)
    m = b.valid('m', 'Hello', sig=ctx.blob('sig', 65, 65))
    n = rebuilt(m)
    m._version = ctx.text('v', 0, 9)
    n._version = ctx.text('w', 0, 9)
    if ctx.flag('more'):
        n.port = ctx.int('port', 1)
    verdict(ctx, m, n, ctx.all(m._version == n._version, m.port == n.port))


@job('C30', reach=('copied', 'kept'), params=EACH,
     bounds='every type, signed already or not, every key')
def signed_copy(ctx, name):
    b = Builder(ctx)
    me = Party(ctx, 'me')
    m = b.valid('m', name)
    signed = ctx.flag('signed')
    if signed:
        m.sig = ctx.blob('sig', 0, 65)
    sig = m.sig
    before = rebuilt(m)
    r = utils.copy_and_sign(m, me.secret)
    ctx.require(same_message(ctx, m, before), 'the original as it was')
    if signed:
        ctx.require(r is m, 'a signed message as it is')
        ctx.require(m.sig is sig, 'with its signature')
        return ctx.reach('kept')
    ctx.require(m.sig is None, 'the original is unsigned')
    ctx.require(r is not m, 'a copy')
    ctx.require(r.sig is not None, 'signed')
    ctx.require(r.verify_signature(me.public) is True, 'by the key')
    sig = r.sig
    ctx.require(not r == m, 'differs in the signature')
    r.sig = None
    ctx.require(same_message(ctx, m, r), 'and in nothing else')
    ctx.require(r == m, 'and equal without it')
    r.sig = sig
    r.encrypted = True
    ctx.require(m.encrypted is False, 'its own header')
    return ctx.reach('copied')
