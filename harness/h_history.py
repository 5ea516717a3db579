"""C37, C38: messages over their life, and next to each other."""
import enum

from golem_messages import cryptography
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import serializer
from golem_messages.message import base

from sx.api import job

from . import build
from .build import Builder, CLASSES, Party
from .h_equality import rebuilt
from .h_hostile import receive

EACH = {k: {'name': k} for k in sorted(CLASSES)}


def names(m):
    return Builder.slots_of(None, type(m)) + (
        ['_version'] if type(m).__name__ == 'Hello' else [])


def snap(v):
    """What a value holds, by itself."""
    if isinstance(v, base.Message):
        return [type(v).__name__, v.header.type_, v.header.timestamp, v.sig,
                [[s, snap(getattr(v, s, None))] for s in names(v)]]
    if isinstance(v, datastructures.Container):
        return [type(v).__name__, [[k, snap(getattr(v, k))]
                                   for k in type(v).__slots__]]
    if isinstance(v, dict):
        return [type(v).__name__, [[k, snap(v[k])] for k in v]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [snap(x) for x in v]]
    if type(v).__name__ == 'Mask':
        return ['Mask', v.to_bytes()]
    return v


def alike(ctx, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return ctx.all(*[alike(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, list) or isinstance(b, list):
        return False
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        return a is b
    return ctx.same(a, b)


def anew(m):
    """The same message, made of new message objects."""
    def part(v):
        if isinstance(v, base.Message):
            return anew(v)
        if isinstance(v, list):
            return [part(x) for x in v]
        return v
    return rebuilt(m, **{s: part(getattr(m, s))
                         for s in Builder.slots_of(None, type(m))})


USES = ('hash', 'send', 'seal', 'verify', 'look')


def use(ctx, m, what, k, box):
    """Uses a message; the effects there may be are undone."""
    sig, header = m.sig, m.header
    before = snap(m)
    if what == 'hash':
        m.get_short_hash()
    elif what == 'send':
        m.serialize()
        ctx.require(ctx.same(m.sig, b'\0' * 65 if sig is None else sig),
                    'signature kept or filled in')
    elif what == 'seal':
        m.serialize(k.secret if sig is None else None, lambda p: box)
    elif what == 'verify':
        ctx.outcome(m.verify_signature, k.public)
    else:
        repr(m)
        m.slots()
        ctx.require(m == anew(m), 'equal to one made anew')
    m.sig = sig
    ctx.require(ctx.same(m.header.type_, header.type_), 'type kept')
    ctx.require(alike(ctx, snap(m), before), 'nothing is changed by use')


def change(ctx, b, m, what):
    """Changes one thing; what it was."""
    cls = type(m)
    if what == 'time':
        m.header = datastructures.MessageHeader(
            m.header.type_, ctx.int('ts2', build.MIN_TS + 1,
                                    build.MAX_TS - 1), m.header.encrypted)
        return
    slots = Builder.slots_of(None, cls)
    if what == 'inner':
        inner = []
        for s in slots:
            v = getattr(m, s)
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, base.Message):
                    inner.append(x)
        if not inner:
            ctx.assume(False)
        x = ctx.pick('message', inner)
        free = build.free_slots(type(x))
        if not free or ctx.flag('inner.time'):
            x.header = datastructures.MessageHeader(
                x.header.type_, ctx.int('ts2', 0, (1 << 64) - 1), False)
        else:
            setattr(x, ctx.pick('inner.slot', free), ctx.int('new'))
        return
    s = ctx.pick('slot', slots) if slots else ctx.assume(False)
    if s in build.free_slots(cls):
        setattr(m, s, ctx.int('new'))
    else:
        e = b.enum_of(cls, s)
        setattr(m, s, ctx.pick('member', list(e)) if e is not None
                else b.field('o', cls, s))


def plain(v):
    return v is None or not isinstance(v, (
        base.Message, datastructures.Container, dict, list, tuple))


def now_as(ctx, m, k):
    """What comes out of it must be what its parts say."""
    new = anew(m)
    ctx.require(alike(ctx, snap(m.slots()), snap(new.slots())), 'slots')
    ctx.require(ctx.same(m.get_short_hash(), new.get_short_hash()), 'hash')
    ctx.require(m == new, 'equal to one made anew')
    got = serializer.loads(serializer.dumps(m.slots()))
    for s, v in got:
        mine = getattr(m, s)
        if isinstance(mine, enum.Enum):
            mine = mine.value
        if s not in build.nested(type(m)) and plain(mine):
            ctx.require(ctx.same(v, mine), 'the present value')
    a, e = ctx.outcome(m.serialize)
    x, f = ctx.outcome(new.serialize)
    ctx.require(type(e) is type(f), 'sent as one made anew')
    if e is None:
        ctx.require(ctx.same(a, x), 'the frame of one made anew')
        ctx.require(ctx.same(a[2:10], m.header.timestamp.to_bytes(8, 'big')),
                    'the present time')



@job('C37', reach=('done',), params=EACH,
     bounds='every type; hashed, sent in clear or encrypted, verified, '
            'printed and compared, then any one field, the timestamp or a '
            'field of a nested message changed, then used again')
def used(ctx, name):
    ctx.hash_ok = True
    b = Builder(ctx, many=True, lean=bool(
        not ctx.thorough or build.nested(CLASSES[name])))
    m = b.valid('m', name)
    k = Party(ctx, 'k')
    box = ctx.blob('ciphertext', 1, 99)
    if ctx.thorough:
        first = ctx.pick('use', USES)
        use(ctx, m, first, k, box)
        use(ctx, m, ctx.pick('then', USES), k, box)
    else:
        for what in USES:
            use(ctx, m, what, k, box)
    now_as(ctx, m, k)
    m.sig = None
    change(ctx, b, m, ctx.pick('change', ['slot', 'time', 'inner']))
    now_as(ctx, m, k)
    ctx.reach('done')


@job('C37', reach=('kept', 'changed'), params={
    k: v for k, v in EACH.items() if CLASSES[k].SIGN},
     bounds='every signed type; signed, verified, changed in any one field, '
            'time or nested field, verified again, changed back and verified '
            'again')
def signed(ctx, name):
    ctx.hash_ok = True
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'k')
    m.sign_message(k.secret)
    ctx.require(m.verify_signature(k.public), 'verifies')
    saved = anew(m)
    what = ctx.pick('change', ['slot', 'time', 'inner'])
    if what != 'time' and not Builder.slots_of(None, CLASSES[name]):
        what = 'time'
    if what == 'inner' and not build.nested(CLASSES[name]):
        what = 'time'
    change(ctx, b, m, what)
    same = alike(ctx, snap(m), snap(saved))
    _, e = ctx.outcome(m.verify_signature, k.public)
    if e is None:
        ctx.require(same, 'only if unchanged')
        ctx.reach('kept')
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(ctx.no(same), 'unchanged verifies')
        ctx.reach('changed')
    for s in Builder.slots_of(None, CLASSES[name]):
        setattr(m, s, getattr(saved, s))
    m.header = saved.header
    ctx.require(m.verify_signature(k.public), 'verifies again')


# -- C38 -----------------------------------------------------------------------

def spoil(ctx, v, top=True):
    """Changes everything in a value in place."""
    if isinstance(v, base.Message):
        for s in Builder.slots_of(None, type(v)):
            spoil(ctx, getattr(v, s))
            setattr(v, s, ctx.int('spoilt'))
        v.sig = b'spoilt'
        v.encrypted = True
    elif isinstance(v, datastructures.Container):
        for k in type(v).__slots__:
            spoil(ctx, getattr(v, k))
            setattr(v, k, ctx.int('spoilt'))
    elif isinstance(v, dict):
        for k in list(v):
            spoil(ctx, v[k])
            dict.__setitem__(v, k, 'spoilt')
        dict.__setitem__(v, 'new', 'spoilt')
    elif isinstance(v, list):
        for x in v:
            spoil(ctx, x)
        v.append('spoilt')


@job('C38', reach=('done',), params=EACH,
     bounds='every type made without fields: one changed in everything '
            'before and after others are made')
def unset(ctx, name):
    ctx.hash_ok = True
    cls = CLASSES[name]
    ctx.set_now(ctx.int('now', 1262304000 * 10 ** 6 + 10 ** 6,
                        16725225600 * 10 ** 6))
    a, c = cls(), cls()
    want = snap(c)
    spoil(ctx, a)
    ctx.require(alike(ctx, snap(c), want), 'the other one is as it was')
    ctx.require(alike(ctx, snap(cls()), want), 'new ones are as they were')
    if all(d.allow_none for d in build.nested(cls).values()):
        spoil(ctx, cls(slots=[]))
        ctx.require(alike(ctx, snap(cls()), want), 'new ones again')
    ctx.reach('done')


@job('C38', reach=('done',), params=EACH,
     bounds='every type received twice from one frame, and after the first '
            'was changed in everything')
def received(ctx, name):
    ctx.hash_ok = True
    b = Builder(ctx, many=True, lean=bool(
        not ctx.thorough or build.nested(CLASSES[name])))
    m = b.valid('m', name)
    data = m.serialize()
    one, e = ctx.outcome(receive, data)
    two, f = ctx.outcome(receive, data)
    ctx.require(type(e) is type(f), 'the same answer')
    if e is not None:       # rejections whose reason needs a proof
        ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
        return
    want = snap(two)
    ctx.require(alike(ctx, snap(one), want), 'alike')
    spoil(ctx, one)
    ctx.require(alike(ctx, snap(two), want), 'the other one is as it was')
    ctx.require(alike(ctx, snap(receive(data)), want), 'as before')
    ctx.reach('done')


@job('C38', reach=('done',), params=EACH,
     bounds='every type with two different contents received one after the '
            'other, with any signatures and times')
def interleaved(ctx, name):
    ctx.hash_ok = True
    b = Builder(ctx)
    m = b.valid('m', name)
    n = b.valid('n', name)
    dm, dn = m.serialize(), n.serialize()
    one = receive(dm)
    want = snap(one)
    two = receive(dn)
    ctx.require(alike(ctx, snap(one), want), 'as it was')
    ctx.require(build.same_message(ctx, one, m), 'the first as sent')
    ctx.require(build.same_message(ctx, two, n), 'the second as sent')
    ctx.reach('done')
