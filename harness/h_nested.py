"""C09, C10: messages nested in messages."""
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import shortcuts
from golem_messages.message import base
from golem_messages.register import library

from sx.api import job

from .build import (Builder, CLASSES, Party, nested, same_message,
                    same_value)
from .h_hostile import frame, receive, replaced

OUTER = {k: {'name': k} for k, c in sorted(CLASSES.items()) if nested(c)}
PROOF = ('force_get_task_result_failed',)


# -- C09 -----------------------------------------------------------------------

def children(m):
    """(place, message) of every message in m, innermost first."""
    out = []
    for slot in nested(type(m)):
        v = getattr(m, slot, None)
        for i, x in enumerate(v if isinstance(v, list) else [v]):
            if x is None:
                continue
            out += [((slot, i) + p, y) for p, y in children(x)]
            out.append(((slot, i), x))
    return out


def at(m, place):
    while place:
        v = getattr(m, place[0])
        m = v[place[1]] if isinstance(v, list) else v
        place = place[2:]
    return m


def build_signed(ctx, b, name, unsigned=None):
    """A message whose nested messages are signed by different authors."""
    over = {}
    if name == 'SubtaskResultsRejected' and ctx.flag('proof'):
        rct = b.message('m.rct', 'ReportComputedTask', nested=True)
        over = dict(
            report_computed_task=rct,
            force_get_task_result_failed=b.message(
                'm.fgtrf', 'ForceGetTaskResultFailed', nested=True,
                task_to_compute=rct.task_to_compute))
    m = b.valid('m', name, **over)
    authors = {}
    seen = {}
    for place, x in children(m):
        if id(x) in seen:       # the same message in two places
            authors[place] = seen[id(x)]
            continue
        p = authors[place] = seen[id(x)] = Party(
            ctx, 'author%d' % (len(place) // 2))
        x.sig = None
        x.sign_message(p.secret)
    return m, authors


def check_nested(ctx, m, r, authors, how):
    for place, author in authors.items():
        x, y = at(m, place), at(r, place)
        ctx.require(type(x) is type(y), how + ': same type')
        ctx.require(ctx.same(y.header.type_, x.header.type_),
                    how + ': same number')
        ctx.require(ctx.same(y.timestamp, x.timestamp),
                    how + ': same timestamp')
        ctx.require(ctx.same(y.sig, x.sig), how + ': same signature')
        ctx.require(same_message(ctx, x, y), how + ': same content')
        ctx.require(y == x, how + ': equal')
        ok, e = ctx.outcome(y.verify_signature, author.public)
        ctx.require(ok is True,
                    how + ': the signature of the author verifies')


@job('C09', reach=('relayed',),
     bounds='every type with nested messages; nested messages signed by '
            'authors of their own; one relay (two in the thorough tier) by '
            'other signers in a new message; opaque contents, any times',
     params=OUTER, weight=2)
def relay(ctx, name):
    b = Builder(ctx)
    m, authors = build_signed(ctx, b, name)
    receiver = Party(ctx, 'receiver')
    cur = m
    for i in range(2 if ctx.thorough else 1):
        signer = Party(ctx, 'signer%d' % i)
        encrypted = ctx.flag('encrypted%d' % i)
        data = shortcuts.dump(cur, signer.secret,
                              receiver.public if encrypted else None)
        for place, author in authors.items():
            ctx.require(at(cur, place).sig is not None, 'kept by sending')
        r = shortcuts.load(data, receiver.secret, signer.public,
                           check_time=False)
        check_nested(ctx, m, r, authors, 'received')
        # pass the nested messages on
        slots = {s: getattr(r, s) for s in b.slots_of(type(m))}
        cur = type(m)(header=datastructures.MessageHeader(
            library.get_type(type(m)), r.timestamp, False), **slots)
    signer = Party(ctx, 'last')
    r = shortcuts.load(shortcuts.dump(cur, signer.secret, None),
                       receiver.secret, signer.public, check_time=False)
    check_nested(ctx, m, r, authors, 'relayed')
    ctx.reach('relayed')


# (inner, outer, slots leading to it): another kind of outer message
MOVES = (
    ('TaskToCompute', 'CannotComputeTask', ('task_to_compute',)),
    ('TaskToCompute', 'ForceGetTaskResultFailed', ('task_to_compute',)),
    ('ReportComputedTask', 'AckReportComputedTask',
     ('report_computed_task',)),
    ('ReportComputedTask', 'ForceGetTaskResult', ('report_computed_task',)),
    ('ReportComputedTask', 'SubtaskResultsAccepted',
     ('report_computed_task',)),
    ('SubtaskResultsRejected', 'SubtaskResultsVerify',
     ('subtask_results_rejected',)),
    ('WantToComputeTask', 'TaskToCompute', ('want_to_compute_task',)),
)


@job('C09', reach=('done',),
     bounds='messages received on their own put into messages of other '
            'types, and passed on')
def forward(ctx):
    inner, outer, way = ctx.pick('which', MOVES)
    b = Builder(ctx)
    m = b.valid('m', inner)
    author = Party(ctx, 'author')
    receiver = Party(ctx, 'receiver')
    r = shortcuts.load(shortcuts.dump(m, author.secret, receiver.public),
                       receiver.secret, author.public, check_time=False)
    w = b.valid('w', outer, **{way[0]: r})
    signer = Party(ctx, 'signer')
    s = shortcuts.load(shortcuts.dump(w, signer.secret, None),
                       receiver.secret, signer.public, check_time=False)
    got = getattr(s, way[0])
    ctx.require(same_message(ctx, got, m), 'as it was')
    ctx.require(ctx.same(got.sig, m.sig), 'signature as it was')
    ok, e = ctx.outcome(got.verify_signature, author.public)
    ctx.require(ok is True, 'the author is still recognised')
    ctx.reach('done')


@job('C09', reach=('refused', 'kept'),
     bounds='every type; signed with any bytes or as unsigned; with or '
            'without key and encryption',
     params={k: {'name': k} for k in sorted(CLASSES)})
def again(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    how = ctx.pick('how', ['signed', 'unsigned', 'opaque'])
    k = Party(ctx, 'k')
    if how == 'signed':
        m.sign_message(k.secret)
    elif how == 'unsigned':
        m.serialize()
    else:
        m.sig = ctx.blob('sig', 65, 65)
    old = m.sig
    encrypt = ctx.pick('encrypt', [None, lambda p: b'e' + p])
    data, e = ctx.outcome(m.serialize, None, encrypt)
    ctx.require(e is None, 'serialised')
    ctx.require(ctx.same(m.sig, old), 'kept on the message')
    ctx.require(ctx.same(data[11:76], old), 'and on the wire')
    ctx.reach('kept')
    other = Party(ctx, 'other')
    _, e = ctx.outcome(m.serialize, other.secret, encrypt)
    ctx.require(isinstance(e, exceptions.SignatureAlreadyExists), 'refused')
    ctx.require(ctx.same(m.sig, old), 'and not replaced')
    _, e = ctx.outcome(shortcuts.dump, m, other.secret, k.public)
    ctx.require(isinstance(e, exceptions.SignatureAlreadyExists),
                'refused by the shortcut')
    ctx.require(ctx.same(m.sig, old), 'and not replaced by it')
    ctx.reach('refused')


@job('C09', reach=('done',),
     bounds='nested messages without signature or with the empty one')
def unsigned(ctx):
    inner, outer, way = ctx.pick('which', MOVES)
    b = Builder(ctx)
    m = b.message('m', inner, nested=True)
    m.sig = ctx.pick('sig', [None, b'\0' * 65])
    old = m.sig
    w = b.valid('w', outer, **{way[0]: m})
    k = Party(ctx, 'k')
    data = shortcuts.dump(w, k.secret, None)
    ctx.require(m.sig == old, 'not signed on the way')
    s = shortcuts.load(data, k.secret, k.public, check_time=False)
    got = getattr(s, way[0])
    ctx.require(ctx.same(got.sig, old), 'arrives without')
    ctx.require(same_message(ctx, got, m), 'as it was')
    ctx.reach('done')


# -- C10 -----------------------------------------------------------------------

def slot_places(cls, depth, path=()):
    """(path to the entry of the slot in a payload, class, slot)."""
    out = []
    slots = [s for s in Builder.slots_of(None, cls)]
    for slot, d in sorted(nested(cls).items()):
        here = path + (slots.index(slot),)
        out.append((here, cls, slot))
        if depth > 1 and slot not in PROOF:
            inner = (1, 1, 0, 2) if d.is_list else (1, 1, 2)
            out += slot_places(d.cls, depth - 1, here + inner)
    return out


def get_at(tree, path):
    for k in path:
        tree = tree[k]
    return tree


def others(cls):
    """Classes of other messages that cannot be taken for one."""
    return [c for n, c in sorted(CLASSES.items())
            if not issubclass(c, cls) and n in (
                'RandVal', 'TaskToCompute', 'ReportComputedTask',
                'WantToComputeTask', 'SubtaskResultsAccepted', 'TaskFailure',
                'ForceGetTaskResult', 'SubtaskResultsRejected')]


BARE = ('none', 'bool', 'int', 'str', 'str0', 'bytes', 'dict0', 'dict')


@job('C10', reach=('refused',),
     bounds='every slot of every type: other messages, bare values of each '
            'kind, unset, and lists with one of these, on sending',
     params=OUTER)
def sending(ctx, name):
    cls = CLASSES[name]
    b = Builder(ctx)
    slot = ctx.pick('slot', sorted(nested(cls)))
    d = nested(cls)[slot]
    inner = d.cls
    how = ctx.pick('how', ['good', 'none', 'other', 'bare', 'class'])
    m = b.valid('m', name)
    good = getattr(m, slot)
    if good is None:
        good = b.message('g', inner, nested=True)
    allowed = how == 'good'
    if how == 'none':
        value, allowed = None, d.allow_none
    elif how == 'other':
        other = ctx.pick('other', others(inner))
        value = b.message('o', other, nested=True)
    elif how == 'bare':
        value = ctx.any('value', BARE[1:])
    elif how == 'class':
        value = ctx.pick('c', [inner, base.Message])
    else:
        value = good
    if how in ('other', 'bare', 'class') and ctx.flag('list'):
        value = [value]
        if d.is_list and ctx.flag('second'):
            value = good + value
    setattr(m, slot, value)
    signed = ctx.flag('signed')
    k = Party(ctx, 'k')
    data, e = ctx.outcome(m.serialize, k.secret if signed else None)
    if allowed:
        ctx.require(e is None, 'sent')
    else:
        ctx.require(isinstance(e, exceptions.FieldError),
                    'refused with a field error')
        ctx.require(e.field == slot, 'names the slot')
        ctx.reach('refused')


@job('C10', reach=('refused',),
     bounds='every slot of every type and of the messages in it: unset, '
            'left out, bare values of each kind, lists for single messages '
            'and the reverse, empty lists, and every type number, on '
            'reception',
     params=OUTER, weight=2)
def receiving(ctx, name):
    ctx.hash_ok = True
    cls = CLASSES[name]
    b = Builder(ctx)
    m = b.valid('m', name)
    tree = m.slots()
    path, c, slot = ctx.pick(
        'place', slot_places(cls, 3 if ctx.thorough else 2))
    d = nested(c)[slot]
    if slot in PROOF:
        inner = b.message('p', d.cls, nested=True)
        tree = replaced(tree, path + (1,),
                        (False, (inner.header, inner.sig, inner.slots())))
    flag, good = get_at(tree, path + (1,))
    how = ctx.pick('how', ['none', 'absent', 'absent all', 'bare', 'kind',
                           'empty', 'number', 'content'])
    allowed = False
    if how == 'none':
        tree = replaced(tree, path + (1,), (
            ctx.flag('list?'), None))
        allowed = d.allow_none
    elif how == 'absent':
        parent = get_at(tree, path[:-1])
        parent = [x for i, x in enumerate(parent) if i != path[-1]]
        tree = replaced(tree, path[:-1], parent)
        allowed = d.allow_none
    elif how == 'absent all':
        # nothing but another field
        tree = replaced(tree, path[:-1], [['zz', None]])
        allowed = all(x.allow_none for x in nested(c).values())
        if allowed:
            return
    elif how == 'bare':
        v = ctx.any('value', BARE)
        where = ctx.pick('where', ['slot', 'value'] + (
            ['element'] if d.is_list else []))
        if where == 'slot':
            tree = replaced(tree, path + (1,), v)
        elif where == 'value':
            tree = replaced(tree, path + (1, 1), v)
            allowed = v is None and d.allow_none
        else:
            tree = replaced(tree, path + (1, 1), list(good) + [v])
    elif how == 'kind':
        if d.is_list:
            v = ctx.pick('v', [(False, good[0]), (True, good[0]),
                               (False, good)])
        else:
            v = ctx.pick('v', [(True, [good]), (True, good),
                               (False, [good]), (True, [good, good])])
        tree = replaced(tree, path + (1,), v)
    elif how == 'empty':
        tree = replaced(tree, path + (1,), (ctx.flag('list?'), []))
    elif how == 'number':
        at_ = path + (1, 1) + ((0,) if d.is_list else ()) + (0,)
        h = get_at(tree, at_)
        n = ctx.int('n', -1, 1 << 17)
        ctx.assume(n != library.get_type(d.cls))
        tree = replaced(tree, at_, (n,) + tuple(h)[1:])
    else:
        other = ctx.pick('other', others(d.cls))
        o = b.message('o', other, nested=True)
        v = (o.header, o.sig, o.slots())
        tree = replaced(tree, path + (1, 1), [v] if d.is_list else v)
    r, e = ctx.outcome(receive, frame(cls, tree, sig=b's' * 65))
    if allowed:
        if len(path) == 1:
            # (inside, other checks of the messages may object)
            ctx.require(e is None or type(e) is exceptions.ValidationError,
                        'accepted')
        if e is None:
            ctx.reach('accepted')
    else:
        ctx.require(isinstance(e, exceptions.FieldError),
                    'refused with a field error')
        ctx.require(e.field == slot or how == 'absent all' and
                    e.field in nested(c), 'names the slot')
        ctx.reach('refused')


@job('C10', reach=('done',),
     bounds='every type: what arrives in a slot is a message of the '
            'declared type, or none where that is allowed', params=OUTER)
def arrived(ctx, name):
    b = Builder(ctx)
    cls = CLASSES[name]
    m = b.valid('m', name)
    r = receive(m.serialize())
    todo = [(r, m)]
    while todo:
        x, y = todo.pop()
        for slot, d in nested(type(x)).items():
            v, w = getattr(x, slot), getattr(y, slot)
            if w is None:
                ctx.require(v is None, 'none as sent')
                continue
            ctx.require(isinstance(v, list) == d.is_list, 'list or single')
            for p, q in zip(v if d.is_list else [v],
                            w if d.is_list else [w]):
                ctx.require(type(p) is d.cls, 'the declared type')
                todo.append((p, q))
    ctx.reach('done')
