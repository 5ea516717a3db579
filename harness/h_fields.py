"""C40: what a payload can and cannot set."""
from golem_messages import exceptions

from sx.api import job

from .build import Builder, CLASSES, nested, same_message
from .h_hostile import frame, receive

EACH = {k: {'name': k} for k in sorted(CLASSES)}
WITH = {k: v for k, v in EACH.items() if Builder.slots_of(None, CLASSES[k])}
INNER = ['header', 'sig', '_version', '_type', 'timestamp', 'encrypted',
         '__class__', '__slots__', 'slots', 'serialize', 'is_valid', 'SIGN',
         'ENCRYPT', 'task_id', 'task_to_compute', '', b'header', b'sig', 7,
         None]
KINDS = ('none', 'int', 'str', 'bytes', 'list0', 'dict')


def setup(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    m.sig = ctx.blob('sig', 65, 65)
    return b, m, [[k, v] for k, v in m.slots()]


def framed(m, tree):
    """The frame of m with another payload."""
    return frame(type(m), tree, ts=m.timestamp, sig=m.sig)


@job('C40', reach=('done',), params=EACH,
     bounds='every type with a further field of any other name (names of '
            'the parts of a message included) and value, first or last')
def extra(ctx, name):
    ctx.hash_ok = True
    b, m, tree = setup(ctx, name)
    own = Builder.slots_of(None, CLASSES[name])
    what = ctx.pick('name', ['text'] + [x for x in INNER if x not in own])
    if what == 'text':
        what = ctx.text('field', 0, 40)
        ctx.assume(ctx.all(*[what != x for x in own]))
    entry = [what, ctx.any('value', KINDS if ctx.thorough else ('bytes',))]
    first = ctx.flag('first')
    tree = [entry] + tree if first else tree + [entry]
    r, e = ctx.outcome(receive, framed(m, tree))
    ctx.require(e is None, 'accepted')
    ctx.require(same_message(ctx, r, m), 'as without it')
    ctx.require(type(r) is CLASSES[name], 'the type')
    ctx.require(r.encrypted is False, 'in clear')
    ctx.reach('done')


@job('C40', reach=('done',), params=WITH,
     bounds='every type with its fields in reverse order, rotated, or one '
            'given twice with any value first')
def order(ctx, name):
    b, m, tree = setup(ctx, name)
    how = ctx.pick('how', ['reversed', 'rotated', 'twice'])
    if how == 'reversed':
        tree = tree[::-1]
    elif how == 'rotated':
        tree = tree[1:] + tree[:1]
    else:
        i = ctx.choice('which', len(tree))
        tree = tree[:i] + [[tree[i][0], ctx.any(
            'value', KINDS if ctx.thorough else ('int', 'bytes'))]] + tree[i:]
    r, e = ctx.outcome(receive, framed(m, tree))
    ctx.require(e is None, 'accepted')
    ctx.require(same_message(ctx, r, m), 'the same message')
    ctx.reach('done')


@job('C40', reach=('done',), params=WITH,
     bounds='every type with any one field left out: as with it unset, '
            'where that is accepted')
def missing(ctx, name):
    b, m, tree = setup(ctx, name)
    i = ctx.choice('which', len(tree))
    slot = tree[i][0]
    unset = (False, None) if slot in nested(CLASSES[name]) else None
    r, e = ctx.outcome(receive, framed(m, tree[:i] + tree[i + 1:]))
    s, f = ctx.outcome(receive, framed(
        m, tree[:i] + [[slot, unset]] + tree[i + 1:]))
    if f is None:
        ctx.require(e is None, 'accepted as well')
        ctx.require(same_message(ctx, r, s), 'the same message')
    elif e is not None:
        ctx.require(isinstance(e, exceptions.MessageError),
                    'a message error')
    ctx.reach('done')
