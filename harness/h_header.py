"""C24: the signature of a task offer covers every field of the offer."""
from golem_messages import exceptions
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import Message

from sx.api import job

from .build import Builder, CLASSES, Party, same_value
from .h_containers import FIELDS, MARKET

OWNER = list(FIELDS['Node'])
COVERED = [k for k in FIELDS['TaskHeader'] if k != 'signature']
REQUIRED = ('task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp')


def owner_value(ctx, k, name):
    rule = FIELDS['Node'][k]
    if k == 'port_statuses':
        return ctx.pick(name, [{}, {'k': 'x'}, {'k': 'y'}, {'j': 'x'},
                               {'k': 'x', 'j': 'x'}])
    if k in ('prv_addresses', 'nat_type'):
        n = ctx.pick(name + '.n', [0, 1, 2])
        return [ctx.text('%s.%d' % (name, i), 0, 9) for i in range(n)]
    if not ctx.flag(name + '?'):
        return None
    if rule == 'port':
        return ctx.int(name, 1, 65534)
    if rule == 'ip':
        return ctx.ip(name)
    if rule == 'int':
        return ctx.int(name)
    return ctx.text(name, 0, 128)


def field_value(ctx, k, name):
    rule = FIELDS['TaskHeader'][k]
    if k not in REQUIRED and not ctx.flag(name + '?'):
        return None
    if rule == 'int':
        return ctx.int(name)
    if rule == 'varchar':
        return ctx.text(name, 0, 128)
    if rule == 'natural':
        return ctx.int(name, 0)
    if rule == 'positive':
        return ctx.int(name, 1)
    if rule == 'bool':
        return ctx.bool(name)
    if rule == 'mask':
        return ctx.bytes(name, 32)
    if rule == 'version':
        return ctx.pick(name, ['1.5.0', '1.5.0-rc1', '1.5.1'])
    if rule == 'market':
        return ctx.pick(name, list(MARKET))
    if rule == 'dict':
        k = ctx.pick(name + '.what', ['empty', 'one', 'other', 'two'])
        return {'empty': lambda: {}, 'one': lambda: {'k': ctx.int(name)},
                'other': lambda: {'j': ctx.int(name)},
                'two': lambda: {'k': ctx.int(name), 'j': 1}}[k]()
    raise AssertionError(rule)


def fields(ctx):
    """A complete set of values."""
    d = Builder(ctx, lean=False).header_fields('h')
    d['task_owner'] = d['task_owner'].to_dict()
    return d


def verdict(ctx, h, key, good):
    """h verifies with the key exactly when good holds."""
    r, e = ctx.outcome(h.verify, key)
    if e is None:
        ctx.require(r is True, 'true')
        ctx.require(good, 'verifies only for what was signed')
        ctx.reach('verified')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'an invalid signature error')
        ctx.require(ctx.no(good), 'what was signed verifies')
        ctx.reach('refused')


def make(d, sig=None):
    h = dt_tasks.TaskHeader(**d)
    h.signature = sig
    return h


@job('C24', reach=('verified', 'refused'),
     params={k: {'key': k} for k in COVERED if k != 'task_owner'},
     bounds='every field with any two values (or unset), the other fields '
            'being any equal values')
def one_field(ctx, key):
    k = Party(ctx, 'signer')
    d = fields(ctx)
    a, b = field_value(ctx, key, 'a'), field_value(ctx, key, 'b')
    first = make(dict(d, **{key: a}))
    first.sign(k.secret)
    second = make(dict(d, **{key: b}), first.signature)
    verdict(ctx, second, k.public, ctx.same(a, b))


@job('C24', reach=('verified', 'refused'),
     params={k: {'key': k} for k in OWNER},
     bounds='every field of the owner with any two values (or unset)')
def owner_field(ctx, key):
    k = Party(ctx, 'signer')
    d = fields(ctx)
    a, b = owner_value(ctx, key, 'a'), owner_value(ctx, key, 'b')
    first = make(dict(d, task_owner=dict(d['task_owner'], **{key: a})))
    first.sign(k.secret)
    second = make(dict(d, task_owner=dict(d['task_owner'], **{key: b})),
                  first.signature)
    verdict(ctx, second, k.public, ctx.same(a, b))


@job('C24', reach=('verified', 'refused'),
     bounds='any field set on the object after signing, in place')
def changed_later(ctx):
    k = Party(ctx, 'signer')
    h = make(fields(ctx))
    h.sign(k.secret)
    key = ctx.pick('key', COVERED)
    old = getattr(h, key)
    if key == 'task_owner':
        inner = ctx.pick('owner', OWNER)
        old = getattr(h.task_owner, inner)
        new = owner_value(ctx, inner, 'new')
        setattr(h.task_owner, inner, new)
    else:
        new = field_value(ctx, key, 'new')
        if key == 'mask':
            if new is not None:
                new = dt_tasks.masking.Mask(new)
            else:
                new = dt_tasks.masking.Mask()
        if key == 'market_type' and isinstance(old, MARKET):
            old, new = old.value, new and new.value
        setattr(h, key, new)
    verdict(ctx, h, k.public, same_value(ctx, old, new))


@job('C24', reach=('verified', 'refused'),
     bounds='two offers that share nothing')
def unrelated(ctx):
    k = Party(ctx, 'signer')
    a = Builder(ctx).header_fields('a')
    b = Builder(ctx).header_fields('b')
    first = make(a)
    first.sign(k.secret)
    second = make(b, first.signature)
    verdict(ctx, second, k.public,
            ctx.all(*[same_value(ctx, a[x], b[x]) for x in a]))


@job('C24', reach=('verified', 'refused'),
     bounds='two values exchanged between two fields of the same kind')
def exchanged(ctx):
    k = Party(ctx, 'signer')
    d = fields(ctx)
    x, y = ctx.pick('pair', [
        ('timestamp', 'deadline'), ('deadline', 'subtask_timeout'),
        ('max_price', 'subtask_budget'), ('task_id', 'environment'),
        ('estimated_memory', 'max_price'),
        ('subtask_budget', 'estimated_memory')])
    if FIELDS['TaskHeader'][x] == 'int':
        d[x] = ctx.int('x', 1)
        d[y] = ctx.int('y', 1)
    first = make(d)
    first.sign(k.secret)
    second = make(dict(d, **{x: d[y], y: d[x]}), first.signature)
    verdict(ctx, second, k.public, ctx.same(d[x], d[y]))


@job('C24', reach=('verified', 'refused'),
     bounds='any signer, any verifying key; no signature, and any 65 bytes '
            'or shorter and longer ones as signature')
def keys(ctx):
    k = Party(ctx, 'signer')
    other = Party(ctx, 'other')
    d = Builder(ctx).header_fields('h')
    h = make(d)
    how = ctx.pick('how', ['signed', 'missing', 'forged', 'copied', 'given'])
    good = False
    if how == 'signed':
        h.sign(k.secret)
        good = ctx.same(k.secret, other.secret)
    elif how == 'forged':
        n = ctx.pick('n', [0, 64, 65, 66])
        h.signature = ctx.blob('sig', n, n)
    elif how == 'copied':
        h.sign(k.secret)
        h = make(d, h.signature)
        good = ctx.same(k.secret, other.secret)
    elif how == 'given':
        h.sign(k.secret)
        h = dt_tasks.TaskHeader(**dict(d, signature=h.signature))
        good = ctx.same(k.secret, other.secret)
    verdict(ctx, h, other.public, good)


@job('C24', reach=('verified', 'refused'),
     bounds='signed once and signed again by any other key, maybe after a '
            'change')
def signed_again(ctx):
    k = Party(ctx, 'first')
    l = Party(ctx, 'second')
    h = make(Builder(ctx).header_fields('h'))
    h.sign(k.secret)
    old = h.signature
    if ctx.flag('change'):
        h.deadline = ctx.int('deadline')
    h.sign(l.secret)
    ctx.require(h.signature is not old, 'a new signature')
    which = ctx.flag('verify first')
    verdict(ctx, h, (k if which else l).public,
            ctx.same(k.secret, l.secret) if which else True)


CARRIERS = {'WantToComputeTask': {'name': 'WantToComputeTask'},
            'Tasks': {'name': 'Tasks'},
            'TaskToCompute': {'name': 'TaskToCompute'},
            'AckReportComputedTask': {'name': 'AckReportComputedTask'}}


@job('C24', reach=('verified', 'refused'), params=CARRIERS,
     bounds='offers with all fields set or only the required ones, sent in a '
            'message, in an assignment and in one nested twice')
def travelled(ctx, name):
    k = Party(ctx, 'signer')
    other = Party(ctx, 'other')
    if ctx.flag('full'):
        h = make(fields(ctx))
    else:
        h = make({x: v for x, v in fields(ctx).items() if x in REQUIRED})
    if ctx.flag('mask') and h.mask is None:
        h.mask = dt_tasks.masking.Mask(ctx.bytes('mask', 32))
    h.sign(k.secret)
    b = Builder(ctx, over={
        ('WantToComputeTask', 'task_header'): lambda _: h,
        ('Tasks', 'tasks'): lambda _: [h]})
    m = b.valid('m', CLASSES[name])
    m = Message.deserialize(m.serialize(), None, check_time=False)
    if name == 'Tasks':
        got = m.tasks[0]
    elif name == 'WantToComputeTask':
        got = m.task_header
    elif name == 'TaskToCompute':
        got = m.want_to_compute_task.task_header
    else:
        got = m.report_computed_task.task_to_compute.want_to_compute_task \
            .task_header
    verdict(ctx, got, other.public, ctx.same(k.secret, other.secret))
