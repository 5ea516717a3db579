"""C07: hostile frames can only cause message errors."""
import struct

from golem_messages import exceptions
from golem_messages import serializer
from golem_messages import shortcuts
from golem_messages.message import base
from golem_messages.register import library

from sx.api import SENT, job

from .build import Builder, CLASSES, MAX_TS, MIN_TS, Party

EACH = {k: {'name': k} for k in sorted(CLASSES)}
TS = 1600000000


def frame(cls, tree, ts=TS, sig=b'\0' * 65, version=b'3.14.0'):
    data = struct.pack('!HQ?', library.get_type(cls), ts, False) + sig + \
        serializer.dumps(tree)
    if cls.__name__ == 'Hello':
        data += struct.pack('!32p', version)
    return data


def receive(data, public=None):
    return base.Message.deserialize(data, None, check_time=False,
                                    sender_public_key=public)


def positions(tree, depth, path=()):
    """Paths to the values in a payload, down to a depth."""
    out = []
    if depth == 0:
        return out
    if isinstance(tree, (list, tuple)):
        items = list(enumerate(tree))
    elif isinstance(tree, dict):
        items = list(tree.items())
    else:
        return out
    for k, v in items:
        out.append(path + (k,))
        out += positions(v, depth - 1, path + (k,))
    return out


def replaced(tree, path, value):
    if not path:
        return value
    if isinstance(tree, dict):
        d = dict(tree)
        d[path[0]] = replaced(tree[path[0]], path[1:], value)
        return d
    out = list(tree)
    out[path[0]] = replaced(out[path[0]], path[1:], value)
    return out


def fine(ctx, e):
    ctx.require(e is None or isinstance(e, exceptions.MessageError),
                'a message or a message error')


SPLIT = ('TaskToCompute', 'ReportComputedTask')
LARGE = ('want_to_compute_task', 'compute_task_def', 'task_to_compute')
# with a lot of nested messages
BULKY = ('AckSubtaskResultsVerify', 'RejectReportComputedTask',
         'ForceReportComputedTaskResponse', 'ForceGetTaskResultUpload',
         'ForceGetTaskResultDownload', 'ForceSubtaskResultsResponse',
         'VerdictReportComputedTask')
FEW = ('none', 'int', 'str', 'bytes', 'list0', 'list', 'dict')


@job('C07', reach=('done',),
     bounds='every type; any one slot value or its name, or any one element '
            'of a slot value, replaced by each kind of value the codec '
            'knows; others well-formed',
     params=dict(EACH, **{
         '%s.%s' % (k, s): {'name': k, 'slots': (s,)}
         for k in ('TaskToCompute', 'ReportComputedTask')
         for s in ('want_to_compute_task', 'compute_task_def',
                   'task_to_compute') if s in CLASSES[k].__slots__}),
     weight=2)
def one_slot(ctx, name, slots=()):
    ctx.hash_ok = True
    cls = CLASSES[name]
    b = Builder(ctx)
    m = b.valid('m', name)
    tree = m.slots()
    if not tree:
        value = ctx.any('value', SENT)
        _, e = ctx.outcome(receive, frame(cls, value))
        fine(ctx, e)
        ctx.reach('done')
        return
    i = ctx.pick('slot', [i for i, (s, _) in enumerate(tree) if (
        s in slots if slots else name not in SPLIT or s not in LARGE)])
    inner = positions(tree[i], 3 if ctx.thorough else 2)
    where = ctx.pick('where', [p for p in inner if p[0] == 1] + [(), (0,)])
    deep = len(where) > 1
    value = ctx.any(
        'value', SENT if not deep else FEW if ctx.thorough else
        ('int', 'str', 'list') if tree[i][0] != 'compute_task_def' else
        ('list',), 0 if deep else 1)
    tree = list(tree)
    tree[i] = replaced(tree[i], where, value)
    _, e = ctx.outcome(receive, frame(cls, tree))
    fine(ctx, e)
    ctx.reach('done')


DEEP = ('SubtaskResultsAccepted', 'SubtaskResultsRejected',
        'VerdictReportComputedTask', 'TaskToCompute', 'ForcePayment')


@job('C07', reach=('done',),
     bounds='types with nested task messages: any one value down to ten '
            'levels (quick) or at any depth (thorough) below the slots of '
            'the assignment and its offer replaced',
     params={k: {'name': k} for k in DEEP})
def deep(ctx, name):
    ctx.hash_ok = True
    cls = CLASSES[name]
    b = Builder(ctx)
    m = b.valid('m', name)
    if name == 'SubtaskResultsRejected' and ctx.flag('proof'):
        m.force_get_task_result_failed = b.message(
            'm.fgtrf', 'ForceGetTaskResultFailed', nested=True,
            task_to_compute=m.report_computed_task.task_to_compute)
    tree = m.slots()
    deepest = 30 if ctx.thorough else 10
    where = ctx.pick('where', [
        p for p in positions(tree, deepest) if len(p) > 3])
    value = ctx.any('value', ('none', 'int', 'str', 'list', 'dict')
                    if ctx.thorough else ('list',), 0)
    _, e = ctx.outcome(receive, frame(cls, replaced(tree, where, value)))
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='every type; the whole payload replaced by each kind of value, '
            'by pairs and by lists of them',
     params=EACH)
def whole(ctx, name):
    ctx.hash_ok = True
    cls = CLASSES[name]
    how = ctx.pick('how', ['value', 'pair', 'triple', 'dict', 'twice'])
    if how == 'value':
        tree = ctx.any('tree', SENT)
    elif how == 'pair':
        tree = [[ctx.any('key', FEW, 0),
                 ctx.any('v', FEW, 0) if ctx.thorough else None]]
    elif how == 'triple':
        tree = [[ctx.any('key', FEW, 0), None, 1]]
    elif how == 'dict':
        tree = {s: ctx.any('v', FEW, 0) for s in cls.__slots__[:1]}
    else:
        tree = [[s, None] for s in cls.__slots__] * 2
    _, e = ctx.outcome(receive, frame(cls, tree))
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='opaque bytes of any kind after any valid header, encrypted or '
            'not, with or without an expected sender')
def opaque(ctx):
    name = ctx.pick('name', sorted(CLASSES))
    n = library.get_type(CLASSES[name])
    flag = ctx.flag('encrypted')
    size = ctx.pick('size', [66, 98, 178, 300]
                    if ctx.thorough else [98])
    data = struct.pack('!HQ?', n, TS, flag) + ctx.blob('rest', size, size)
    me, other = Party(ctx, 'me'), Party(ctx, 'other')
    _, e = ctx.outcome(shortcuts.load, data, me.secret,
                       other.public if ctx.flag('known') else None,
                       check_time=ctx.thorough and ctx.flag('check_time'))
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='header bytes any, every timestamp, time checking on')
def headers(ctx):
    ctx.set_now(ctx.int('now', 1262304000 * 10 ** 6, 16725225600 * 10 ** 6))
    data = ctx.bytes('head', 11) + b'\0' * 65 + b'\x80'
    _, e = ctx.outcome(base.Message.deserialize, data, lambda p: p)
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='frames of length 0 to 80 and other values in place of a frame')
def short(ctx):
    if ctx.flag('none'):
        data = ctx.pick('data', [None, b''])
    else:
        n = ctx.pick('n', [1, 10, 11, 12, 40, 75, 76, 77, 80])
        data = ctx.blob('data', n, n)
    _, e = ctx.outcome(base.Message.deserialize, data, lambda p: p,
                       check_time=False)
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='signatures of any contents with an expected sender, and '
            'well-formed payloads of several types')
def signature(ctx):
    name = ctx.pick('name', ['RandVal', 'Hello', 'ReportComputedTask',
                             'SubtaskResultsRejected', 'TaskToCompute'])
    b = Builder(ctx)
    m = b.valid('m', name)
    sig = ctx.blob('sig', 65, 65)
    k = Party(ctx, 'other')
    _, e = ctx.outcome(receive, frame(CLASSES[name], m.slots(), sig=sig),
                       k.public)
    fine(ctx, e)
    ctx.reach('done')


@job('C07', reach=('done',),
     bounds='ethereum signatures of every kind and size in an assignment')
def ethsig(ctx):
    b = Builder(ctx)
    m = b.valid('m', 'TaskToCompute')
    kind = ctx.pick('kind', ['any', 'sized', 'key', 'id'])
    tree = [list(x) for x in m.slots()]
    names = [x[0] for x in tree]
    if kind == 'any':
        tree[names.index('ethsig')][1] = ctx.any('v', SENT)
    elif kind == 'sized':
        tree[names.index('ethsig')][1] = ctx.blob('v', 0, 70)
    elif kind == 'key':
        tree[names.index('requestor_ethereum_public_key')][1] = \
            ctx.any('v', SENT) if ctx.flag('any') else ctx.pick('v', [
                '', '0', '00', 'zz', '0x00', '00' * 63, '00' * 64,
                b'00' * 64, '00' * 65])
    else:
        tree[names.index('requestor_id')][1] = \
            ctx.any('v', SENT) if ctx.flag('any') else ctx.pick('v', [
                '', '0', '00', 'zz', '0x00', '00' * 64])
    _, e = ctx.outcome(receive, frame(type(m), tree))
    fine(ctx, e)
    ctx.reach('done')
