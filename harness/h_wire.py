"""C01: every registered message survives the wire unchanged."""
import functools

from golem_messages import cryptography, shortcuts
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.message import base

from sx.api import job

from . import build
from .build import Builder, CLASSES, Party

RECEIVED = {k: {'name': k} for k in sorted(CLASSES)}


def round_trip(ctx, b, m, signed, encrypted):
    sender = Party(ctx, 'sender')
    receiver = Party(ctx, 'receiver')
    cls = type(m)
    data = shortcuts.dump(m, sender.secret if signed else None,
                          receiver.public if encrypted else None)
    ctx.require(isinstance(data, bytes), 'bytes on the wire')
    r = shortcuts.load(data, receiver.secret,
                       sender.public if signed else None, check_time=False)
    ctx.require(type(r) is cls, 'same type')
    ctx.require(ctx.same(r.timestamp, m.timestamp), 'same timestamp')
    ctx.require(ctx.same(r.header.type_, m.header.type_), 'same number')
    ctx.require(ctx.same(r.sig, m.sig), 'same signature')
    for slot in b.slots_of(cls):
        ctx.require(build.same_value(ctx, getattr(r, slot, None),
                                     getattr(m, slot)),
                    'same value of ' + slot)
    ctx.require(r == m, 'compares equal')
    ctx.require(m == r, 'compares equal the other way')
    ctx.reach('done')
    return r


@job('C01', reach=('done',),
     bounds='every registered type, all slots filled with values of their '
            'usual kind (arbitrary integers, opaque text), signed or not, '
            'encrypted or not, any timestamp; lists of one element',
     params=RECEIVED)
def usual(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    round_trip(ctx, b, m, ctx.flag('signed'), ctx.flag('encrypted'))


VARIED = {k: {'name': k} for k, c in sorted(CLASSES.items())
          if build.free_slots(c)}


@job('C01', reach=('done',),
     bounds='every slot of every type that takes any value, with each kind '
            'of value the codec knows (integers of 71 bits, opaque or empty '
            'text and bytes, lists and dictionaries nested once)',
     params=VARIED, weight=2)
def varied(ctx, name):
    cls = CLASSES[name]
    slot = ctx.pick('slot', build.free_slots(cls))
    b = Builder(ctx)
    value = ctx.any('value', build.WIRE)
    m = b.valid('m', name, **{slot: value})
    round_trip(ctx, b, m, ctx.thorough and ctx.flag('signed'), False)


@job('C01', reach=('done',),
     bounds='each field of a subtask definition, file entry or node that '
            'takes any value, with each kind of value the codec knows',
     params={k: {'name': k} for k in ('TaskToCompute', 'FileTransferToken',
                                      'Peers')}, weight=2)
def inner(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    if name == 'TaskToCompute':
        key = ctx.pick('key', ['deadline', 'extra_data', 'performance',
                               'docker_images', 'resources'])
        m.compute_task_def[key] = ctx.any('value', build.WIRE)
    elif name == 'FileTransferToken':
        key = ctx.pick('key', ['path', 'checksum', 'size'])
        m.files[0][key] = ctx.any('value', build.WIRE)
    else:
        key = ctx.pick('key', ['prv_addresses', 'port_statuses', 'nat_type'])
        node = b.node('m.node', **{key: None})
        setattr(node, key, ctx.any(
            'value', ('none', 'list0', 'list', 'list2')
            if key != 'port_statuses' else ('none', 'dict0', 'dict')))
        m.peers = [dt_p2p.Peer({
            'address': ctx.ip('m.address'),
            'port': ctx.int('m.port', 1, 65534),
            'node': node,
        })]
    round_trip(ctx, b, m, False, False)


RICH = ('Hello', 'Peers', 'Tasks', 'WantToStartTaskSession',
        'SetTaskSession', 'WantToComputeTask', 'TaskToCompute',
        'ReportComputedTask', 'FileTransferToken')


@job('C01', reach=('done',),
     bounds='every field of the nested data structures filled, optional '
            'enumerations over all members',
     params={k: {'name': k} for k in RICH})
def rich(ctx, name):
    b = Builder(ctx, lean=False)
    m = b.valid('m', name)
    round_trip(ctx, b, m, ctx.flag('signed'), False)


UNSET = [(k, s) for k, c in sorted(CLASSES.items())
         for s in Builder.slots_of(None, c)
         if s in build.UNSETTABLE.get(k, ()) or
         Builder.enum_of(None, c, s) is not None and
         k not in ('SubtaskResultsRejected', 'TaskFailure') or
         s in build.nested(c) and build.nested(c)[s].allow_none]


@job('C01', reach=('done',),
     bounds='each slot that may be unset unset, others filled')
def unset(ctx):
    name, slot = ctx.pick('which', UNSET)
    b = Builder(ctx)
    m = b.valid('m', name, **{slot: None})
    round_trip(ctx, b, m, ctx.flag('signed'), False)


@job('C01', reach=('done',),
     bounds='listings of 0 to 3 entries')
def lists(ctx):
    name = ctx.pick('which', ['Peers', 'Tasks', 'ResourcePeers', 'Gossip',
                              'FileTransferToken', 'ForcePayment',
                              'RemoveTaskContainer'])
    n = ctx.pick('n', [0, 2, 3] if ctx.thorough else [0, 2])
    cls = CLASSES[name]
    b = Builder(ctx)
    if build.nested(cls):
        n = max(n, 1)      # empty lists are refused on reception
        (slot, d), = build.nested(cls).items()
        v = [b.message('m.%d' % i, d.cls, nested=True)
             for i in range(n)]
    else:
        slot = {'Peers': 'peers', 'Tasks': 'tasks',
                'ResourcePeers': 'resource_peers', 'Gossip': 'gossip',
                'FileTransferToken': 'files'}[name]
        make = {'Peers': b.peer, 'Tasks': b.header,
                'FileTransferToken': b.file_info}.get(
                    name, lambda s: ctx.text(s, 0, 9))
        v = [make('m.%d' % i) for i in range(n)]
    m = b.valid('m', name, **{slot: v})
    round_trip(ctx, b, m, ctx.flag('signed'), False)


@job('C01', reach=('done',),
     bounds='every enumerated slot with every member')
def members(ctx):
    name, slot, e = ctx.pick('which', [
        (k, s, Builder.enum_of(None, c, s))
        for k, c in sorted(CLASSES.items())
        for s in Builder.slots_of(None, c)
        if Builder.enum_of(None, c, s) is not None])
    b = Builder(ctx)
    value = ctx.pick('member', list(e))
    over = {slot: value}
    if name == 'SubtaskResultsRejected' and \
            value is e.ForcedResourcesFailure:
        rct = b.message('m.rct', 'ReportComputedTask', nested=True)
        over['report_computed_task'] = rct
        over['force_get_task_result_failed'] = b.message(
            'm.fgtrf', 'ForceGetTaskResultFailed', nested=True,
            task_to_compute=rct.task_to_compute)
    m = b.valid('m', name, **over)
    round_trip(ctx, b, m, ctx.flag('signed'), False)
