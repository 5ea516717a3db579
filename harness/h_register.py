"""C08: type numbers and message types correspond one to one."""
from golem_messages.message import base
from golem_messages.register import MessageRegister, library

from sx.api import job

from .build import CLASSES

# the published protocol
PUBLISHED = {
    0: 'Hello',
    1: 'RandVal',
    2: 'Disconnect',
    3: 'ChallengeSolution',
    1001: 'Ping',
    1002: 'Pong',
    1003: 'GetPeers',
    1004: 'Peers',
    1005: 'GetTasks',
    1006: 'Tasks',
    1007: 'RemoveTask',
    1008: 'GetResourcePeers',
    1009: 'ResourcePeers',
    1010: 'Degree',
    1011: 'Gossip',
    1012: 'StopGossip',
    1013: 'LocRank',
    1014: 'FindNode',
    1015: 'WantToStartTaskSession',
    1016: 'SetTaskSession',
    1017: 'RemoveTaskContainer',
    2001: 'WantToComputeTask',
    2002: 'TaskToCompute',
    2003: 'CannotAssignTask',
    2004: 'ReportComputedTask',
    2010: 'SubtaskResultsAccepted',
    2011: 'SubtaskResultsRejected',
    2015: 'TaskFailure',
    2016: 'StartSessionResponse',
    2026: 'CannotComputeTask',
    2027: 'SubtaskPayment',
    2028: 'SubtaskPaymentRequest',
    2029: 'AckReportComputedTask',
    2030: 'RejectReportComputedTask',
    3001: 'PushResource',
    3002: 'HasResource',
    3003: 'WantsResource',
    3004: 'PullResource',
    3005: 'PullAnswer',
    3008: 'ResourceHandshakeStart',
    3009: 'ResourceHandshakeNonce',
    3010: 'ResourceHandshakeVerdict',
    4000: 'ServiceRefused',
    4001: 'ForceReportComputedTask',
    4004: 'VerdictReportComputedTask',
    4005: 'FileTransferToken',
    4006: 'SubtaskResultsVerify',
    4007: 'AckSubtaskResultsVerify',
    4008: 'SubtaskResultsSettled',
    4009: 'ForceGetTaskResult',
    4010: 'AckForceGetTaskResult',
    4011: 'ForceGetTaskResultFailed',
    4012: 'ForceGetTaskResultRejected',
    4013: 'ForceGetTaskResultUpload',
    4014: 'ForceGetTaskResultDownload',
    4015: 'ForceSubtaskResults',
    4016: 'ForceSubtaskResultsResponse',
    4017: 'ForceSubtaskResultsRejected',
    4018: 'ForcePayment',
    4019: 'ForcePaymentCommitted',
    4020: 'ForcePaymentRejected',
    4021: 'ForceReportComputedTaskResponse',
    4022: 'ClientAuthorization',
}


class A(base.Message):
    __slots__ = ['x'] + base.Message.__slots__


class B(base.Message):
    __slots__ = ['x'] + base.Message.__slots__


class C(base.Message):
    __slots__ = ['x'] + base.Message.__slots__


@job('C08', reach=('present', 'absent'),
     bounds='every 16-bit number against the published protocol')
def published(ctx):
    ctx.hash_ok = True
    n = ctx.int('n', 0, 65535)
    there = ctx.is_true(n in library)
    ctx.require(ctx.implies(ctx.either(*[n == k for k in PUBLISHED]), there),
                'the published numbers are in use')
    if not there:
        _, e = ctx.outcome(library.__getitem__, n)
        ctx.require(type(e) is KeyError, 'no type for it')
        ctx.reach('absent')
        return
    c = library[n]
    ctx.require(issubclass(c, base.Message), 'a message type')
    ctx.require(ctx.all(*[ctx.implies(n == k, c.__name__ == v)
                          for k, v in PUBLISHED.items()]),
                'the published meaning')
    ctx.require(library.get_type(c) == n, 'looked up back')
    ctx.reach('present')


@job('C08', reach=('done',), bounds='every registered type')
def types(ctx):
    name = ctx.pick('name', sorted(set(PUBLISHED.values())))
    ctx.require(name in CLASSES, 'the type is registered')
    c = CLASSES[name]
    n = library.get_type(c)
    ctx.require(PUBLISHED.get(n) == name, 'the published number')
    ctx.require(library[n] is c, 'looked up back')
    m = c()
    ctx.require(m.header.type_ == n, 'messages carry it')
    ctx.reach('done')


@job('C08', reach=('taken', 'free'),
     bounds='a fresh register, three registrations under any numbers')
def fresh(ctx):
    ctx.hash_ok = True
    r = MessageRegister()
    want = []       # accepted registrations
    for cls, name in ((A, 'a'), (B, 'b'), (C, 'c')):
        n = ctx.int(name, 0, 65535)
        got, e = ctx.outcome(lambda: r.register(n)(cls))
        used = ctx.either(*[n == k for k, _ in want]) if want else False
        if e is None:
            ctx.require(ctx.no(used), 'an unused number')
            ctx.require(got is cls, 'the decorator gives the class')
            want.append((n, cls))
            ctx.reach('free')
        else:
            ctx.require(type(e) is RuntimeError, 'refused')
            ctx.require(used, 'only when used')
            _, e = ctx.outcome(r.get_type, cls)
            ctx.require(type(e) is KeyError, 'the class is not registered')
            ctx.reach('taken')
        for k, c in want:
            ctx.require(k in r, 'there')
            ctx.require(r[k] is c, 'number to type')
            ctx.require(r.get_type(c) == k, 'type to number')
    n = ctx.int('other', 0, 65535)
    ctx.require(ctx.iff(n in r, ctx.either(*[n == k for k, _ in want])),
                'nothing else is there')


@job('C08', reach=('taken', 'free'),
     bounds='any number registered with the library again')
def library_again(ctx):
    ctx.hash_ok = True
    n = ctx.int('n', 0, 65535)
    used = n in library
    before = library[n] if ctx.is_true(used) else None
    _, e = ctx.outcome(lambda: library.register(n)(A))
    if e is None:
        ctx.require(ctx.no(used), 'an unused number')
        ctx.require(library[n] is A, 'number to type')
        ctx.require(library.get_type(A) == n, 'type to number')
        ctx.reach('free')
    else:
        ctx.require(ctx.all(type(e) is RuntimeError, used), 'refused')
        ctx.require(library[n] is before, 'as it was')
        ctx.require(library.get_type(before) == n, 'as it was, back')
        _, e = ctx.outcome(library.get_type, A)
        ctx.require(type(e) is KeyError, 'the class is not registered')
        ctx.reach('taken')
    k = ctx.pick('k', sorted(PUBLISHED)[::7])
    ctx.require(library[k].__name__ == PUBLISHED[k], 'others untouched')
