"""C34, C35: enumerated fields; admissible and defaulted fields."""
import enum

from golem_messages import exceptions
from golem_messages.message import tasks

from sx.api import SENT, job

from . import build
from .build import Builder, CLASSES
from .h_hostile import frame, receive

# the declared values of every enumerated field
MEMBERS = {
    ('Disconnect', 'reason'): {
        'DuplicatePeers': 'duplicate_peers',
        'TooManyPeers': 'too_many_peers',
        'Refresh': 'refresh',
        'Unverified': 'unverified',
        'ProtocolVersion': 'protocol_version',
        'BadProtocol': 'bad_protocol',
        'Timeout': 'timeout',
        'NoMoreMessages': 'no_more_messages',
        'WrongEncryption': 'wrong_encryption',
        'ResourceHandshakeFailure': 'resource_handshake',
        'KeyNotDifficult': 'key_not_difficult',
        'Bootstrap': 'bootstrap',
    },
    ('CannotAssignTask', 'reason'): {
        'NotMyTask': 'NotMyTask',
        'NoMoreSubtasks': 'NoMoreSubtasks',
        'TaskFinished': 'TaskFinished',
        'ConcentDisabled': 'ConcentDisabled',
    },
    ('SubtaskResultsRejected', 'reason'): {
        'VerificationNegative': 'Results verification negative',
        'ConcentResourcesFailure':
            'Concent could not retrieve resources to verify',
        'ConcentVerificationNegative': 'Concent results verification negative',
        'ForcedResourcesFailure':
            'Concent reported failure to retrieve the resources to verify',
        'ResourcesFailure': 'Could not retrieve resources',
    },
    ('TaskFailure', 'reason'): {
        'ComputationError': 'ComputationError',
        'BudgetExceeded': 'BudgetExceeded',
        'TimeExceeded': 'TimeExceeded',
    },
    ('CannotComputeTask', 'reason'): {
        'CannotTakeWork': 'CannotTakeWork',
        'WrongCTD': 'WrongCTD',
        'WrongKey': 'WrongKey',
        'WrongAddress': 'WrongAddress',
        'WrongEnvironment': 'WrongEnvironment',
        'NoSourceCode': 'NoSourceCode',
        'WrongDockerImages': 'WrongDockerImages',
        'ConcentRequired': 'ConcentRequired',
        'ConcentDisabled': 'ConcentDisabled',
        'InsufficientBalance': 'InsufficientBalance',
        'InsufficientDeposit': 'InsufficientDeposit',
        'TooShortDeposit': 'TooShortDeposit',
        'PromissoryNoteMissing': 'PromissoryNoteMissing',
        'OfferCancelled': 'OfferCancelled',
        'ResourcesTooBig': 'ResourcesTooBig',
    },
    ('RejectReportComputedTask', 'reason'): {
        'SubtaskTimeLimitExceeded': 'SubtaskTimeLimitExceeded',
        'GotMessageCannotComputeTask': 'GotMessageCannotComputeTask',
        'GotMessageTaskFailure': 'GotMessageTaskFailure',
    },
    ('ServiceRefused', 'reason'): {
        'TooSmallCommunicationPayment': 'TOO_SMALL_COMMUNICATION_PAYMENT',
        'TooSmallRequestorDeposit': 'TOO_SMALL_REQUESTOR_DEPOSIT',
        'TooSmallProviderDeposit': 'TOO_SMALL_PROVIDER_DEPOSIT',
        'SystemOverloaded': 'SYSTEM_OVERLOADED',
        'DuplicateRequest': 'DUPLICATE_REQUEST',
        'InvalidRequest': 'REQUEST_FORMAT_OR_CONTENT_INVALID',
        'ConcentDisabled': 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK',
        'UnsupportedProtocolVersion': 'UNSUPPORTED_PROTOCOL_VERSION',
        'PriceNotPositive': 'PRICE_NOT_POSITIVE',
    },
    ('FileTransferToken', 'operation'): {
        'upload': 'upload',
        'download': 'download',
    },
    ('SubtaskResultsSettled', 'origin'): {
        'ResultsAcceptedTimeout': 'results_accepted_timeout',
        'ResultsRejected': 'results_rejected',
    },
    ('ForceGetTaskResultRejected', 'reason'): {
        'AcceptanceTimeLimitExceeded': 'acceptance_time_limit_exceeded',
    },
    ('ForceSubtaskResultsRejected', 'reason'): {
        'RequestPremature': 'premature: still within the verification timeout',
        'RequestTooLate': 'too late: past the forced communication timeout',
    },
    ('ForcePaymentCommitted', 'recipient_type'): {
        'Requestor': 'requestor',
        'Provider': 'provider',
    },
    ('ForcePaymentRejected', 'reason'): {
        'NoUnsettledTasksFound': 'no unsettled tasks found',
        'TimestampError': 'timestamp error - subtasks are not overdue yet',
    },
    ('ForceReportComputedTaskResponse', 'reason'): {
        'AckFromRequestor': 'ack_from_requestor',
        'RejectFromRequestor': 'reject_from_requestor',
        'SubtaskTimeout': 'subtask_timeout',
        'ConcentAck': 'concent_ack',
    },
}
PLAIN = [k for k in SENT if k not in ('tag1', 'tag35')]
REQUIRED = [('SubtaskResultsRejected', 'reason')]
DEFAULT = {('TaskFailure', 'reason'): 'ComputationError'}
PARAMS = {'%s.%s' % k: {'name': k[0], 'slot': k[1]} for k in sorted(MEMBERS)}


def enum_in(cls):
    for k in vars(cls).values():
        if isinstance(k, type) and issubclass(k, enum.Enum):
            yield k


@job('C34', reach=('done',), bounds='all registered types')
def declared(ctx):
    seen = set()
    for name, cls in CLASSES.items():
        slots = cls.ENUM_SLOTS
        if isinstance(slots, property):
            slots = cls().ENUM_SLOTS
        for slot, e in slots.items():
            ctx.require((name, slot) in MEMBERS, 'known field')
            want = MEMBERS[name, slot]
            ctx.require({m.name: m.value for m in e} == want,
                        'declared values')
            seen.add((name, slot))
    ctx.require(seen == set(MEMBERS), 'all enumerated fields')
    ctx.reach('done')


def proof(b, name):
    """The message needed to reject for a forced resources failure."""
    if name != 'SubtaskResultsRejected':
        return {}
    rct = b.message('m.rct', 'ReportComputedTask', nested=True)
    return {'report_computed_task': rct,
            'force_get_task_result_failed': b.message(
                'm.fgtrf', 'ForceGetTaskResultFailed', nested=True,
                task_to_compute=rct.task_to_compute)}


def tree_of(ctx, name, slot, value):
    b = Builder(ctx)
    m = b.valid('m', name, **proof(b, name))
    return [[k, value] if k == slot else [k, v] for k, v in m.slots()]


def is_member(ctx, got, name, slot, value):
    """got is the declared member with that value."""
    want = MEMBERS[name, slot]
    return isinstance(got, enum.Enum) and got.name in want and \
        want[got.name] == got.value and got.value == value


@job('C34', reach=('accepted', 'refused'), params=PARAMS,
     bounds='every declared value, every other text of up to 70 characters, '
            'the names and near misses of the declared values, values of '
            'every kind and none')
def received(ctx, name, slot):
    ctx.hash_ok = True
    want = MEMBERS[name, slot]
    values = sorted(want.values())
    kind = ctx.pick('kind', ['member', 'near', 'text', 'any', 'missing'])
    good = False
    if kind == 'member':
        v = ctx.pick('v', values)
        good = True
    elif kind == 'near':
        v = ctx.pick('v', sorted({
            x for k, y in want.items() for x in (
                k, y.upper(), y + ' ', y[:-1], 'REASON.' + k,
                y.encode(), str(list(want).index(k)))
            if x not in values}, key=repr))
    elif kind == 'text':
        v = ctx.text('v', 0, 70)
        ctx.assume(ctx.all(*[v != x for x in values]))
    else:
        v = None if kind == 'missing' else ctx.any('v', SENT)
        good = v is None and (name, slot) not in REQUIRED
    tree = tree_of(ctx, name, slot, v)
    if kind == 'missing':
        tree = [x for x in tree if x[0] != slot]
    m, e = ctx.outcome(receive, frame(CLASSES[name], tree))
    if not good:
        ctx.require(isinstance(e, exceptions.MessageError), 'refused')
        ctx.reach('refused')
        return
    ctx.require(e is None, 'accepted')
    got = getattr(m, slot)
    v = DEFAULT.get((name, slot)) if v is None else v
    if v is None:
        ctx.require(got is None, 'unset')
    else:
        ctx.require(is_member(ctx, got, name, slot, v), 'the member')
    ctx.reach('accepted')


@job('C34', reach=('done',), params=PARAMS,
     bounds='every member, serialised and received, twice')
def travels(ctx, name, slot):
    b = Builder(ctx)
    cls = CLASSES[name]
    e = b.enum_of(cls, slot)
    member = ctx.pick('member', list(e) + (
        [None] if (name, slot) not in REQUIRED else []))
    m = b.valid('m', name, **dict(proof(b, name), **{slot: member}))
    want = member
    if member is None and (name, slot) in DEFAULT:
        want = e[DEFAULT[name, slot]]
    sent = dict(m.slots())[slot]
    ctx.require(sent is None if want is None else
                not isinstance(sent, enum.Enum) and sent == want.value,
                'travels as its value')
    r = receive(m.serialize())
    ctx.require(getattr(r, slot) is want, 'the same member')
    r.sig = None
    ctx.require(getattr(receive(r.serialize()), slot) is want,
                'the same member again')
    ctx.reach('done')


NESTED = {
    'SubtaskResultsVerify.subtask_results_rejected':
        ('SubtaskResultsVerify', 'subtask_results_rejected', 'reason'),
    'RejectReportComputedTask.task_failure':
        ('RejectReportComputedTask', 'task_failure', 'reason'),
    'RejectReportComputedTask.cannot_compute_task':
        ('RejectReportComputedTask', 'cannot_compute_task', 'reason'),
    'ForceGetTaskResultUpload.file_transfer_token':
        ('ForceGetTaskResultUpload', 'file_transfer_token', 'operation'),
}


@job('C34', reach=('accepted', 'refused'),
     params={k: {'where': v} for k, v in NESTED.items()},
     bounds='the same for fields of some nested messages')
def nested(ctx, where):
    ctx.hash_ok = True
    outer, at, slot = where
    b = Builder(ctx)
    name = build.nested(CLASSES[outer])[at].cls.__name__
    values = sorted(MEMBERS[name, slot].values())
    inner = b.valid('i', name)
    m = b.valid('m', outer, **{at: inner})
    inner.sig = ctx.blob('sig', 65, 65)
    kind = ctx.pick('kind', ['member', 'text', 'any'])
    if kind == 'member':
        v = ctx.pick('v', values)
    elif kind == 'text':
        v = ctx.text('v', 0, 70)
        ctx.assume(ctx.all(*[v != x for x in values]))
    else:
        v = ctx.any('v', ('none', 'int', 'bytes', 'list', 'dict0'))
    tree = [list(x) for x in m.slots()]
    for x in tree:
        if x[0] == at:
            header, sig, slots = x[1][1]
            x[1] = [False, [header, sig, [
                [k, v] if k == slot else [k, y] for k, y in slots]]]
    got, e = ctx.outcome(receive, frame(CLASSES[outer], tree))
    if kind != 'member' and v is not None:
        ctx.require(isinstance(e, exceptions.MessageError), 'refused')
        ctx.reach('refused')
        return
    ctx.require(e is None, 'accepted')
    got = getattr(getattr(got, at), slot)
    v = DEFAULT.get((name, slot)) if v is None else v
    ctx.require(got is None if v is None else
                is_member(ctx, got, name, slot, v), 'the member or unset')
    ctx.reach('accepted')


# -- C35 -------------------------------------------------------------------------

def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def received_with(ctx, name, slot, v, missing=False):
    b = Builder(ctx)
    tree = [[k, x] for k, x in b.valid('m', name).slots()]
    tree = [[k, v] if k == slot else [k, x] for k, x in tree
            if not (missing and k == slot)]
    return ctx.outcome(receive, frame(CLASSES[name], tree))


def wrong(ctx, e, slot):
    ctx.require(isinstance(e, exceptions.MessageError), 'a message error')
    if isinstance(e, exceptions.FieldError):
        ctx.require(e.field == slot, 'names the field')
    ctx.reach('refused')


@job('C35', reach=('accepted', 'refused'),
     bounds='every integer, values of every kind, none')
def cpu_usage(ctx):
    ctx.hash_ok = True
    v = ctx.int('v') if ctx.flag('int') else ctx.any('v', SENT)
    m, e = received_with(ctx, 'WantToComputeTask', 'cpu_usage', v)
    good = v is None or (is_int(v) and v >= 0)
    if e is not None:
        ctx.require(ctx.no(good), 'refused when wrong')
        return wrong(ctx, e, 'cpu_usage')
    ctx.require(good, 'accepted when right')
    ctx.require(ctx.same(m.cpu_usage, v), 'held')
    return ctx.reach('accepted')


@job('C35', reach=('accepted', 'refused', 'default'),
     bounds='every integer, values of every kind, none, left out')
def num_subtasks(ctx):
    ctx.hash_ok = True
    how = ctx.pick('how', ['int', 'any', 'missing', 'made'])
    if how == 'made':
        m = tasks.WantToComputeTask() if ctx.flag('bare') else \
            tasks.WantToComputeTask(price=1)
        ctx.require(ctx.same(m.num_subtasks, 1), 'one when unset')
        return ctx.reach('default')
    v = ctx.int('v') if how == 'int' else ctx.any('v', SENT)
    m, e = received_with(ctx, 'WantToComputeTask', 'num_subtasks', v,
                         how == 'missing')
    if how == 'missing':
        ctx.require(e is None and ctx.same(m.num_subtasks, 1),
                    'one when not stated')
        return ctx.reach('default')
    good = is_int(v) and v >= 1
    if e is not None:
        ctx.require(ctx.no(good), 'refused when wrong')
        return wrong(ctx, e, 'num_subtasks')
    ctx.require(good, 'accepted when right')
    ctx.require(ctx.same(m.num_subtasks, v), 'held')
    return ctx.reach('accepted')


@job('C35', reach=('accepted', 'refused', 'default'),
     params={'price': {'slot': 'price'}, 'size': {'slot': 'size'}},
     bounds='every integer, values of every kind, none, left out')
def assignment(ctx, slot):
    ctx.hash_ok = True
    how = ctx.pick('how', ['int', 'any', 'missing'])
    v = ctx.int('v') if how == 'int' else ctx.any('v', SENT)
    m, e = received_with(ctx, 'TaskToCompute', slot, v, how == 'missing')
    if how == 'missing':
        ctx.require(e is None and getattr(m, slot) is None, 'unset')
        return ctx.reach('default')
    if e is not None:
        ctx.require(not is_int(v), 'refused when wrong')
        return wrong(ctx, e, slot)
    ctx.require(is_int(v), 'accepted when right')
    ctx.require(ctx.same(getattr(m, slot), v), 'held')
    return ctx.reach('accepted')


@job('C35', reach=('made', 'received'),
     params={'offer': {'name': 'WantToComputeTask'},
             'assignment': {'name': 'TaskToCompute'}},
     bounds='every kind of value, none, left out')
def concent_enabled(ctx, name):
    ctx.hash_ok = True
    if ctx.flag('made'):
        v = ctx.any('v', PLAIN)
        how = ctx.pick('how', ['keyword', 'slots', 'unset'])
        m = CLASSES[name](concent_enabled=v) if how == 'keyword' else \
            CLASSES[name]() if how == 'unset' else \
            CLASSES[name](slots=[['concent_enabled', v]])\
            if name != 'TaskToCompute' else CLASSES[name](concent_enabled=v)
        if how == 'unset':
            v = None
        ctx.require(isinstance(m.concent_enabled, bool), 'a boolean')
        ctx.require(ctx.iff(m.concent_enabled, bool(v)), 'as given')
        return ctx.reach('made')
    missing = ctx.flag('missing')
    v = ctx.any('v', PLAIN)
    m, e = received_with(ctx, name, 'concent_enabled', v, missing)
    ctx.require(e is None, 'accepted')
    ctx.require(isinstance(m.concent_enabled, bool), 'a boolean')
    ctx.require(ctx.iff(m.concent_enabled, False if missing else bool(v)),
                'as sent')
    return ctx.reach('received')


LISTS = {'Peers': 'peers', 'Tasks': 'tasks',
         'ResourcePeers': 'resource_peers', 'Gossip': 'gossip'}


@job('C35', reach=('empty', 'refused', 'listed'),
     params={k: {'name': k, 'slot': v} for k, v in LISTS.items()
             if v in ('peers', 'tasks')},
     bounds='every kind of value, unset, left out')
def checked_lists(ctx, name, slot):
    lists(ctx, name, slot)


@job('C35', reach=('empty', 'listed'),
     params={k: {'name': k, 'slot': v} for k, v in LISTS.items()
             if v not in ('peers', 'tasks')},
     bounds='lists with any kinds of values, unset, left out')
def free_lists(ctx, name, slot):
    lists(ctx, name, slot)


def lists(ctx, name, slot):
    ctx.hash_ok = True
    cls = CLASSES[name]
    how = ctx.pick('how', ['made', 'none', 'missing', 'sent', 'fresh',
                           'full'])
    if how in ('made', 'none', 'fresh'):
        m = cls(**{slot: None}) if how == 'none' else cls()
        ctx.require(isinstance(getattr(m, slot), list) and
                    not getattr(m, slot), 'an empty list')
        if how == 'fresh':
            getattr(m, slot).append(ctx.int('x'))
            ctx.require(not getattr(cls(), slot), 'its own list')
        return ctx.reach('empty')
    if how == 'full':
        b = Builder(ctx)
        m = b.valid('m', name)
        n = len(getattr(m, slot))
        r = receive(m.serialize())
        ctx.require(isinstance(getattr(r, slot), list), 'a list')
        ctx.require(len(getattr(r, slot)) == n, 'all of it')
        return ctx.reach('listed')
    v = None if how == 'missing' else ctx.any('v', PLAIN)
    tree = [] if how == 'missing' else [[slot, v]]
    m, e = ctx.outcome(receive, frame(cls, tree))
    checked = slot in ('peers', 'tasks')
    if how == 'missing' or (isinstance(v, list) and not v) or \
            (v is None and not checked):
        ctx.require(e is None, 'accepted')
        ctx.require(isinstance(getattr(m, slot), list) and
                    not getattr(m, slot), 'an empty list')
        return ctx.reach('empty')
    if e is not None:
        ctx.require(isinstance(e, exceptions.MessageError), 'message error')
        ctx.require(checked, 'refused when wrong')
        return ctx.reach('refused')
    if checked or isinstance(v, list):
        ctx.require(isinstance(getattr(m, slot), list), 'a list')
        ctx.require(len(getattr(m, slot)) == len(v), 'all of it')
        ctx.require(isinstance(v, list), 'accepted when a list')
        return ctx.reach('listed')
    return None


@job('C35', reach=('done',), bounds='all reasons, unset, left out')
def failure_reason(ctx):
    b = Builder(ctx)
    reasons = tasks.TaskFailure.REASON
    want = ctx.pick('want', [None] + list(reasons))
    how = ctx.pick('how', ['made', 'sent', 'missing', 'keyword', 'bare'])
    if how == 'bare':
        m = tasks.TaskFailure()
        want = None
    elif how == 'keyword':
        m = tasks.TaskFailure(reason=want)
    else:
        m = b.valid('m', 'TaskFailure', reason=want)
        if how != 'made':
            tree = [list(x) for x in m.slots()]
            for x in tree:
                if x[0] == 'reason':
                    x[1] = want.value if want is not None else None
            if how == 'missing':
                tree = [x for x in tree if x[0] != 'reason']
                want = None
            m = receive(frame(tasks.TaskFailure, tree))
    ctx.require(m.reason is (want or reasons.ComputationError),
                'the reason or computation error')
    ctx.reach('done')
