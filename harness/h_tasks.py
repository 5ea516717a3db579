"""C11-C18: what task messages promise about tasks, parties and payments."""
import copy

from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import utils
from golem_messages.datastructures import promissory
from golem_messages.message import concents, tasks
from golem_messages.register import library

from sx.api import job

from .build import Builder, CLASSES, Party, TASK_CLASSES, same_message
from .h_hostile import frame, receive

# who signs what: Provider, Requestor, Concent
OWNERS = {
    'TaskToCompute': 'R',
    'ReportComputedTask': 'P',
    'SubtaskResultsAccepted': 'R',
    'SubtaskResultsRejected': 'RC',
    'TaskFailure': 'P',
    'CannotComputeTask': 'P',
    'AckReportComputedTask': 'RC',
    'RejectReportComputedTask': 'RC',
    'ServiceRefused': 'C',
    'ForceReportComputedTask': 'PC',
    'VerdictReportComputedTask': 'C',
    'SubtaskResultsVerify': 'P',
    'AckSubtaskResultsVerify': 'C',
    'SubtaskResultsSettled': 'C',
    'ForceGetTaskResult': 'R',
    'AckForceGetTaskResult': 'C',
    'ForceGetTaskResultFailed': 'C',
    'ForceGetTaskResultRejected': 'C',
    'ForceGetTaskResultUpload': 'C',
    'ForceGetTaskResultDownload': 'C',
    'ForceSubtaskResults': 'PC',
    'ForceSubtaskResultsResponse': 'C',
    'ForceSubtaskResultsRejected': 'C',
    'ForceReportComputedTaskResponse': 'C',
}

# task messages in the slots of each, of which those in brackets can be left
# out but for one; the first present leads to the assignment of the message
PARTS = {
    'TaskToCompute': (),
    'ReportComputedTask': ('task_to_compute',),
    'SubtaskResultsAccepted': ('report_computed_task',),
    'SubtaskResultsRejected': ('report_computed_task',
                               '?force_get_task_result_failed'),
    'TaskFailure': ('task_to_compute',),
    'CannotComputeTask': ('task_to_compute',),
    'AckReportComputedTask': ('report_computed_task',),
    'RejectReportComputedTask': ('?attached_task_to_compute',
                                 '?task_failure', '?cannot_compute_task'),
    'ServiceRefused': ('task_to_compute',),
    'ForceReportComputedTask': ('report_computed_task',),
    'VerdictReportComputedTask': ('force_report_computed_task',
                                  'ack_report_computed_task'),
    'SubtaskResultsVerify': ('subtask_results_rejected',),
    'AckSubtaskResultsVerify': ('subtask_results_verify',),
    'SubtaskResultsSettled': ('task_to_compute',),
    'ForceGetTaskResult': ('report_computed_task',),
    'AckForceGetTaskResult': ('force_get_task_result',),
    'ForceGetTaskResultFailed': ('task_to_compute',),
    'ForceGetTaskResultRejected': ('force_get_task_result',),
    'ForceGetTaskResultUpload': ('force_get_task_result',),
    'ForceGetTaskResultDownload': ('force_get_task_result',),
    'ForceSubtaskResults': ('ack_report_computed_task',),
    'ForceSubtaskResultsResponse': ('?subtask_results_accepted',
                                    '?subtask_results_rejected'),
    'ForceSubtaskResultsRejected': ('force_subtask_results',),
    'ForceReportComputedTaskResponse': ('?ack_report_computed_task',
                                        '?reject_report_computed_task'),
}

EACH = {k: {'name': k} for k in sorted(TASK_CLASSES)}


def class_of(m):
    return type(m).__name__


def drop_parts(ctx, m, path='m'):
    """Leaves out some of the optional parts, at every level."""
    parts = PARTS[class_of(m)]
    free = [p[1:] for p in parts if p[0] == '?']
    if len(free) == 1:
        subsets = [(), tuple(free)]
    else:
        subsets = [s for s in subsets_of(free) if s]
        if path != 'm' and not ctx.thorough:
            subsets = [s for s in subsets if len(s) == 1]
    if free:
        keep = ctx.pick(path + '.parts', subsets)
        for p in free:
            if p not in keep:
                setattr(m, p, None)
    for p in parts_of(m):
        drop_parts(ctx, getattr(m, p), path + '.' + p)


def subsets_of(items):
    out = [()]
    for x in items:
        out += [s + (x,) for s in out]
    return out


def parts_of(m):
    """Slots of m with a task message in them, in order."""
    return [p.strip('?') for p in PARTS[class_of(m)]
            if getattr(m, p.strip('?')) is not None]


def assignment_of(m):
    while class_of(m) != 'TaskToCompute':
        m = getattr(m, parts_of(m)[0])
    return m


def chain(m):
    """Task messages in m and m itself, innermost first."""
    out = []
    for p in parts_of(m):
        for x in chain(getattr(m, p)):
            if not any(x is y for y in out):
                out.append(x)
    return out + [m]


def assignments(m):
    return [x for x in chain(m) if class_of(x) == 'TaskToCompute']


def name_parties(ctx, ttc, i, named):
    """Gives an assignment parties of its own."""
    named[id(ttc)] = (Party(ctx, 'provider%d' % i),
                      Party(ctx, 'requestor%d' % i))
    p, r = named[id(ttc)]
    ttc.provider_id = p.hex
    ttc.want_to_compute_task.provider_public_key = p.hex
    ttc.requestor_id = r.hex
    ttc.requestor_public_key = r.hex


class Signed:
    """A chain signed from the inside out; by symbolic signers unless good.

    Every assignment names parties of its own, unless one.
    """

    def __init__(self, ctx, name, one=False, good=False, tamper=False):
        self.ctx = ctx
        b = Builder(ctx)
        over = {}
        if one and name == 'SubtaskResultsRejected':
            rct = b.message('m.rct', 'ReportComputedTask', nested=True)
            over = dict(
                report_computed_task=rct,
                force_get_task_result_failed=b.message(
                    'm.fgtrf', 'ForceGetTaskResultFailed', nested=True,
                    task_to_compute=rct.task_to_compute))
        self.m = m = b.valid('m', name, **over)
        drop_parts(ctx, m)
        self.concent = Party(ctx, 'concent')
        self.named = named = {}
        for i, t in enumerate(assignments(m)):
            if one:
                named[id(t)] = b.party('provider'), b.party('requestor')
            else:
                name_parties(ctx, t, i, named)
        self.ok = []
        self.by = {}
        links = chain(m)
        last = tamper and ctx.flag('last owner')
        bad = ctx.pick('tampered', range(len(links))) if tamper else None
        for i, x in enumerate(links):
            p, r = named[id(assignment_of(x))]
            if class_of(x) == 'TaskToCompute':
                h = x.want_to_compute_task.task_header
                s = r if good else Party(ctx, 'offer_signer%d' % i)
                h.sign(s.secret)
                x.generate_ethsig(b.party('requestor_eth').secret)
                self.ok.append(ctx.same(s.public, r.public))
            allowed = [{'P': p, 'R': r, 'C': self.concent}[o]
                       for o in OWNERS[class_of(x)]]
            if not good:
                s = Party(ctx, 'signer%d' % i)
            elif tamper and not ctx.thorough:
                s = allowed[-1 if last else 0]
            else:
                s = ctx.pick('owner%d' % i, allowed)
            x.sig = None
            self.by[id(x)] = s
            if i == bad:
                self.ok.append(self.tampered(x, s, len(links)))
                continue
            x.sign_message(s.secret)
            self.ok.append(ctx.either(*[ctx.same(s.public, o.public)
                                        for o in allowed]))

    def tampered(self, x, signer, n):
        """Signs something else first; whether that was the same."""
        ctx = self.ctx
        how = ctx.pick('how', ['time', 'garbage', 'none', 'content'])
        if how == 'time':
            other = ctx.int('other.ts', 0, (1 << 64) - 1)
            h = x.header
            same = ctx.same(h.timestamp, other)
            x.header = datastructures.MessageHeader(
                h.type_, other, h.encrypted)
            x.sign_message(signer.secret)
            x.header = h
            return same
        if how == 'garbage':
            x.sig = b'\1' * 65
            return False
        if how == 'none':
            x.sig = ctx.pick('empty', [b'\0' * 65, b'', b's' * 64])
            return False
        part = parts_of(x)
        if part:
            y = getattr(x, part[-1])
            same_sig = self.ctx.blob('other.sig', 65, 65)
            same = ctx.same(y.sig, same_sig)
            keep, y.sig = y.sig, same_sig
            x.sign_message(signer.secret)
            y.sig = keep
        else:
            keep = x.package_hash
            x.package_hash = ctx.text('other.hash', 0, 40)
            same = ctx.same(keep, x.package_hash)
            x.sign_message(signer.secret)
            x.package_hash = keep
        return same

    def all_good(self):
        return self.ctx.all(*self.ok)

    def good_with(self, concent):
        """Whether it would be right, were that the Concent."""
        ctx = self.ctx
        good = []
        for x in chain(self.m):
            p, r = self.named[id(assignment_of(x))]
            good.append(ctx.either(*[
                ctx.same(self.by[id(x)].public,
                         {'P': p, 'R': r, 'C': concent}[o].public)
                for o in OWNERS[class_of(x)]]))
        return ctx.all(*good)


# -- C11 ---------------------------------------------------------------------

@job('C11', reach=('done',), bounds='the table of owners covers all types')
def owners(ctx):
    ctx.require(set(OWNERS) == set(TASK_CLASSES), 'every task message')
    ctx.require(set(PARTS) == set(TASK_CLASSES), 'its parts')
    ctx.reach('done')


@job('C11', reach=('valid', 'refused'),
     bounds='every task message type, with every choice of its optional '
            'parts (inside other messages one of them at a time, in the '
            'quick tier); any signers at every level (also of the offers), any parties named by each assignment, any Concent; '
            'opaque contents',
     params=EACH, weight=2)
def ownership(ctx, name):
    s = Signed(ctx, name)
    r, e = ctx.outcome(s.m.validate_ownership_chain, s.concent.public)
    if e is None:
        ctx.require(r is True, 'true')
        ctx.require(s.all_good(), 'accepted only when signed by the right')
        ctx.reach('valid')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(s.all_good()),
                    'refused only when signed by the wrong')
        ctx.reach('refused')


@job('C11', reach=('refused',),
     bounds='chains signed by any of the right parties but for one message '
            'at any level, whose signature was made over another time or '
            'content, or is garbage, empty or too short',
     params=EACH, weight=2)
def tampered(ctx, name):
    s = Signed(ctx, name, good=True, tamper=True)
    r, e = ctx.outcome(s.m.validate_ownership_chain, s.concent.public)
    if e is None:
        ctx.require(s.all_good(), 'accepted only if nothing changed')
        ctx.reach('valid')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(s.all_good()), 'refused only if changed')
        ctx.reach('refused')


@job('C11', reach=('valid', 'refused'),
     bounds='every task message type on its own: any signer of it, its '
            'nested messages unsigned',
     params=EACH)
def single(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    drop_parts(ctx, m)
    t = assignment_of(m)
    named = {}
    name_parties(ctx, t, 0, named)
    p, r = named[id(t)]
    c = Party(ctx, 'concent')
    offer_ok = True
    if m is t:
        o = Party(ctx, 'offer_signer')
        t.want_to_compute_task.task_header.sign(o.secret)
        offer_ok = ctx.same(o.public, r.public)
    allowed = [{'P': p, 'R': r, 'C': c}[o] for o in OWNERS[name]]
    k = Party(ctx, 'signer')
    m.sign_message(k.secret)
    good = ctx.all(offer_ok, ctx.either(*[
        ctx.same(k.public, o.public) for o in allowed]))
    v, e = ctx.outcome(m.validate_ownership, c.public)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'accepted only from the right party')
        ctx.reach('valid')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(good), 'refused only from the wrong party')
        ctx.reach('refused')


@job('C11', reach=('valid', 'refused'),
     bounds='an assignment signed by the requestor, on its own and in a '
            'report, whose offer has no signature, garbage for one, or one '
            'made for any other price or by any signer')
def offers(ctx):
    b = Builder(ctx)
    m = b.valid('m', 'ReportComputedTask')
    t = m.task_to_compute
    p, r = b.party('provider'), b.party('requestor')
    h = t.want_to_compute_task.task_header
    how = ctx.pick('how', ['none', 'empty', 'garbage', 'price', 'signer'])
    good = False
    if how == 'none':
        h.signature = None
    elif how == 'empty':
        h.signature = ctx.pick('sig', [b'', b'\0', b'\0' * 65, b's' * 64])
    elif how == 'garbage':
        h.signature = b'\1' * 65
    elif how == 'price':
        keep = h.max_price
        h.max_price = ctx.int('other.price')
        good = ctx.same(keep, h.max_price)
        h.sign(r.secret)
        h.max_price = keep
    else:
        s = Party(ctx, 'signer')
        h.sign(s.secret)
        good = ctx.same(s.public, r.public)
    t.generate_ethsig(b.party('requestor_eth').secret)
    t.sig = m.sig = None
    t.sign_message(r.secret)
    m.sign_message(p.secret)
    if ctx.flag('alone'):
        v, e = ctx.outcome(ctx.pick('call', [
            t.validate_ownership, t.validate_ownership_chain]))
    else:
        v, e = ctx.outcome(m.validate_ownership_chain)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'accepted only with a signed offer')
        ctx.reach('valid')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(good), 'refused only without')
        ctx.reach('refused')


@job('C11', reach=('valid',),
     bounds='chains signed by any of the right parties, received from the '
            'wire; Concent key left out where no Concent signature is',
     params=EACH, weight=2)
def relayed(ctx, name):
    s = Signed(ctx, name, one=True, good=True)
    r = receive(s.m.serialize())
    v, e = ctx.outcome(r.validate_ownership_chain, s.concent.public)
    ctx.require(e is None and v is True, 'still valid')
    if all('C' not in OWNERS[class_of(x)] for x in chain(s.m)):
        v, e = ctx.outcome(r.validate_ownership_chain)
        ctx.require(e is None and v is True, 'no Concent needed')
    ctx.reach('valid')


# -- C12 ---------------------------------------------------------------------

@job('C12', reach=('verified', 'mismatch', 'signature'),
     bounds='every task message type; any provider and requestor keys given '
            'or not; chains signed by the right parties or with any signer '
            'of one message',
     params=EACH, weight=2)
def verify_owners(ctx, name):
    s = Signed(ctx, name, good=True)
    good = True
    p, r = s.named[id(assignment_of(s.m))]
    if ctx.flag('resigned'):
        k = Party(ctx, 'signer')
        s.m.sig = None
        s.m.sign_message(k.secret)
        good = ctx.either(*[
            ctx.same(k.public, {'P': p, 'R': r, 'C': s.concent}[o].public)
            for o in OWNERS[name]])
    args = {}
    match = []
    if ctx.flag('provider given'):
        k = Party(ctx, 'given_provider')
        args['provider_public_key'] = k.public
        match.append(ctx.same(k.public, p.public))
    if ctx.flag('requestor given'):
        k = Party(ctx, 'given_requestor')
        args['requestor_public_key'] = k.public
        match.append(ctx.same(k.public, r.public))
    match = ctx.all(*match)
    v, e = ctx.outcome(s.m.verify_owners,
                       concent_public_key=s.concent.public, **args)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(match, 'the keys are those named')
        ctx.require(good, 'and the signatures right')
        ctx.reach('verified')
    elif isinstance(e, exceptions.OwnershipMismatch):
        ctx.require(ctx.no(match), 'mismatch only if the keys differ')
        ctx.reach('mismatch')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(match, 'mismatch comes first')
        ctx.require(ctx.no(good), 'only when the signature is wrong')
        ctx.reach('signature')


@job('C12', reach=('verified', 'signature'),
     bounds='every task message type: the named keys given, any signers at '
            'every level', params=EACH, weight=2)
def roles_and_signatures(ctx, name):
    s = Signed(ctx, name)
    p, r = s.named[id(assignment_of(s.m))]
    v, e = ctx.outcome(
        s.m.verify_owners, p.public, r.public, s.concent.public)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(s.all_good(), 'all signatures right')
        ctx.reach('verified')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(s.all_good()), 'some signature wrong')
        ctx.reach('signature')


# -- C13 ---------------------------------------------------------------------

def check_ids(ctx, m, t, how=''):
    d = t.compute_task_def
    ctx.require(ctx.same(m.task_id, d['task_id']), how + 'task id')
    ctx.require(ctx.same(m.subtask_id, d['subtask_id']), how + 'subtask id')
    ctx.require(ctx.same(m.provider_id, t.provider_id), how + 'provider id')
    ctx.require(ctx.same(m.requestor_id, t.requestor_id),
                how + 'requestor id')
    ctx.require(same_message(ctx, m.task_to_compute, t), how + 'assignment')


@job('C13', reach=('done',),
     bounds='every task message type with every choice of its optional '
            'parts; any ids; also received from the wire, at every level',
     params=EACH, weight=2)
def ids(ctx, name):
    b = Builder(ctx)
    t = b.message('ttc', 'TaskToCompute', nested=name != 'TaskToCompute')
    b.over = {
        (c, slot): (lambda _name: t)
        for c, slots in PARTS.items() for slot in slots
        for slot in [slot.strip('?')]
        if slot in ('task_to_compute', 'attached_task_to_compute')}
    m = t if name == 'TaskToCompute' else b.message('m', name)
    drop_parts(ctx, m)
    check_ids(ctx, m, t)
    ctx.require(m.task_to_compute is t, 'the assignment itself')
    for x in chain(m):
        check_ids(ctx, x, t, 'inside: ')
    r = receive(m.serialize())
    check_ids(ctx, r, t, 'received: ')
    for x in chain(r):
        check_ids(ctx, x, t, 'received, inside: ')
    ctx.reach('done')


@job('C13', reach=('done',),
     bounds='every task message type without any nested message',
     params={k: v for k, v in EACH.items() if k != 'TaskToCompute'})
def no_ids(ctx, name):
    m = CLASSES[name]()
    for attr in ('task_id', 'subtask_id', 'provider_id', 'requestor_id',
                 'task_to_compute'):
        v, e = ctx.outcome(getattr, m, attr)
        ctx.require(e is None and v is None, 'no ' + attr)
    t = tasks.TaskToCompute(
        requestor_id=ctx.text('requestor', 1, 9),
        provider_id=ctx.text('provider', 1, 9),
        compute_task_def=ctx.pick('def', [
            None, tasks.ComputeTaskDef(), tasks.ComputeTaskDef(
                {'task_id': ctx.text('task', 1, 9)})]))
    x = tasks.ReportComputedTask(task_to_compute=t)
    for y in (t, x):
        ctx.require(not y.subtask_id, 'no subtask id')
        d = t.compute_task_def
        ctx.require(ctx.same(y.task_id or None,
                             (d and d['task_id']) or None), 'its task id')
        ctx.require(ctx.same(y.requestor_id, t.requestor_id), 'requestor')
        ctx.require(ctx.same(y.provider_id, t.provider_id), 'provider')
        ctx.require(y.task_to_compute is t, 'assignment')
    ctx.reach('done')


# -- C14 ---------------------------------------------------------------------

@job('C14', reach=('valid', 'refused'),
     bounds='any timestamp up to 2^52 and any payment time within 2^52')
def payment_time(ctx):
    ts = ctx.int('ts', 0, 1 << 52)
    paid = ctx.int('paid', -(1 << 52), 1 << 52)
    m = tasks.SubtaskResultsAccepted(
        header=datastructures.MessageHeader(
            library.get_type(tasks.SubtaskResultsAccepted), ts, False),
        payment_ts=paid)
    good = ctx.all(paid <= ts, ts - paid <= 15 * 60)
    v, e = ctx.outcome(m.is_valid)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'valid only when in the window')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only outside')
        ctx.reach('refused')


@job('C14', reach=('valid', 'refused'),
     bounds='received acceptances, signed or not, of any payment time '
            'within 2^52', weight=2)
def payment_time_received(ctx):
    b = Builder(ctx)
    paid = ctx.int('paid', -(1 << 52), 1 << 52)
    m = b.message('m', 'SubtaskResultsAccepted', payment_ts=paid)
    k = Party(ctx, 'k')
    signed = ctx.flag('signed')
    data = m.serialize(k.secret if signed else None)
    r, e = ctx.outcome(receive, data, k.public if signed else None)
    good = ctx.all(paid <= m.timestamp, m.timestamp - paid <= 15 * 60)
    if e is None:
        ctx.require(good, 'accepted only when in the window')
        ctx.require(ctx.same(r.payment_ts, paid), 'as sent')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only outside')
        ctx.reach('refused')


# -- C15 ---------------------------------------------------------------------

REASON = tasks.SubtaskResultsRejected.REASON


def rejection(ctx):
    """(message, proof for the same subtask?)"""
    b = Builder(ctx)
    reason = ctx.pick('reason', [None] + list(REASON))
    rct = b.message('m.rct', 'ReportComputedTask', nested=True)
    kind = ctx.pick('proof', ['none', 'same', 'other'])
    proof, same = None, True
    if kind != 'none':
        proof = b.message('m.proof', 'ForceGetTaskResultFailed', nested=True)
        t, u = rct.task_to_compute, proof.task_to_compute
        if kind == 'same':
            u.compute_task_def = t.compute_task_def
        same = ctx.all(
            ctx.same(t.compute_task_def['task_id'],
                     u.compute_task_def['task_id']),
            ctx.same(t.compute_task_def['subtask_id'],
                     u.compute_task_def['subtask_id']))
    m = b.message('m', 'SubtaskResultsRejected', reason=reason,
                  report_computed_task=rct,
                  force_get_task_result_failed=proof)
    good = ctx.all(reason is not None, same, ctx.either(
        reason is not REASON.ForcedResourcesFailure, proof is not None))
    return m, good


@job('C15', reach=('valid', 'refused'),
     bounds='every reason or none; proof or none, of any task and subtask')
def rejected(ctx):
    m, good = rejection(ctx)
    v, e = ctx.outcome(m.is_valid)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'valid only by the rules')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only against the rules')
        ctx.reach('refused')


@job('C15', reach=('valid', 'refused'),
     bounds='the same, received from the wire', weight=2)
def rejected_received(ctx):
    m, good = rejection(ctx)
    r, e = ctx.outcome(receive, m.serialize())
    if e is None:
        ctx.require(good, 'accepted only by the rules')
        ctx.require(r.reason is m.reason, 'its reason')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only against the rules')
        ctx.reach('refused')


@job('C15', reach=('valid', 'refused'),
     bounds='the same with the Concent enabled for the task, or not, as '
            'any requestor sends it; as built and as received')
def rejected_by_requestor(ctx):
    m, good = rejection(ctx)
    concent = m.report_computed_task.task_to_compute.concent_enabled
    forced = m.reason is REASON.ForcedResourcesFailure
    plain = m.reason is REASON.ResourcesFailure
    good = ctx.all(good, ctx.either(
        m.reason is REASON.VerificationNegative,
        ctx.all(forced, concent), ctx.all(plain, ctx.no(concent))))
    if ctx.flag('received'):
        r, e = ctx.outcome(receive, m.serialize())
        if e is not None:
            return
        m = r
    v, e = ctx.outcome(m.is_valid_for_requestor)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'valid only by the rules')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only against the rules')
        ctx.reach('refused')


# -- C16 ---------------------------------------------------------------------

DIFFERENCES = ['none', 'ts', 'sig', 'price', 'size', 'package_hash',
               'resources_options', 'provider_id', 'concent_enabled',
               'promissory_note_sig', 'concent_promissory_note_sig',
               'requestor_public_key', 'def.deadline', 'def.performance',
               'wtct.ts', 'wtct.sig', 'wtct.perf_index',
               'wtct.provider_public_key', 'wtct.task_header.signature',
               'wtct.task_header.max_price', 'one unset', 'identity']


def differing(ctx, t, u, how):
    """Makes u differ from t in one place; whether it is still the same."""
    def times(x, y):
        a = ctx.int('a.ts', 0, (1 << 64) - 1)
        b = ctx.int('b.ts', 0, (1 << 64) - 1)
        for z, v in ((x, a), (y, b)):
            z.header = datastructures.MessageHeader(
                z.header.type_, v, z.header.encrypted)
        return ctx.same(a, b)

    def put(x, y, name, make):
        a, b = make('a'), make('b')
        setattr(x, name, a)
        setattr(y, name, b)
        return ctx.same(a, b)

    w, v = t.want_to_compute_task, u.want_to_compute_task
    if how == 'ts':
        return times(t, u)
    if how == 'wtct.ts':
        return times(w, v)
    if how in ('sig', 'wtct.sig'):
        x, y = (t, u) if how == 'sig' else (w, v)
        return put(x, y, 'sig', lambda n: ctx.blob(n, 65, 65))
    if how in ('price', 'size'):
        return put(t, u, how, ctx.int)
    if how == 'concent_enabled':
        return put(t, u, how, ctx.bool)
    if how.startswith('def.'):
        a, b = ctx.int('a'), ctx.int('b')
        d = dict(t.compute_task_def)
        t.compute_task_def = tasks.ComputeTaskDef(d, **{how[4:]: a})
        u.compute_task_def = tasks.ComputeTaskDef(d, **{how[4:]: b})
        return ctx.same(a, b)
    if how == 'wtct.task_header.signature':
        return put(w.task_header, v.task_header, 'signature',
                   lambda n: ctx.blob(n, 1, 65))
    if how == 'wtct.task_header.max_price':
        return put(w.task_header, v.task_header, 'max_price', ctx.int)
    if how == 'wtct.perf_index':
        return put(w, v, 'perf_index', ctx.int)
    if how == 'wtct.provider_public_key':
        return put(w, v, 'provider_public_key',
                   lambda n: ctx.text(n, 0, 9))
    if how == 'one unset':
        u.package_hash = None
        return False
    if how == 'promissory_note_sig' or how == 'concent_promissory_note_sig':
        return put(t, u, how, lambda n: [
            ctx.int(n + '.v'), ctx.blob(n + '.r', 32, 32), b's' * 32])
    return put(t, u, how, lambda n: ctx.text(n, 0, 9))


def twin(m):
    """The same message once more, as an object of its own."""
    d = {}
    for s in Builder.slots_of(None, type(m)):
        v = getattr(m, s)
        if s == 'want_to_compute_task':
            v = twin(v)
        elif s == 'task_header':
            v = type(v)(**v.to_dict())
        elif s == 'compute_task_def':
            v = type(v)(v)
        d[s] = v
    out = type(m)(header=m.header, **d)
    out.sig = m.sig
    return out


def verdict(ctx):
    b = Builder(ctx)
    t = b.message('t', 'TaskToCompute', nested=True)
    how = ctx.pick('difference', DIFFERENCES)
    u = t if how == 'identity' else twin(t)
    good = True if how in ('none', 'identity') else differing(ctx, t, u, how)
    if ctx.flag('swapped'):
        t, u = u, t
    m = b.message(
        'm', 'VerdictReportComputedTask',
        force_report_computed_task=b.message(
            'm.force', 'ForceReportComputedTask', nested=True,
            report_computed_task=b.message(
                'm.r1', 'ReportComputedTask', nested=True,
                task_to_compute=t)),
        ack_report_computed_task=b.message(
            'm.ack', 'AckReportComputedTask', nested=True,
            report_computed_task=b.message(
                'm.r2', 'ReportComputedTask', nested=True,
                task_to_compute=u)))
    return m, good


@job('C16', reach=('valid', 'refused'),
     bounds='two assignments that are equal or differ in any one of their '
            'fields (ids, prices, sizes, keys, notes, task definition, the '
            'offer and its header), timestamp or signature, by any values')
def same_assignment(ctx):
    m, good = verdict(ctx)
    v, e = ctx.outcome(m.is_valid)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'valid only when equal')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only when different')
        ctx.reach('refused')


@job('C16', reach=('valid', 'refused'),
     bounds='the same, received from the wire', weight=2)
def same_assignment_received(ctx):
    m, good = verdict(ctx)
    r, e = ctx.outcome(receive, m.serialize())
    if e is None:
        ctx.require(good, 'accepted only when equal')
        ctx.reach('valid')
    else:
        ctx.require(type(e) is exceptions.ValidationError, 'its error')
        ctx.require(ctx.no(good), 'refused only when different')
        ctx.reach('refused')


# -- C17 ---------------------------------------------------------------------

@job('C17', reach=('accepted', 'signature', 'field'),
     bounds='assignments of any announced Ethereum key, signed with any key '
            'over the offer before or after a change to it; task ids of any '
            'node; any requestor id',
     weight=2)
def assignment(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    w = m.want_to_compute_task
    signer = Party(ctx, 'eth_signer')
    how = ctx.pick('how', ['signed', 'then time', 'then price', 'then sig',
                           'opaque', 'own', 'header'])
    good = ctx.same(signer.public, b.party('requestor_eth').public)
    if how == 'opaque':
        m.ethsig = ctx.pick('ethsig', [b'\1' * 65, b'', b'x' * 64])
        good = False
    elif how == 'own':
        # over the assignment instead of the offer
        m.ethsig = None
        m.ethsig = m._get_signature(signer.secret)
        good = False
    else:
        if how == 'header':
            # (the encryption flag is no part of it)
            h = w.header
            w.header = datastructures.MessageHeader(
                h.type_, h.timestamp, True)
        m.generate_ethsig(signer.secret)
    if how == 'then time':
        h = w.header
        ts = ctx.int('later', 0, (1 << 64) - 1)
        good = ctx.all(good, ctx.same(ts, h.timestamp))
        w.header = datastructures.MessageHeader(h.type_, ts, False)
    elif how == 'then price':
        price = ctx.int('price')
        good = ctx.all(good, ctx.same(price, w.price))
        w.price = price
    elif how == 'then sig':
        # (the signature of the offer itself is no part of it)
        w.sig = ctx.blob('wsig', 65, 65)
    node = ctx.bytes('node', 6)
    number = int.from_bytes(node, 'big')
    which = ctx.pick('which id', ['none', 'task_id', 'subtask_id', 'text'])
    ids_ok = True
    if which == 'text':
        k = ctx.pick('key', ['task_id', 'subtask_id'])
        m.compute_task_def[k] = ctx.text('id', 0, 128)
        ids_ok = False
    elif which != 'none':
        m.compute_task_def[which] = ctx.uuid_text('id', number)
        ids_ok = ctx.same(number, b.party('requestor').node)
    if ctx.flag('other requestor'):
        rid = ctx.bytes('rid', 64)
        m.requestor_id = utils.encode_hex(rid)
        rnode = int.from_bytes(rid[:6], 'big')
        nodes = [b.party('requestor').node]
        if which in ('task_id', 'subtask_id'):
            nodes.append(number)
        if which != 'text':
            ids_ok = ctx.all(*[ctx.same(rnode, n) for n in nodes])
    r, e = ctx.outcome(receive, m.serialize())
    if e is None:
        ctx.require(good, 'accepted only with the right signature')
        ctx.require(ids_ok, 'and ids')
        ctx.reach('accepted')
    elif isinstance(e, exceptions.FieldError):
        ctx.require(ctx.no(ids_ok), 'field error only for ids')
        ctx.reach('field')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature),
                    'invalid signature')
        ctx.require(ctx.no(good), 'only with a wrong signature')
        ctx.reach('signature')


@job('C17', reach=('done', 'refused'),
     bounds='verify_ethsig as built and as received, with given hash or not; '
            'no Ethereum key')
def payment_key(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    w = m.want_to_compute_task
    signer = Party(ctx, 'eth_signer')
    h = ctx.pick('hash', [None, 'own', 'other'])
    digest = None
    right = True
    if h == 'own':
        digest = w.get_short_hash()
    elif h == 'other':
        digest = ctx.bytes('digest', 20)
        right = ctx.same(digest, w.get_short_hash())
    m.generate_ethsig(signer.secret, digest)
    good = ctx.all(right, ctx.same(
        signer.public, b.party('requestor_eth').public))
    v, e = ctx.outcome(m.verify_ethsig)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'verified')
        ctx.reach('done')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature), 'its error')
        ctx.require(ctx.no(good), 'refused')
        ctx.reach('refused')
    m.requestor_ethereum_public_key = ctx.pick('no key', [None, ''])
    _, e = ctx.outcome(m.generate_ethsig, signer.secret)
    ctx.require(isinstance(e, exceptions.FieldError),
                'no signature without a key')


# -- C18 ---------------------------------------------------------------------

def address(ctx, name):
    return utils.pubkey_to_address(Party(ctx, name).public)


def note_of(ctx, tag, payer):
    return dict(
        address_from=payer,
        address_to=address(ctx, tag + '.to'),
        amount=ctx.int(tag + '.amount', 0, (1 << 256) - 1),
        subtask_id=ctx.uuid_text(tag + '.subtask'),
        contract_address=address(ctx, tag + '.contract'))


@job('C18', reach=('valid', 'invalid'),
     bounds='any two notes (addresses of any keys, amounts of 256 bits, any '
            'subtask UUIDs), any signer')
def note(ctx):
    key = Party(ctx, 'signer')
    payer = address(ctx, 'payer')
    a = note_of(ctx, 'a', payer)
    b = dict(a)
    changed = ctx.pick('changed', [None] + sorted(a))
    if changed == 'address_from':
        b[changed] = address(ctx, 'other payer')
    elif changed is not None:
        b[changed] = note_of(ctx, 'b', payer)[changed]
    sig = promissory.PromissoryNote(**a).sign(key.secret)
    v = promissory.PromissoryNote(**b).sig_valid(
        ctx.pick('shape', [lambda s: s, tuple, list])(sig))
    good = ctx.all(
        ctx.same(utils.pubkey_to_address(key.public), b['address_from']),
        *[ctx.same(a[k], b[k]) for k in a])
    ctx.require(v is True or v is False, 'a boolean')
    ctx.require(ctx.iff(v, good), 'valid exactly when the payer signed '
                'the same terms')
    ctx.reach('valid' if v else 'invalid')


@job('C18', reach=('done',),
     bounds='missing and altered signatures')
def note_altered(ctx):
    key = Party(ctx, 'signer')
    payer = utils.pubkey_to_address(key.public)
    n = promissory.PromissoryNote(**note_of(ctx, 'a', payer))
    v, e = ctx.outcome(n.sig_valid, ctx.pick('none', [None, (), [], '']))
    ctx.require(e is None and v is False, 'missing is invalid')
    sig = n.sign(key.secret)
    how = ctx.pick('how', ['v', 'r', 's', 'swap', 'blob', 'range'])
    if how == 'v':
        bad = (55 - sig.v, sig.r, sig.s)
    elif how == 'r':
        bad = (sig.v, ctx.pick('r', [b'\0' * 32, b'\1' * 32]), sig.s)
    elif how == 's':
        bad = (sig.v, sig.r, ctx.pick('s', [b'\0' * 32, b'\1' * 32]))
    elif how == 'swap':
        bad = (sig.v, sig.s, sig.r)
    elif how == 'range':
        bad = (ctx.pick('v', [2, 26, 29, -1]), sig.r, sig.s)
    else:
        bad = (27, b'\xff' * 32, b'\xff' * 32)
    v, e = ctx.outcome(n.sig_valid, bad)
    ctx.require(e is not None or v is False, 'altered is not valid')
    ctx.reach('done')


@job('C18', reach=('valid', 'invalid'),
     bounds='assignments of any price, subtask, parties and contract; the '
            'note signed by any key with any one term changed')
def notes_of_assignment(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    payee = address(ctx, 'payee')
    m.want_to_compute_task.provider_ethereum_address = payee
    m.price = ctx.int('price', 0, (1 << 256) - 1)
    contract = address(ctx, 'contract')
    key = Party(ctx, 'signer')
    payer = utils.pubkey_to_address(m.requestor_ethereum_public_key)
    for kind, to in (('promissory_note', payee),
                     ('concent_promissory_note', contract)):
        terms = dict(address_from=payer, address_to=to, amount=m.price,
                     subtask_id=m.subtask_id, contract_address=contract)
        changed = ctx.pick(kind + ' changed', [None] + sorted(terms))
        good = ctx.same(utils.pubkey_to_address(key.public), payer)
        if changed is not None:
            other = note_of(ctx, kind, payer)
            if changed == 'address_from':
                other[changed] = address(ctx, kind + '.payer')
            good = ctx.all(good, ctx.same(other[changed], terms[changed]))
            terms[changed] = other[changed]
        sig = promissory.PromissoryNote(**terms).sign(key.secret)
        setattr(m, kind + '_sig', sig)
        v, e = ctx.outcome(getattr(m, 'verify_' + kind), contract)
        ctx.require(e is None, 'no error')
        ctx.require(ctx.iff(v, good), kind + ' valid exactly when so signed')
        ctx.reach('valid' if v else 'invalid')


@job('C18', reach=('done',),
     bounds='both notes signed or verified together: present, missing or '
            'signed by any key, also after the wire')
def all_notes(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    m.want_to_compute_task.provider_ethereum_address = address(ctx, 'payee')
    m.generate_ethsig(b.party('requestor_eth').secret)
    m.price = ctx.int('price', 0, (1 << 256) - 1)
    contract = address(ctx, 'contract')
    key = Party(ctx, 'signer')
    mine = ctx.same(utils.pubkey_to_address(key.public),
                    utils.pubkey_to_address(m.requestor_ethereum_public_key))
    m.sign_all_promissory_notes(contract, key.secret)
    good = [mine, mine]
    for i, kind in enumerate(('promissory_note', 'concent_promissory_note')):
        how = ctx.pick(kind, ['kept', 'missing', 'again'])
        if how == 'missing':
            setattr(m, kind + '_sig', None)
            good[i] = False
        elif how == 'again':
            k = Party(ctx, kind + '.signer')
            getattr(m, 'sign_' + kind)(contract, k.secret)
            good[i] = ctx.same(
                utils.pubkey_to_address(k.public),
                utils.pubkey_to_address(m.requestor_ethereum_public_key))
    if ctx.flag('received'):
        m = receive(m.serialize())
    v = m.verify_all_promissory_notes(contract)
    ctx.require(ctx.iff(v, ctx.all(*good)), 'every note counts')
    ctx.require(ctx.iff(m.verify_promissory_note(contract), good[0]),
                'the note of the provider')
    ctx.require(ctx.iff(m.verify_concent_promissory_note(contract), good[1]),
                'the note of the Concent')
    ctx.reach('done')


@job('C18', reach=('valid', 'invalid'),
     bounds='verification requests of any price, subtask, provider and '
            'contract; the note signed by any key with any one term changed')
def note_of_request(ctx):
    b = Builder(ctx)
    m = b.message('m', 'SubtaskResultsVerify')
    t = m.subtask_results_rejected.report_computed_task.task_to_compute
    payer = address(ctx, 'provider')
    t.want_to_compute_task.provider_ethereum_address = payer
    t.price = ctx.int('price', 0, (1 << 256) - 1)
    contract = address(ctx, 'contract')
    key = Party(ctx, 'signer')
    mine = ctx.same(utils.pubkey_to_address(key.public), payer)
    _, e = ctx.outcome(m.verify_concent_promissory_note, contract)
    ctx.require(e is None and _ is False, 'missing is invalid')
    if ctx.flag('by method'):
        m.sign_concent_promissory_note(contract, key.secret)
        good = mine
    else:
        terms = dict(address_from=payer, address_to=contract,
                     amount=t.price, contract_address=contract,
                     subtask_id=t.compute_task_def['subtask_id'])
        changed = ctx.pick('changed', [None] + sorted(terms))
        good = mine
        if changed is not None:
            other = note_of(ctx, 'o', payer)
            if changed == 'address_from':
                other[changed] = address(ctx, 'other payer')
            good = ctx.all(good, ctx.same(other[changed], terms[changed]))
            terms[changed] = other[changed]
        m.concent_promissory_note_sig = promissory.PromissoryNote(
            **terms).sign(key.secret)
    v, e = ctx.outcome(m.verify_concent_promissory_note, contract)
    ctx.require(e is None, 'no error')
    ctx.require(ctx.iff(v, good), 'valid exactly when so signed')
    ctx.reach('valid' if v else 'invalid')
