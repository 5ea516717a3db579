"""C11-C18, C21, C24, C36: an answer given once says nothing about the next.

Every job here has a question answered first, and then asked again about
something that differs, in part or in nothing, from what it was asked about.
"""
from golem_messages import cryptography
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import utils
from golem_messages.datastructures import masking
from golem_messages.datastructures import promissory
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import tasks
from golem_messages.register import library

from sx.api import job

from .build import Builder, Party, TASK_CLASSES
from .h_header import COVERED, field_value, fields, make
from .h_hostile import receive
from .h_tasks import (
    OWNERS, REASON, Signed, address, assignment_of, class_of, note_of,
)

EACH = {k: {'name': k} for k in sorted(TASK_CLASSES)}


def verdict(ctx, f, a, good, error=exceptions.InvalidSignature):
    """f answers True exactly when good holds, else raises the error."""
    v, e = ctx.outcome(f, *a)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(good, 'accepted only when right this time')
        ctx.reach('yes')
    else:
        ctx.require(isinstance(e, error), 'its error')
        ctx.require(ctx.no(good), 'refused only when wrong this time')
        ctx.reach('no')


def fine(ctx, f, *a):
    v, e = ctx.outcome(f, *a)
    ctx.require(e is None and v is True, 'right at first')


# -- C11, C12 -----------------------------------------------------------------

def altered(ctx, s, how):
    """Changes a valid chain; whether its signatures are still right."""
    p, r = s.named[id(assignment_of(s.m))]
    t = assignment_of(s.m)
    if how == 'signer':
        k = Party(ctx, 'later signer')
        s.m.sig = None
        s.m.sign_message(k.secret)
        return ctx.either(*[
            ctx.same(k.public, {'P': p, 'R': r, 'C': s.concent}[o].public)
            for o in OWNERS[class_of(s.m)]])
    if how == 'content':
        old, t.package_hash = t.package_hash, ctx.text('later hash', 0, 40)
        return ctx.same(old, t.package_hash)
    if how == 'time':
        old, m = s.m.header, s.m
        ts = ctx.int('later ts', 0, (1 << 64) - 1)
        m.header = datastructures.MessageHeader(old.type_, ts, False)
        return ctx.same(old.timestamp, ts)
    k = Party(ctx, 'later party')
    if how == 'provider':
        t.want_to_compute_task.provider_public_key = k.hex
        return ctx.same(k.public, p.public)
    t.requestor_public_key = k.hex
    return ctx.same(k.public, r.public)


@job('C11', reach=('yes',), params=EACH, weight=2,
     bounds='a chain already found valid, after which it is signed by any '
            'other key, or any text, time or named party in it is changed, '
            'or another Concent is asked about; the same the other way '
            'round')
def ownership_again(ctx, name):
    s = Signed(ctx, name, good=True)
    c = s.concent
    how = ctx.pick('then', ['concent', 'concent before', 'signer', 'content',
                            'time', 'provider', 'requestor'])
    if how.startswith('concent'):
        d = Party(ctx, 'other concent')
        keys = [c, d] if how == 'concent' else [d, c]
        for k in keys:
            verdict(ctx, s.m.validate_ownership_chain, (k.public,),
                    s.good_with(k))
        return
    fine(ctx, s.m.validate_ownership_chain, c.public)
    verdict(ctx, s.m.validate_ownership_chain, (c.public,),
            altered(ctx, s, how))


@job('C12', reach=('yes', 'mismatch'), params=EACH, weight=2,
     bounds='a chain whose owners were found right, after which other keys '
            'are given, or it is signed by another key, or names another '
            'party')
def owners_again(ctx, name):
    s = Signed(ctx, name, good=True)
    c = s.concent
    p, r = s.named[id(assignment_of(s.m))]
    fine(ctx, s.m.verify_owners, p.public, r.public, c.public)
    how = ctx.pick('then', ['keys', 'signer', 'provider', 'requestor'])
    if how == 'keys':
        k, l = Party(ctx, 'given provider'), Party(ctx, 'given requestor')
        match = ctx.all(ctx.same(k.public, p.public),
                        ctx.same(l.public, r.public))
        good = True
        args = k.public, l.public, c.public
    else:
        good = altered(ctx, s, how)
        match = True if how == 'signer' else good
        args = p.public, r.public, c.public
    v, e = ctx.outcome(s.m.verify_owners, *args)
    if e is None:
        ctx.require(v is True, 'true')
        ctx.require(ctx.all(match, good), 'right this time')
        ctx.reach('yes')
    elif isinstance(e, exceptions.OwnershipMismatch):
        ctx.require(ctx.no(match), 'mismatch only if the keys differ')
        ctx.reach('mismatch')
    else:
        ctx.require(isinstance(e, exceptions.InvalidSignature), 'its error')
        ctx.require(match, 'mismatch comes first')
        ctx.require(ctx.no(good), 'only when a signature is wrong')


# -- C13-C16 ------------------------------------------------------------------

@job('C13', reach=('done',), params={
    k: v for k, v in EACH.items() if k != 'TaskToCompute'},
     bounds='every task message type asked for its ids, then given another '
            'task definition, other parties, or another assignment')
def ids_again(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    t = m.task_to_compute
    asked = ('task_id', 'subtask_id', 'provider_id', 'requestor_id')
    for a in asked:
        getattr(m, a)
    how = ctx.pick('then', ['parties', 'definition', 'assignment'])
    if how == 'parties':
        t.provider_id = ctx.text('provider', 1, 128)
        t.requestor_id = ctx.text('requestor', 1, 128)
    elif how == 'definition':
        t.compute_task_def = tasks.ComputeTaskDef(
            task_id=ctx.text('task', 1, 128),
            subtask_id=ctx.text('subtask', 1, 128))
    else:
        u = b.message('other', 'TaskToCompute', nested=True)
        x = m
        while True:
            slot = first_part(x)
            if class_of(getattr(x, slot)) == 'TaskToCompute':
                break
            x = getattr(x, slot)
        setattr(x, slot, u)
        t = u
        ctx.require(m.task_to_compute is t, 'the new assignment')
    d = t.compute_task_def
    want = d['task_id'], d['subtask_id'], t.provider_id, t.requestor_id
    for a, v in zip(asked, want):
        ctx.require(ctx.same(getattr(m, a), v), a + ' as it is now')
    ctx.reach('done')


def first_part(x):
    return [p for p in x.TASK_ID_PROVIDERS
            if getattr(x, p, None) is not None][0]


@job('C14', reach=('yes', 'no'),
     bounds='one acceptance found valid or not, then given any other '
            'payment time or timestamp')
def payment_again(ctx):
    def window(ts, paid):
        return ctx.all(paid <= ts, ts - paid <= 15 * 60)

    def header(ts):
        return datastructures.MessageHeader(
            library.get_type(tasks.SubtaskResultsAccepted), ts, False)
    ts = ctx.int('ts', 0, 1 << 52)
    paid = ctx.int('paid', -(1 << 52), 1 << 52)
    m = tasks.SubtaskResultsAccepted(header=header(ts), payment_ts=paid)
    ctx.outcome(m.is_valid)
    if ctx.flag('time'):
        ts = ctx.int('later ts', 0, 1 << 52)
        m.header = header(ts)
    else:
        paid = ctx.int('later paid', -(1 << 52), 1 << 52)
        m.payment_ts = paid
    verdict(ctx, m.is_valid, (), window(ts, paid),
            exceptions.ValidationError)


@job('C15', reach=('yes', 'no'),
     bounds='one rejection asked about by both rules, then given another '
            'reason, another proof of any task, or the Concent switched')
def rejection_again(ctx):
    b = Builder(ctx)
    rct = b.message('m.rct', 'ReportComputedTask', nested=True)
    reason = ctx.pick('reason', list(REASON))
    proof = None
    if ctx.flag('proof'):
        proof = b.message('m.proof', 'ForceGetTaskResultFailed', nested=True,
                          task_to_compute=rct.task_to_compute)
    m = b.message('m', 'SubtaskResultsRejected', reason=reason,
                  report_computed_task=rct,
                  force_get_task_result_failed=proof)
    ctx.outcome(m.is_valid)
    ctx.outcome(m.is_valid_for_requestor)
    t = rct.task_to_compute
    how = ctx.pick('then', ['reason', 'proof', 'concent'])
    same = True
    if how == 'reason':
        m.reason = reason = ctx.pick('later', [None] + list(REASON))
    elif how == 'proof':
        if ctx.flag('none now'):
            proof = None
        else:
            proof = b.message('n.proof', 'ForceGetTaskResultFailed',
                              nested=True)
            u = proof.task_to_compute.compute_task_def
            same = ctx.all(
                ctx.same(t.compute_task_def['task_id'], u['task_id']),
                ctx.same(t.compute_task_def['subtask_id'], u['subtask_id']))
        m.force_get_task_result_failed = proof
    else:
        t.concent_enabled = ctx.bool('later concent')
    concent = t.concent_enabled
    forced = reason is REASON.ForcedResourcesFailure
    good = ctx.all(reason is not None, same,
                   not forced or proof is not None)
    verdict(ctx, m.is_valid, (), good, exceptions.ValidationError)
    verdict(ctx, m.is_valid_for_requestor, (), ctx.all(good, ctx.either(
        reason is REASON.VerificationNegative,
        ctx.all(forced, concent),
        ctx.all(reason is REASON.ResourcesFailure, ctx.no(concent)))),
        exceptions.ValidationError)


@job('C16', reach=('yes', 'no'),
     bounds='a verdict found valid, whose one assignment is then changed in '
            'price, hash, signature or time')
def verdict_again(ctx):
    b = Builder(ctx)
    t = b.message('t', 'TaskToCompute', nested=True)
    d = {s: getattr(t, s) for s in b.slots_of(type(t))}
    u = type(t)(header=t.header, **d)
    u.sig = t.sig
    m = b.message(
        'm', 'VerdictReportComputedTask',
        force_report_computed_task=b.message(
            'm.force', 'ForceReportComputedTask', nested=True,
            report_computed_task=b.message(
                'm.r1', 'ReportComputedTask', nested=True,
                task_to_compute=t)),
        ack_report_computed_task=b.message(
            'm.ack', 'AckReportComputedTask', nested=True,
            report_computed_task=b.message(
                'm.r2', 'ReportComputedTask', nested=True,
                task_to_compute=u)))
    fine(ctx, m.is_valid)
    x = ctx.pick('which', [t, u])
    how = ctx.pick('then', ['price', 'package_hash', 'sig', 'time'])
    if how == 'time':
        old, new = t.header.timestamp, ctx.int('ts', 0, (1 << 64) - 1)
        x.header = datastructures.MessageHeader(t.header.type_, new, False)
    else:
        old = getattr(t, how)
        new = {'price': lambda: ctx.int('price'),
               'package_hash': lambda: ctx.text('hash', 0, 40),
               'sig': lambda: ctx.blob('sig', 65, 65)}[how]()
        setattr(x, how, new)
    verdict(ctx, m.is_valid, (), ctx.same(old, new),
            exceptions.ValidationError)


# -- C17, C18 -----------------------------------------------------------------

@job('C17', reach=('yes', 'no'),
     bounds='an assignment received or verified, and then another one with '
            'its Ethereum signature and any other key, or any other price '
            'or time in the offer')
def ethsig_again(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    w = m.want_to_compute_task
    received = ctx.flag('received')
    if received:
        receive(m.serialize())
    else:
        fine(ctx, m.verify_ethsig)
    how = ctx.pick('then', ['key', 'price', 'time', 'signature'])
    if how == 'key':
        k = Party(ctx, 'later eth')
        old, new = b.party('requestor_eth').hex, k.hex
        m.requestor_ethereum_public_key = new
    elif how == 'price':
        old, new = w.price, ctx.int('later price')
        w.price = new
    elif how == 'time':
        old, new = w.header.timestamp, ctx.int('later', 0, (1 << 64) - 1)
        w.header = datastructures.MessageHeader(w.header.type_, new, False)
    else:
        k = Party(ctx, 'later eth')
        old, new = b.party('requestor_eth').public, k.public
        m.generate_ethsig(k.secret)
    good = ctx.same(old, new)
    if received:
        v, e = ctx.outcome(receive, m.serialize())
        if e is None:
            ctx.require(good, 'accepted only when right this time')
            ctx.reach('yes')
        else:
            ctx.require(isinstance(e, exceptions.InvalidSignature),
                        'its error')
            ctx.require(ctx.no(good), 'refused only when wrong this time')
            ctx.reach('no')
    else:
        verdict(ctx, m.verify_ethsig, (), good)


@job('C18', reach=('valid', 'invalid'),
     bounds='a note signed and found valid, any one term of which is then '
            'changed, maybe changed back, or which is signed once more')
def note_again(ctx):
    key = Party(ctx, 'signer')
    payer = utils.pubkey_to_address(key.public)
    terms = note_of(ctx, 'a', payer)
    n = promissory.PromissoryNote(**terms)
    sig = n.sign(key.secret)
    if ctx.flag('asked'):
        ctx.require(n.sig_valid(sig) is True, 'valid at first')
    k = ctx.pick('changed', sorted(terms))
    new = address(ctx, 'other payer') if k == 'address_from' else \
        note_of(ctx, 'b', payer)[k]
    setattr(n, k, new)
    good = ctx.same(new, terms[k])
    if ctx.flag('signed again'):
        again = n.sign(key.secret)
        v = n.sig_valid(again)
        ctx.require(ctx.iff(v, good if k == 'address_from' else True),
                    'a new signature is for the new terms')
    v = n.sig_valid(sig)
    ctx.require(ctx.iff(v, good), 'valid exactly for the terms as signed')
    ctx.reach('valid' if v else 'invalid')
    setattr(n, k, terms[k])
    ctx.require(n.sig_valid(sig) is True, 'valid again')


@job('C18', reach=('valid', 'invalid'),
     bounds='an assignment whose notes were signed and found valid, then '
            'given another price, payee, subtask or payer, or asked with '
            'another contract')
def notes_again(ctx):
    b = Builder(ctx)
    m = b.message('m', 'TaskToCompute')
    w = m.want_to_compute_task
    w.provider_ethereum_address = address(ctx, 'payee')
    m.price = ctx.int('price', 0, (1 << 256) - 1)
    contract = address(ctx, 'contract')
    key = b.party('requestor_eth')
    m.sign_all_promissory_notes(contract, key.secret)
    ctx.require(m.verify_all_promissory_notes(contract) is True,
                'valid at first')
    how = ctx.pick('then', ['price', 'payee', 'subtask', 'payer',
                            'contract'])
    payee = True
    if how == 'price':
        old, new = m.price, ctx.int('later price', 0, (1 << 256) - 1)
        m.price = new
    elif how == 'payee':
        old, new = w.provider_ethereum_address, address(ctx, 'later payee')
        w.provider_ethereum_address = new
    elif how == 'subtask':
        old, new = m.subtask_id, ctx.uuid_text('later subtask')
        m.compute_task_def = tasks.ComputeTaskDef(
            dict(m.compute_task_def), subtask_id=new)
    elif how == 'payer':
        k = Party(ctx, 'later eth')
        old, new = key.hex, k.hex
        m.requestor_ethereum_public_key = new
    else:
        old, new = contract, address(ctx, 'later contract')
        contract = new
    same = ctx.same(old, new)
    v = m.verify_promissory_note(contract)
    ctx.require(ctx.iff(v, same), 'the note of the provider')
    ctx.reach('valid' if v else 'invalid')
    v = m.verify_concent_promissory_note(contract)
    # (the note of the Concent is not for the provider)
    ctx.require(ctx.iff(v, True if how == 'payee' else same),
                'the note of the Concent')
    v = m.verify_all_promissory_notes(contract)
    ctx.require(ctx.iff(v, same), 'both')


# -- C21, C24, C36 ------------------------------------------------------------

@job('C21', reach=('done',),
     bounds='the same literal pair asked for again after the first mask was '
            'increased, decreased or emptied; any other pair after it')
def for_task_again(ctx):
    n, k = ctx.pick('pair', [(1, 8), (4, 64), (10, 1000), (5, 5), (1, 0)])
    first = masking.Mask.get_mask_for_task(n, k)
    bits = first.num_bits
    value = first.to_int()
    how = ctx.pick('then', ['up', 'down', 'nothing'])
    if how == 'up':
        first.increase(min(3, first.MASK_LEN - bits))
    elif how == 'down':
        first.decrease(min(2, bits))
    again = masking.Mask.get_mask_for_task(n, k)
    ctx.require(again.num_bits == bits, 'the same number of bits')
    if how != 'nothing':
        again.increase(min(1, again.MASK_LEN - bits))
    ctx.require(masking.Mask.get_mask_for_task(n, k).num_bits == bits,
                'and so the third time')
    ctx.require(value >= 0, 'a mask')
    ctx.reach('done')


@job('C24', reach=('yes', 'no'),
     params={k: {'key': k} for k in COVERED if k != 'task_owner'},
     bounds='an offer that verified, and then another one with its '
            'signature and any other value of any one field; then the first '
            'one again')
def offer_again(ctx, key):
    k = Party(ctx, 'signer')
    d = fields(ctx)
    a, b = field_value(ctx, key, 'a'), field_value(ctx, key, 'b')
    first = make(dict(d, **{key: a}))
    first.sign(k.secret)
    fine(ctx, first.verify, k.public)
    second = make(dict(d, **{key: b}), first.signature)
    verdict(ctx, second.verify, (k.public,), ctx.same(a, b))
    if ctx.flag('other key'):
        o = Party(ctx, 'other')
        verdict(ctx, first.verify, (o.public,),
                ctx.same(k.public, o.public))
    fine(ctx, first.verify, k.public)


@job('C24', reach=('yes', 'no'),
     bounds='an offer that verified and any field of which is then set, in '
            'place')
def changed_again(ctx):
    k = Party(ctx, 'signer')
    h = make(fields(ctx))
    h.sign(k.secret)
    fine(ctx, h.verify, k.public)
    key = ctx.pick('key', ['deadline', 'max_price', 'subtask_budget',
                           'environment', 'task_id'])
    old = getattr(h, key)
    new = field_value(ctx, key, 'new')
    setattr(h, key, new)
    verdict(ctx, h.verify, (k.public,), ctx.same(old, new))


@job('C36', reach=('yes', 'no'),
     bounds='a signature verified, then asked about with any other key, '
            'data or signature')
def signature_again(ctx):
    k = Party(ctx, 'signer')
    data = ctx.blob('data', 0, 100)
    sig = cryptography.ecdsa_sign(k.secret, data)
    fine(ctx, cryptography.ecdsa_verify, k.public, sig, data)
    how = ctx.pick('then', ['key', 'data', 'signature'])
    if how == 'key':
        o = Party(ctx, 'other')
        args = o.public, sig, data
        good = ctx.same(o.public, k.public)
    elif how == 'data':
        other = ctx.blob('other', 0, 100)
        args = k.public, sig, other
        good = ctx.same(data, other)
    else:
        o = Party(ctx, 'other')
        args = k.public, cryptography.ecdsa_sign(o.secret, data), data
        good = ctx.same(o.public, k.public)
    verdict(ctx, cryptography.ecdsa_verify, args, good)
    fine(ctx, cryptography.ecdsa_verify, k.public, sig, data)
