"""C02-C06: frame layout, signatures, freshness, versions, encryption."""
import struct

import golem_messages
from golem_messages import cryptography
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import serializer
from golem_messages import shortcuts
from golem_messages.message import base, p2p
from golem_messages.register import library

from sx.api import NOW, job

from . import build
from .build import Builder, CLASSES, MAX_TS, MIN_TS, Party, public_key

EACH = {k: {'name': k} for k in sorted(CLASSES)}
SIGNED = {k: {'name': k} for k, c in sorted(CLASSES.items()) if c.SIGN}
NEVER_ENCRYPTED = ('Hello', 'Disconnect')
NEVER_SIGNED = ('Ping', 'Pong', 'GetPeers', 'Peers', 'GetTasks',
                'GetResourcePeers', 'ResourcePeers', 'Degree', 'Gossip',
                'StopGossip', 'LocRank', 'FindNode')


def is_error(e, *kinds):
    return isinstance(e, kinds)


# -- C02 ---------------------------------------------------------------------

@job('C02', reach=('done',),
     bounds='every type, any timestamp of 64 bits, signed or not, encrypted '
            'by an opaque function or not',
     params=EACH)
def layout(ctx, name):
    b = Builder(ctx)
    cls = CLASSES[name]
    m = b.message('m', name, ts=ctx.int('ts', 0, (1 << 64) - 1))
    signed, encrypted = ctx.flag('signed'), ctx.flag('encrypted')
    box = ctx.blob('ciphertext', 1, 99)
    k = Party(ctx, 'sender')
    if not signed and ctx.flag('presigned'):
        m.sig = ctx.blob('sig', 65, 65)
        given = m.sig
    else:
        given = None
    plain = serializer.dumps(m.slots())
    data = m.serialize(k.secret if signed else None,
                       (lambda p: box) if encrypted else None)
    n = library.get_type(cls)
    flag = encrypted and name not in NEVER_ENCRYPTED
    ctx.require(ctx.same(data[:2], n.to_bytes(2, 'big')), 'type number')
    ctx.require(ctx.same(data[2:10], m.timestamp.to_bytes(8, 'big')),
                'timestamp')
    ctx.require(ctx.same(data[10:11], b'\1' if flag else b'\0'),
                'encryption flag')
    ctx.require(ctx.same(data[11:76], m.sig), 'the signature follows')
    if given is not None:
        ctx.require(ctx.same(m.sig, given), 'signature kept')
    elif not signed or name in NEVER_SIGNED:
        ctx.require(ctx.same(m.sig, b'\0' * 65), 'zeros when unsigned')
    else:
        ctx.require(cryptography.ecdsa_verify(
            k.public, m.sig, m.get_short_hash(plain)), 'signed')
    rest = data[76:]
    if name == 'Hello':
        ctx.require(ctx.same(
            rest[-32:], struct.pack('!32p', m._version.encode())),
            'the version ends it')
        rest = rest[:-32]
    ctx.require(ctx.same(rest, box if flag else plain), 'payload last')
    ctx.reach('done')


@job('C02', reach=('header', 'refused'),
     bounds='every header of 0 to 24 bytes',
     params={'n%d' % n: {'n': n} for n in (0, 1, 2, 10, 11, 12, 24)})
def header(ctx, n):
    raw = ctx.bytes('raw', n)
    h, e = ctx.outcome(base.Message.deserialize_header, raw)
    if n != 11:
        ctx.require(type(e) is exceptions.HeaderError, 'wrong length')
        ctx.reach('header')
        ctx.reach('refused')
        return
    typ = int.from_bytes(raw[:2], 'big')
    ts = int.from_bytes(raw[2:10], 'big')
    known = ctx.either(*[typ == library.get_type(c)
                         for c in CLASSES.values()])
    good = ctx.all(known, ts > MIN_TS, ts < MAX_TS)
    if e is None:
        ctx.require(good, 'accepted only when it should be')
        ctx.require(ctx.same(h.type_, typ), 'type')
        ctx.require(ctx.same(h.timestamp, ts), 'timestamp')
        ctx.require(ctx.iff(raw[10] != 0, h.encrypted), 'flag')
        ctx.reach('header')
    else:
        ctx.require(isinstance(e, exceptions.HeaderError), 'header error')
        ctx.require(ctx.no(good), 'refused only when it should be')
        ctx.reach('refused')


@job('C02', reach=('short', 'header', 'past'), escapes=(),
     bounds='every frame of 0..120 bytes with an opaque tail: all type '
            'numbers, timestamps and flags; payloads the codec refuses')
def frame(ctx):
    n = ctx.pick('length', [0, 1, 10, 11, 12, 75, 76, 77, 120])
    head = ctx.bytes('head', min(n, 11))
    tail = ctx.blob('tail', n - 11, n - 11) if n > 11 else b''
    data = head + tail
    _, e = ctx.outcome(base.Message.deserialize, data, lambda p: p,
                       check_time=False)
    if n <= 76:
        ctx.require(type(e) is exceptions.MessageError, 'too short')
        ctx.reach('short')
        return
    typ = int.from_bytes(head[:2], 'big')
    ts = int.from_bytes(head[2:10], 'big')
    known = ctx.either(*[typ == library.get_type(c)
                         for c in CLASSES.values()])
    good = ctx.all(known, ts > MIN_TS, ts < MAX_TS)
    refused = isinstance(e, exceptions.HeaderError)
    if refused:
        ctx.require(ctx.no(good), 'refused only when it should be')
        ctx.reach('header')
    else:
        ctx.require(good, 'gets past only when it should')
        ctx.require(e is None or isinstance(e, exceptions.MessageError),
                    'other failures are message errors')
        ctx.reach('past')


# -- C03 ---------------------------------------------------------------------

def load(data, public, decrypt=None):
    return base.Message.deserialize(
        data, decrypt, check_time=False, sender_public_key=public)


def signed_frame(ctx, b, m, secret):
    return m.serialize(secret)


@job('C03', reach=('accepted', 'refused'),
     bounds='every signed type, any two keys, verified on reception and '
            'later on the object',
     params=SIGNED)
def right_key(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'signer')
    other = Party(ctx, 'expected')
    data = m.serialize(k.secret)
    r, e = ctx.outcome(load, data, other.public)
    same = ctx.same(k.secret, other.secret)
    if e is None:
        ctx.require(same, 'accepted from the expected key only')
        ctx.require(r.verify_signature(other.public),
                    'the object verifies later')
        r.encrypted = not r.encrypted
        ctx.require(r.verify_signature(other.public),
                    'the encryption flag is not covered')
        ctx.reach('accepted')
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(ctx.no(same), 'a right signature is accepted')
        plain = load(data, None)
        _, e = ctx.outcome(plain.verify_signature, other.public)
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'the object does not verify later')
        ctx.reach('refused')


SIMPLE = ('RandVal', 'ChallengeSolution', 'Disconnect', 'RemoveTask',
          'SubtaskPayment', 'Hello', 'CannotAssignTask', 'ForcePaymentCommitted',
          'StartSessionResponse', 'SetTaskSession', 'WantToComputeTask')
TAMPERED = {k: {'name': k} for k in (
    'RandVal', 'ChallengeSolution', 'Disconnect', 'RemoveTask', 'Hello',
    'SubtaskPayment', 'PushResource', 'CannotAssignTask',
    'ForcePaymentCommitted', 'WantToStartTaskSession', 'WantToComputeTask',
    'ReportComputedTask', 'SubtaskResultsRejected', 'ForcePayment',
    'VerdictReportComputedTask', 'ForceReportComputedTaskResponse')}


@job('C03', reach=('same', 'different'),
     bounds='a signed frame with another timestamp (any), signature (any 65 '
            'bytes) or encryption flag put in',
     params=TAMPERED)
def tampered_header(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'signer')
    data = m.serialize(k.secret)
    what = ctx.pick('what', ['timestamp', 'signature', 'flag'])
    if what == 'timestamp':
        ts = ctx.int('ts', MIN_TS + 1, MAX_TS - 1)
        unchanged = ctx.same(ts, m.timestamp)
        data = data[:2] + ts.to_bytes(8, 'big') + data[10:]
    elif what == 'signature':
        sig = ctx.blob('sig', 65, 65)
        unchanged = False
        data = data[:11] + sig + data[76:]
    else:
        unchanged = True
        data = data[:10] + b'\1' + data[11:]
    r, e = ctx.outcome(load, data, k.public, lambda p: p)
    if e is None:
        ctx.require(unchanged, 'accepted only when unchanged')
        ctx.reach('same')
    elif name == 'SubtaskResultsAccepted':
        pass
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(ctx.no(unchanged), 'an unchanged one is accepted')
        ctx.reach('different')


FREE = {k: {'name': k} for k in TAMPERED if build.free_slots(CLASSES[k])}


@job('C03', reach=('same', 'different'),
     bounds='a signed frame with the value of any one freely valued slot '
            'replaced by any integer, text or nothing',
     params=FREE)
def tampered_payload(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'signer')
    data = m.serialize(k.secret)
    slots = m.slots()
    slot = ctx.pick('slot', build.free_slots(CLASSES[name]))
    old = dict(slots)[slot]
    value = ctx.pick('value', ['int', 'text', 'none'])
    value = {'int': lambda: ctx.int('new'),
             'text': lambda: ctx.text('new', 0, 40),
             'none': lambda: None}[value]()
    payload = serializer.dumps(
        [[s, value if s == slot else v] for s, v in slots])
    end = data[-32:] if name == 'Hello' else b''
    r, e = ctx.outcome(load, data[:76] + payload + end, k.public)
    unchanged = ctx.same(old, value)
    if e is None:
        ctx.require(unchanged, 'accepted only when unchanged')
        ctx.reach('same')
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(ctx.no(unchanged), 'an unchanged one is accepted')
        ctx.reach('different')


@job('C03', reach=('different',),
     bounds='payloads with slots reordered, dropped, doubled or added')
def reshaped_payload(ctx):
    name = ctx.pick('name', ['PushResource', 'SubtaskPayment', 'Hello'])
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'signer')
    data = m.serialize(k.secret)
    slots = m.slots()
    how = ctx.pick('how', ['reversed', 'dropped', 'doubled', 'added'])
    if how == 'reversed':
        slots = slots[::-1]
    elif how == 'dropped':
        slots = slots[1:]
    elif how == 'doubled':
        slots = slots + slots[:1]
    else:
        slots = slots + [['unknown', ctx.int('extra')]]
    end = data[-32:] if name == 'Hello' else b''
    _, e = ctx.outcome(load, data[:76] + serializer.dumps(slots) + end,
                       k.public)
    ctx.require(type(e) is exceptions.InvalidSignature,
                'an invalid signature error')
    ctx.reach('different')


@job('C03', reach=('same', 'different'),
     bounds='signed frames relabelled as any other registered type without '
            'nested messages')
def relabelled(ctx):
    name = ctx.pick('name', ['RandVal', 'HasResource', 'FindNode',
                             'SubtaskPaymentRequest'])
    new = ctx.pick('new', ['RandVal', 'ChallengeSolution', 'HasResource',
                           'WantsResource', 'PullResource', 'PullAnswer',
                           'RemoveTask', 'Disconnect', 'PushResource',
                           'SubtaskPaymentRequest', 'SubtaskPayment',
                           'StartSessionResponse', 'ClientAuthorization',
                           'ForcePaymentCommitted', 'CannotAssignTask',
                           'ResourceHandshakeNonce', 'Ping'])
    b = Builder(ctx)
    m = b.valid('m', name)
    k = Party(ctx, 'signer')
    data = m.serialize(k.secret)
    n = library.get_type(CLASSES[new])
    r, e = ctx.outcome(load, n.to_bytes(2, 'big') + data[2:], k.public)
    if e is None:
        ctx.require(new == name or not CLASSES[new].SIGN,
                    'accepted only under its own type')
        ctx.reach('same')
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(new != name, 'its own type is accepted')
        ctx.reach('different')


LABELS = ['', '-rc1', '-rc2', '+b1', '-rc1+b1']


@job('C03', reach=('same', 'different'),
     bounds='a signed greeting with any other compatible version appended, '
            'with and without pre-release and build labels')
def greeting_version(ctx):
    b = Builder(ctx)
    m = b.valid('m', 'Hello')
    k = Party(ctx, 'signer')
    golem_messages.__version__ = '3.14.0'
    first = '3.14.' + ctx.decimal('first', 1, 999) + \
        ctx.pick('first.label', LABELS)
    second = '3.14.' + ctx.decimal('second', 1, 999) + \
        ctx.pick('second.label', LABELS)
    m._version = first
    data = m.serialize(k.secret)
    field = struct.pack('!32p', second.encode('ascii'))
    r, e = ctx.outcome(load, data[:-32] + field, k.public)
    same = ctx.same(first, second)
    if e is None:
        ctx.require(same, 'accepted with its own version only')
        ctx.require(ctx.same(r._version, first), 'version kept')
        ctx.reach('same')
    else:
        ctx.require(type(e) is exceptions.InvalidSignature,
                    'an invalid signature error')
        ctx.require(ctx.no(same), 'its own version is accepted')
        ctx.reach('different')


@job('C03', reach=('same', 'different'),
     bounds='the hash signed of two objects of one type: equal exactly when '
            'type, timestamp and slots are',
     params={k: {'name': k} for k in (
         'RandVal', 'PullAnswer', 'SubtaskPayment', 'Disconnect',
         'RemoveTaskContainer', 'CannotAssignTask')})
def signed_hash(ctx, name):
    b = Builder(ctx)
    x = b.message('x', name)
    y = b.message('y', name)
    equal = ctx.all(ctx.same(x.timestamp, y.timestamp),
                    ctx.same(x.slots(), y.slots()))
    ctx.require(ctx.iff(equal, ctx.same(x.get_short_hash(),
                                        y.get_short_hash())),
                'one hash per content')
    ctx.reach('same')
    ctx.reach('different')


# -- C04 ---------------------------------------------------------------------

def fresh(ctx, ts, now):
    """What must happen: 'old', 'future', 'ok' as conditions (must, may)."""
    age = now - ts * 10 ** 6        # microseconds
    return age


def judge(ctx, e, ts, now):
    age = now - ts * 10 ** 6
    if isinstance(e, exceptions.MessageTooOldError):
        ctx.require(age > 600 * 10 ** 6, 'not too old yet')
        ctx.reach('old')
    elif isinstance(e, exceptions.MessageFromFutureError):
        ctx.require(age < -300 * 10 ** 6, 'not from the future')
        ctx.reach('future')
    elif isinstance(e, exceptions.TimestampError):
        ctx.require(ctx.either(ts > 253402300799, ts < -62135596800),
                    'no representable time')
        ctx.reach('unrepresentable')
    else:
        ctx.require(e is None, 'only timestamp errors')
        ctx.require(age <= 601 * 10 ** 6, 'too old ones are refused')
        ctx.require(age >= -301 * 10 ** 6, 'future ones are refused')
        ctx.reach('ok')


@job('C04', reach=('old', 'future', 'ok', 'unrepresentable'),
     bounds='every 64-bit timestamp, clock anywhere in 2010..2500 to the '
            'microsecond')
def window(ctx):
    ts = ctx.int('ts', 0, (1 << 64) - 1)
    now = ctx.int('now', 1262304000 * 10 ** 6, 16725225600 * 10 ** 6)
    ctx.set_now(now)
    _, e = ctx.outcome(base.verify_time, ts)
    judge(ctx, e, ts, now)


@job('C04', reach=('unrepresentable',),
     bounds='timestamps of other kinds and far values')
def bad_time(ctx):
    ts = ctx.pick('ts', [None, 'x', [], 1e300, float('nan'), float('inf'),
                         1 << 64, -1 << 70, 253402300800, {}])
    _, e = ctx.outcome(base.verify_time, ts)
    ctx.require(type(e) is exceptions.TimestampError, 'a timestamp error')
    ctx.reach('unrepresentable')


@job('C04', reach=('old', 'future', 'ok', 'unchecked'),
     bounds='whole frames of several types, any admissible timestamp and '
            'clock, time checking on or off',
     params={k: {'name': k} for k in (
         'RandVal', 'Ping', 'Disconnect', 'Hello', 'SubtaskPaymentRequest',
         'WantToComputeTask', 'ForcePayment')})
def reception(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    now = ctx.int('now', 1262304000 * 10 ** 6, 16725225600 * 10 ** 6)
    ctx.set_now(now)
    data = m.serialize(None)
    check = ctx.pick('check', [None, True, False])
    if check is None:
        r, e = ctx.outcome(base.Message.deserialize, data, None)
    else:
        r, e = ctx.outcome(base.Message.deserialize, data, None,
                           check_time=check)
    if check is False:
        ctx.require(e is None, 'the age does not matter')
        ctx.reach('unchecked')
    else:
        judge(ctx, e, m.timestamp, now)


# -- C05 ---------------------------------------------------------------------

TAILS = ['', '-rc1', '-alpha.1', '+build', '-0+x']


def compatible(ctx, ours, theirs, tail):
    """At least MAJOR.MINOR.0 and below the next minor version."""
    (a, b, _), (x, y, _z) = ours, theirs
    pre = tail.startswith('-')
    inside = ctx.all(x == a, y == b)
    if not pre:
        return inside, ctx.no(inside)
    # pre-releases come before their release; whether the pre-releases of
    # the next minor version are below it is left open
    after = ctx.all(inside, _z > 0)
    nxt = ctx.all(x == a, y == b + 1, _z == 0)
    return after, ctx.no(ctx.either(after, nxt))


@job('C05', reach=('greeted', 'refused'),
     bounds='our version and theirs with every number 0..10**6, labels as '
            'in the name',
     params={t or 'release': {'tail': t} for t in TAILS})
def versions(ctx, tail):
    ctx.hash_ok = True      # the version library only hashes clauses
    ours = [ctx.int('ours.' + s, 0, 10 ** 6) for s in 'xyz']
    theirs = [ctx.int('theirs.' + s, 0, 10 ** 6) for s in 'xyz']
    golem_messages.__version__ = '.'.join(str(n) for n in ours)
    v = '.'.join(str(n) for n in theirs) + tail
    _, e = ctx.outcome(base.verify_version, v)
    must, mustnot = compatible(ctx, ours, theirs, tail)
    if e is None:
        ctx.require(ctx.no(mustnot), 'incompatible versions are refused')
        ctx.reach('greeted')
    else:
        ctx.require(type(e) is exceptions.VersionMismatchError,
                    'a version mismatch error')
        ctx.require(ctx.no(must), 'compatible versions are accepted')
        ctx.reach('refused')


@job('C05', reach=('refused',),
     bounds='opaque text of 0..31 letters and malformed versions')
def no_version(ctx):
    if ctx.flag('opaque'):
        v = ctx.text('v', 0, 31)
    else:
        v = ctx.pick('v', ['', '1', '3.14', '3.14.0.0', '3.14.x', 'v3.14.0',
                           '03.14.0', '3.14.00', '3.14.-1', '3.14.0-',
                           '\ufffd', '3.14.0 ', ' 3.14.0'])
    golem_messages.__version__ = '3.14.0'
    _, e = ctx.outcome(base.verify_version, v)
    ctx.require(type(e) is exceptions.VersionMismatchError,
                'a version mismatch error')
    ctx.reach('refused')


@job('C05', reach=('greeted', 'refused'),
     bounds='greetings from a peer of any version, over the wire; ours any')
def greeting(ctx):
    ctx.hash_ok = True      # the version library only hashes clauses
    top = 999 if not ctx.thorough else 10 ** 6
    ours = [ctx.int('ours.' + s, 0, top) for s in 'xyz']
    theirs = [ctx.int('theirs.' + s, 0, top) for s in 'xyz']
    b = Builder(ctx)
    m = b.valid('m', 'Hello')
    m._version = '.'.join(str(n) for n in theirs)
    data = m.serialize(None)
    golem_messages.__version__ = '.'.join(str(n) for n in ours)
    r, e = ctx.outcome(load, data, None)
    must, mustnot = compatible(ctx, ours, theirs, '')
    if e is None:
        ctx.require(ctx.no(mustnot), 'incompatible peers are refused')
        ctx.require(ctx.same(r._version, m._version), 'their version')
        ctx.reach('greeted')
    else:
        ctx.require(type(e) is exceptions.VersionMismatchError,
                    'a version mismatch error')
        ctx.require(ctx.no(must), 'compatible peers are greeted')
        ctx.reach('refused')


@job('C05', reach=('greeted',),
     bounds='any version of ours, as a plain release, greeting itself')
def own_version(ctx):
    ctx.hash_ok = True      # the version library only hashes clauses
    golem_messages.__version__ = '.'.join(
        str(ctx.int('ours.' + s, 0, 10 ** 6)) for s in 'xyz')
    b = Builder(ctx)
    m = b.valid('m', 'Hello')
    k = Party(ctx, 'peer')
    r, e = ctx.outcome(load, m.serialize(k.secret), k.public)
    ctx.require(e is None, 'greeted')
    ctx.require(ctx.same(r._version, golem_messages.__version__),
                'our version')
    ctx.reach('greeted')


@job('C05', reach=('refused',),
     bounds='greetings ending in fewer than 32 bytes, or in any 32 opaque '
            'bytes')
def broken_greeting(ctx):
    head = struct.pack('!HQ?', 0, MIN_TS + 5, False)
    n = ctx.pick('n', [66, 80, 96, 97, 128])
    data = head + ctx.blob('rest', n, n)
    r, e = ctx.outcome(load, data, None)
    ctx.require(isinstance(e, exceptions.VersionMismatchError),
                'refused')
    ctx.reach('refused')


# -- C06 ---------------------------------------------------------------------

@job('C06', reach=('clear', 'sealed'),
     bounds='every type, any function, signed or not; what is passed in and '
            'what the signature covers',
     params=EACH)
def sending(ctx, name):
    b = Builder(ctx)
    m = b.message('m', name)
    k = Party(ctx, 'sender')
    box = ctx.blob('ciphertext', 1, 99)
    seen = []

    def seal(p):
        seen.append(p)
        return box
    plain = serializer.dumps(m.slots())
    given = ctx.flag('given')
    if ctx.flag('was'):
        m.encrypted = True
    data = m.serialize(k.secret if ctx.flag('signed') else None,
                       seal if given else None)
    want = given and name not in NEVER_ENCRYPTED
    ctx.require(ctx.same(data[10:11], b'\1' if want else b'\0'), 'flag')
    ctx.require(m.encrypted is want, 'flag of the object')
    body = data[76:-32] if name == 'Hello' else data[76:]
    if want:
        ctx.require(len(seen) == 1, 'encrypted once')
        ctx.require(ctx.same(seen[0], plain), 'the plain payload')
        ctx.require(ctx.same(body, box), 'the ciphertext travels')
        ctx.reach('sealed')
        ctx.reach('clear')
    else:
        ctx.require(not seen, 'not encrypted')
        ctx.require(ctx.same(body, plain), 'clear text travels')
        ctx.reach('clear')
        if name in NEVER_ENCRYPTED:
            ctx.reach('sealed')
    if ctx.is_true(m.sig != b'\0' * 65):
        ctx.require(cryptography.ecdsa_verify(
            k.public, m.sig, m.get_short_hash(plain)),
            'the signature covers the plain payload')


@job('C06', reach=('sealed', 'clear'),
     bounds='every type made without a header, clock anywhere in '
            '2010..2500: what it says of itself, then what is sent',
     params=EACH)
def fresh_one(ctx, name):
    b = Builder(ctx)
    cls = CLASSES[name]
    now = ctx.int('now', 1262304000 * 10 ** 6 + 10 ** 6,
                  16725225600 * 10 ** 6)
    ctx.set_now(now)
    full = b.valid('f', name)
    m = cls(slots=full.slots()) if ctx.flag('slots') else cls()
    ctx.require(m.encrypted is False, 'nothing is encrypted yet')
    ctx.require(m.header.type_ == library.get_type(cls), 'its type')
    ctx.require(ctx.all(m.timestamp * 10 ** 6 <= now,
                        now < (m.timestamp + 1) * 10 ** 6), 'made now')
    ctx.require(m.sig is None, 'not signed yet')
    m = rebuild(full, m.header)
    given = ctx.flag('given')
    box = ctx.blob('ciphertext', 1, 99)
    data = m.serialize(None, (lambda p: box) if given else None)
    want = given and name not in NEVER_ENCRYPTED
    ctx.require(ctx.same(data[10:11], b'\1' if want else b'\0'), 'flag')
    ctx.reach('sealed')
    ctx.reach('clear')


def rebuild(m, header):
    cls = type(m)
    return cls(header=header, **{s: getattr(m, s) for s in
                                 Builder.slots_of(None, cls)
                                 if getattr(m, s) is not None})


@job('C06', reach=('sealed', 'clear'),
     bounds='every type through the shortcuts, with or without the key of '
            'the recipient and the sender',
     params=EACH)
def shortcut(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    sender, k = Party(ctx, 'sender'), Party(ctx, 'recipient')
    plain = serializer.dumps(m.slots())
    given, signed = ctx.flag('given'), ctx.flag('signed')
    data = shortcuts.dump(m, sender.secret if signed else None,
                          k.public if given else None)
    want = given and name not in NEVER_ENCRYPTED
    ctx.require(ctx.same(data[10:11], b'\1' if want else b'\0'), 'flag')
    body = data[76:-32] if name == 'Hello' else data[76:]
    if want:
        ctx.require(ctx.same(cryptography.ECIES().decrypt(body, k.secret),
                             plain), 'encrypted for the recipient')
        ctx.reach('sealed')
    else:
        ctx.require(ctx.same(body, plain), 'in clear')
        ctx.reach('clear')
        if name in NEVER_ENCRYPTED:
            ctx.reach('sealed')
    r = shortcuts.load(data, k.secret, sender.public if signed else None,
                       check_time=False)
    ctx.require(r.encrypted is want, 'known as encrypted or not')
    ctx.require(build.same_message(ctx, r, m), 'the same message')


@job('C06', reach=('clear', 'sealed', 'passed', 'wrapped'),
     bounds='every type, flag any byte, decryption giving the payload or '
            'failing in various ways',
     params=EACH)
def receiving(ctx, name):
    b = Builder(ctx)
    m = b.valid('m', name)
    data = m.serialize(None)
    flag = ctx.bytes('flag', 1)
    end = data[-32:] if name == 'Hello' else b''
    body = data[76:-32] if name == 'Hello' else data[76:]
    box = ctx.blob('ciphertext', 1, 99)
    seen = []
    how = ctx.pick('how', ['fine', 'crypto', 'library', 'value', 'type',
                           'assertion'])
    error = {'fine': None,
             'crypto': exceptions.CryptoError('e'),
             'library': exceptions.MessageError('e'),
             'value': ValueError('e'),
             'type': TypeError('e'),
             'assertion': AssertionError('e')}[how]

    def decrypt(p):
        seen.append(p)
        if error is not None:
            raise error
        return body
    sealed = ctx.is_true(flag != b'\0')
    r, e = ctx.outcome(
        load, data[:10] + flag + data[11:76] + (box if sealed else body) +
        end, None, decrypt)
    if not sealed:
        ctx.require(not seen, 'nothing to decrypt')
        ctx.require(e is None, 'accepted')
        ctx.require(not r.encrypted, 'in clear')
        ctx.reach('clear')
        return
    ctx.require(len(seen) == 1, 'decrypted once')
    ctx.require(ctx.same(seen[0], box), 'the payload')
    if how == 'fine':
        ctx.require(e is None, 'accepted')
        ctx.require(r.encrypted is True, 'known as encrypted')
        ctx.require(build.same_value(ctx, r.slots(), m.slots()), 'content')
        ctx.reach('sealed')
    elif how in ('crypto', 'library'):
        ctx.require(e is error, 'passed on')
        ctx.reach('passed')
    else:
        ctx.require(type(e) is exceptions.DecryptionError,
                    'a decryption error')
        ctx.reach('wrapped')
