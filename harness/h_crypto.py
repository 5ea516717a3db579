"""C26, C36: encryption, signatures and keys."""
from golem_messages import cryptography, exceptions, shortcuts

from sx.api import NOW, job

from .build import Builder, Party, same_message

NEVER_ENCRYPTED = ("Hello", "Disconnect")
SIZES = {'n%d' % n: {'n': n} for n in (0, 1, 16, 40)}


def payload(ctx, n):
    return ctx.blob('data', n, n)


@job('C26', reach=('done',),
     params=dict(SIZES, any={'n': None}, known={'n': 'known'}),
     bounds='every payload of 0, 1, 16, 40 and 0..1000 bytes, every '
            'recipient, extra data of 0..50 bytes')
def opens(ctx, n):
    k = Party(ctx, 'recipient')
    if n is None:
        data = ctx.blob('data', 0, 1000)
    elif n == 'known':
        data = ctx.bytes('data', 5)
    else:
        data = payload(ctx, n)
    mac = ctx.blob('mac', 0, 50) if ctx.flag('mac') else None
    sender = cryptography.ECIES()
    receiver = cryptography.ECIES() if ctx.flag('other end') else sender
    for i in range(2):
        frame = sender.encrypt(data, k.public) if mac is None else \
            sender.encrypt(data, k.public, mac)
        ctx.require(len(frame) == len(data) + cryptography.ECIES.OVERHEAD,
                    'length')
        ctx.require(ctx.same(frame[:1], b'\x04'), 'marker')
        got = receiver.decrypt(frame, k.secret) if mac is None else \
            receiver.decrypt(frame, k.secret, shared_mac_data=mac)
        ctx.require(ctx.same(got, data), 'the same data')
    ctx.reach('done')


@job('C26', reach=('opened', 'refused'), params=SIZES,
     bounds='any two keys')
def other_key(ctx, n):
    k = Party(ctx, 'recipient')
    other = Party(ctx, 'other')
    data = payload(ctx, n)
    mac = ctx.blob('mac', 3, 3) if ctx.flag('mac') else b''
    frame = cryptography.ECIES().encrypt(data, k.public, mac)
    got, e = ctx.outcome(cryptography.ECIES().decrypt, frame, other.secret,
                         mac)
    mine = ctx.same(k.secret, other.secret)
    if e is None:
        ctx.require(mine, 'opens with the right key only')
        ctx.require(ctx.same(got, data), 'the same data')
        ctx.reach('opened')
    else:
        ctx.require(ctx.no(mine), 'opens with the right key')
        ctx.reach('refused')


@job('C26', reach=('opened', 'refused'), params=SIZES,
     bounds='any two extra data of 0..50 bytes')
def other_extra(ctx, n):
    k = Party(ctx, 'recipient')
    data = payload(ctx, n)
    a, b = [ctx.blob(x, 0, 50) if ctx.flag(x + '?') else b''
            for x in ('mac', 'other')]
    frame = cryptography.ECIES().encrypt(data, k.public, a)
    got, e = ctx.outcome(cryptography.ECIES().decrypt, frame, k.secret, b)
    if e is None:
        ctx.require(ctx.same(a, b), 'opens with the right extra data only')
        ctx.require(ctx.same(got, data), 'the same data')
        ctx.reach('opened')
    else:
        ctx.require(ctx.no(ctx.same(a, b)), 'opens with the extra data')
        ctx.reach('refused')


@job('C26', reach=('opened', 'refused'), params=SIZES,
     bounds='any new value of any one part of the frame: marker, ephemeral '
            'key (all of it, or that of another frame), initialisation '
            'vector (all or 1 byte), ciphertext (all or 1 byte), tag (all, '
            'first or last byte); frames cut or extended by 1, 16, 32 bytes '
            'at either end')
def tampered(ctx, n):
    k = Party(ctx, 'recipient')
    data = payload(ctx, n)
    frame = cryptography.ECIES().encrypt(data, k.public)
    end = 81 + n
    part = ctx.pick('part', [
        'marker', 'point', 'swapped', 'iv', 'iv byte', 'text', 'text byte',
        'tag', 'first', 'last', 'cut', 'cut text', 'cut front', 'longer'])
    unchanged = False
    if part in ('cut', 'longer', 'cut text', 'cut front'):
        m = ctx.pick('m', [1, 16, 32])
        if part == 'cut':
            bad = frame[:-m]
        elif part == 'cut text':
            ctx.assume(m <= n)
            bad = frame[:81] + frame[81 + m:]
        elif part == 'cut front':
            bad = frame[m:]
        else:
            bad = frame + ctx.bytes('more', m)
    else:
        if part == 'marker':
            lo, hi = 0, 1
        elif part in ('point', 'swapped'):
            lo, hi = 1, 65
        elif part == 'iv':
            lo, hi = 65, 81
        elif part == 'iv byte':
            lo = ctx.pick('at', [65, 72, 80])
            hi = lo + 1
        elif part == 'text':
            lo, hi = 81, end
        elif part == 'text byte':
            ctx.assume(n > 0)
            lo = 81 + ctx.pick('at', sorted({0, n // 2, max(n - 1, 0)}))
            hi = lo + 1
        elif part == 'tag':
            lo, hi = end, end + 32
        elif part == 'first':
            lo, hi = end, end + 1
        else:
            lo, hi = end + 31, end + 32
        ctx.assume(hi > lo)
        old = frame[lo:hi]
        if part == 'swapped':
            new = Party(ctx, 'another').public
        elif hi - lo == 1 or part == 'iv':
            new = ctx.bytes('new', hi - lo)
        else:
            new = ctx.blob('new', hi - lo, hi - lo)
        if part == 'marker':
            unchanged = ctx.same(old, new)
        elif hi - lo == 1 or part == 'iv':
            ctx.assume(ctx.no(ctx.same(old, new)))
        bad = frame[:lo] + new + frame[hi:]
    got, e = ctx.outcome(cryptography.ECIES().decrypt, bad, k.secret)
    if e is None:
        ctx.require(unchanged, 'no data from a changed frame')
        ctx.reach('opened')
    else:
        ctx.require(ctx.no(unchanged), 'an unchanged frame opens')
        ctx.reach('refused')


@job('C26', reach=('done',), bounds='two frames for any two recipients')
def separate(ctx):
    """Frames for different recipients share no key."""
    a, b = Party(ctx, 'a'), Party(ctx, 'b')
    ctx.assume(ctx.no(ctx.same(a.secret, b.secret)))
    e = cryptography.ECIES()
    data = ctx.blob('data', 1, 100)
    x, y = e.encrypt(data, a.public), e.encrypt(data, b.public)
    ctx.require(ctx.no(ctx.same(x[1:65], y[1:65])),
                'another ephemeral key for another recipient')
    ctx.require(ctx.same(e.decrypt(x, a.secret), data), 'opens')
    ctx.require(ctx.same(e.decrypt(y, b.secret), data), 'opens')
    for frame, k in ((x, b), (y, a)):
        _, err = ctx.outcome(e.decrypt, frame, k.secret)
        ctx.require(err is not None, 'not for the other recipient')
    ctx.reach('done')


@job('C26', reach=('renewed', 'kept'),
     bounds='four encryptions (five in the thorough tier) at any later times '
            '(seconds) to one or two recipients, any timeout of 1 s to '
            '100 days or the default')
def renewal(ctx):
    t = NOW // 10 ** 6
    default = ctx.flag('default')
    if default:
        timeout = 3600
    else:
        timeout = ctx.int('timeout', 1, 100 * 86400)
    ctx.set_now(t * 10 ** 6)
    km = cryptography.ECIESKeyManager() if default else \
        cryptography.ECIESKeyManager(timeout)
    e = cryptography.ECIES(km)
    keys = [Party(ctx, 'a'), Party(ctx, 'b')]
    ctx.assume(ctx.no(ctx.same(keys[0].secret, keys[1].secret)))
    seen = []       # (recipient, ephemeral key, first used)
    data = b'data'
    for i in range(5 if ctx.thorough else 4):
        t = t + ctx.int('wait%d' % i, 0, 200 * 86400)
        ctx.set_now(t * 10 ** 6)
        who = ctx.choice('to%d' % i, 2) if i else 0
        frame = e.encrypt(data, keys[who].public)
        eph = frame[1:65]
        known = False
        for w, old, made in seen:
            if ctx.is_true(ctx.same(old, eph)):
                known = True
                ctx.require(w == who, 'not shared between recipients')
                ctx.require(t - made <= timeout,
                            'replaced once the timeout has passed')
                ctx.reach('kept')
        if not known:
            if i:
                ctx.reach('renewed')
            seen.append((who, eph, t))


@job('C26', reach=('opened', 'refused'),
     params={n: {'name': n} for n in ('RandVal', 'FindNode', 'PushResource',
                                      'SubtaskPayment', 'Hello')},
     bounds='messages of five types through the two shortcuts, any keys')
def shortcut(ctx, name):
    sender, k = Party(ctx, 'sender'), Party(ctx, 'recipient')
    other = Party(ctx, 'other')
    m = Builder(ctx).valid('m', name)
    data = shortcuts.dump(m, sender.secret, k.public)
    secret = other.secret if ctx.flag('wrong') else k.secret
    got, e = ctx.outcome(shortcuts.load, data, secret, sender.public, False)
    good = ctx.either(ctx.same(secret, k.secret), name in NEVER_ENCRYPTED)
    if e is None:
        ctx.require(good, 'opens with the right key only')
        ctx.require(same_message(ctx, got, m), 'the same message')
        ctx.reach('opened')
    else:
        ctx.require(ctx.no(good), 'opens with the right key')
        ctx.require(isinstance(e, exceptions.DecryptionError),
                    'a decryption error')
        ctx.reach('refused')
    if name in NEVER_ENCRYPTED:
        ctx.reach('refused')


# -- C36 -------------------------------------------------------------------------

def verdict(ctx, f, a, good, error=exceptions.InvalidSignature):
    r, e = ctx.outcome(f, *a)
    if e is None:
        ctx.require(r is True, 'true')
        ctx.require(good, 'only what that key signed verifies')
        ctx.reach('verified')
    else:
        ctx.require(isinstance(e, error), 'refused with the right error')
        ctx.require(ctx.no(good), 'what the key signed verifies')
        ctx.reach('refused')


def data_of(ctx, name, kind):
    if not ctx.flag(name + '?'):
        return b''
    return ctx.blob(name, 0, 1000) if kind == 'blob' else \
        ctx.bytes(name, 4)


@job('C36', reach=('verified', 'refused'),
     bounds='any two keys, any two data (opaque of 0..1000 bytes, any 4 '
            'bytes, none)')
def signatures(ctx):
    k, other = Party(ctx, 'signer'), Party(ctx, 'verifier')
    kind = ctx.pick('kind', ['blob', 'bytes'])
    a, b = data_of(ctx, 'signed', kind), data_of(ctx, 'verified', kind)
    sig = cryptography.ecdsa_sign(k.secret, a)
    ctx.require(isinstance(sig, bytes) and len(sig) == 65, '65 bytes')
    verdict(ctx, cryptography.ecdsa_verify, (other.public, sig, b),
            ctx.all(ctx.same(k.secret, other.secret), ctx.same(a, b)))


@job('C36', reach=('refused',),
     bounds='signatures of any 0..130 bytes, one byte of a right one '
            'replaced by any other (bytes 0, 31, 32, 63, 64), right ones cut '
            'or extended')
def forged(ctx):
    k = Party(ctx, 'signer')
    data = ctx.blob('data', 0, 1000)
    sig = cryptography.ecdsa_sign(k.secret, data)
    how = ctx.pick('how', ['any', 'byte', 'cut', 'longer', 'front', 'none'])
    if how == 'any':
        sig = ctx.blob('sig', 0, 130)
    elif how == 'byte':
        i = ctx.pick('at', [0, 31, 32, 63, 64])
        new = ctx.bytes('new', 1)
        ctx.assume(ctx.no(ctx.same(new, sig[i:i + 1])))
        sig = sig[:i] + new + sig[i + 1:]
    elif how == 'cut':
        sig = sig[:-1]
    elif how == 'longer':
        sig = sig + b'\0'
    elif how == 'front':
        sig = b'\0' + sig
    else:
        sig = ctx.pick('none', [b'', None])
    verdict(ctx, cryptography.ecdsa_verify, (k.public, sig, data), False)


@job('C36', reach=('accepted', 'refused'),
     bounds='keys of every length 0..200')
def key_length(ctx):
    key = ctx.blob('key', 0, 200)
    r, e = ctx.outcome(cryptography.verify_pubkey, key)
    if e is None:
        ctx.require(len(key) == 64, 'accepted only with 64 bytes')
        ctx.reach('accepted')
    else:
        ctx.require(isinstance(e, exceptions.InvalidKeys), 'invalid keys')
        ctx.require(len(key) != 64, 'refused only with another length')
        sig = cryptography.ecdsa_sign(Party(ctx, 'k').secret, b'data')
        _, e = ctx.outcome(cryptography.ecdsa_verify, key, sig, b'data')
        ctx.require(isinstance(e, exceptions.InvalidKeys),
                    'also by verification')
        ctx.reach('refused')


@job('C36', reach=('done',), bounds='any key pair')
def pairs(ctx):
    k = Party(ctx, 'k')
    ctx.require(ctx.same(cryptography.privtopub(k.secret), k.public),
                'the matching public key')
    pair = cryptography.ECCx(k.secret)
    ctx.require(ctx.same(pair.raw_pubkey, k.public), 'public key of a pair')
    ctx.require(ctx.same(pair.raw_privkey, k.secret),
                'private key of a pair')
    ctx.require(pair.has_valid_keys() is True, 'a valid pair')
    ctx.reach('done')


@job('C36', reach=('done',), bounds='a new key pair')
def new_pair(ctx):
    pair = cryptography.ECCx(None)
    ctx.require(len(pair.raw_privkey) == 32, '32 bytes')
    ctx.require(ctx.same(cryptography.privtopub(pair.raw_privkey),
                         pair.raw_pubkey), 'the matching public key')
    data = ctx.blob('data', 0, 100)
    ctx.require(pair.verify(pair.sign(data), data) is True, 'own signature')
    ctx.reach('done')


@job('C36', reach=('verified', 'refused'),
     bounds='any two key pairs, any two data, signatures by either way')
def pair_signatures(ctx):
    k, other = Party(ctx, 'signer'), Party(ctx, 'verifier')
    kind = ctx.pick('kind', ['blob', 'bytes'])
    a, b = data_of(ctx, 'signed', kind), data_of(ctx, 'verified', kind)
    how = ctx.pick('how', ['pair', 'key', 'back'])
    pair = cryptography.ECCx(k.secret)
    good = ctx.all(ctx.same(k.secret, other.secret), ctx.same(a, b))
    if how == 'key':
        sig = cryptography.ecdsa_sign(k.secret, a)
    else:
        sig = pair.sign(a)
    ctx.require(len(sig) == 65, '65 bytes')
    if how == 'back':
        verdict(ctx, cryptography.ecdsa_verify, (other.public, sig, b), good)
    else:
        verdict(ctx, cryptography.ECCx(other.secret).verify, (sig, b), good)


@job('C36', reach=('refused',),
     bounds='signatures of every length 0..130, right ones cut or extended')
def pair_lengths(ctx):
    k = Party(ctx, 'k')
    pair = cryptography.ECCx(k.secret)
    data = ctx.blob('data', 0, 100)
    how = ctx.pick('how', ['any', 'cut', 'longer'])
    if how == 'any':
        sig = ctx.blob('sig', 0, 130)
    else:
        sig = pair.sign(data)
        sig = sig[:-1] if how == 'cut' else sig + b'\0'
    verdict(ctx, pair.verify, (sig, data), False)


@job('C36', reach=('valid', 'invalid'), bounds='any two keys')
def mixed_pair(ctx):
    """A pair whose halves belong to different keys is not valid."""
    k, other = Party(ctx, 'a'), Party(ctx, 'b')
    pair = cryptography.ECCx(k.secret)
    pair.pubkey_x, pair.pubkey_y = other.public[:32], other.public[32:]
    r = pair.has_valid_keys()
    ctx.require(ctx.iff(r, ctx.same(k.secret, other.secret)),
                'valid only when the halves belong together')
    ctx.reach('valid' if r else 'invalid')
