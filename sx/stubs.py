"""Stand-ins for the external libraries, for symbolic execution.

Cryptography is ideal: a signature, ciphertext or shared secret is a value
equal only to the one made from the same inputs.  The codec is a structural
one: an encoding is equal only to that of the same data, in the same order.
"""
import enum
import hashlib
import os
import sys
import types

from . import models, rope
from .rope import (Atom, Lit, Part, SymBytes, SymStr, chunks_of, deq,
                   is_bytes_like, is_str_like, mk_bytes, mk_str, total_len)
from .values import (CUR, Sym, SymBool, SymFloat, SymInt, decide, is_sym,
                     mk_bool, mk_int, mk_p, unsupported, zand, zfresh_bool,
                     zfresh_int, zor)
from .z3env import z3

ATOMIC = (int, str, bytes, bool, float, type(None))


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    for v in attrs.values():
        if isinstance(v, (type, types.FunctionType)):
            v.__module__ = name
    sys.modules[name] = m
    models.INSTRUMENTED.add(name)
    return m


def known_length(x):
    n = total_len(chunks_of(x))
    return n if type(n) is int else None


def length_is(x, n):
    m = total_len(chunks_of(x))
    return m == n if type(m) is int else decide(m == n)


# -- cbor --------------------------------------------------------------------

class CborTag:
    def __init__(self, tag=None, value=None):
        self.tag = tag
        self.value = value

    def __eq__(self, other):
        return isinstance(other, CborTag) and \
            self.tag == other.tag and self.value == other.value


class Tagged:
    """A tag inside an encoding (frozen)."""

    def __init__(self, tag, value):
        self.tag = tag
        self.value = value

    def __eq__(self, o):
        return type(o) is Tagged and self.tag == o.tag and mk_bool(
            deq(self.value, o.value))


class FrozenMap(tuple):
    """The entries of an encoded map, in order."""

    def __eq__(self, o):
        if type(o) is not FrozenMap or len(o) != len(self):
            return False
        return mk_bool(zand(deq(list(x), list(y))
                            for x, y in zip(self, o)))


class FrozenList(tuple):
    pass


def freeze(x):
    t = type(x)
    if t in ATOMIC or issubclass(t, (SymBool, SymInt, SymFloat, SymBytes,
                                     SymStr)):
        return x
    if issubclass(t, Sym):
        raise Exception("don't know how to cbor serialize object of type %s",
                        x.__class__)
    if isinstance(x, bool):
        return x
    if isinstance(x, str):
        return rope.plain_str(x)
    if isinstance(x, bytes):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return FrozenList(freeze(y) for y in x)
    if isinstance(x, dict):
        return FrozenMap((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, float):
        return float(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, CborTag):
        return Tagged(x.tag, freeze(x.value))
    raise Exception("don't know how to cbor serialize object of type %s", t)


def thaw(x):
    t = type(x)
    if t is FrozenList:
        return [thaw(y) for y in x]
    if t is FrozenMap:
        d = {}
        for k, v in x:
            k = thaw(k)
            if is_sym(k):
                models.dict_store(d, k, thaw(v))
            else:
                d[k] = thaw(v)       # TypeError for unhashable keys
        return d
    if t is Tagged:
        v = thaw(x.value)
        return tagify(v, x.tag)
    return x


def tagify(v, tag):
    import datetime
    import re
    if tag == 1:
        return models.call(datetime.datetime.utcfromtimestamp, v)
    if tag == 35:
        return models.call(re.compile, v)
    return CborTag(tag, v)


def plain(x):
    """No symbolic value inside a frozen tree."""
    t = type(x)
    if t in (FrozenList, FrozenMap):
        return all(plain(y) if t is FrozenList else
                   plain(y[0]) and plain(y[1]) for y in x)
    if t is Tagged:
        return plain(x.value)
    return not is_sym(x)


def cbor_dumps(ob, sort_keys=False):
    if sort_keys:
        unsupported('cbor with sorted keys')
    return mk_bytes([Atom('cbor', (freeze(ob),))])


_real = {}


def real_cbor():
    if 'cbor' not in _real:
        import importlib.util
        for p in sys.path:
            f = os.path.join(p, 'cbor', 'cbor.py')
            if os.path.isfile(f):
                spec = importlib.util.spec_from_file_location('_rcbor', f)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                _real['cbor'] = m
                break
    return _real['cbor']


def cbor_loads(data):
    if data is None:
        raise ValueError('got None for buffer to decode in loads')
    if not is_sym(data):
        return real_cbor().loads(data)
    if type(data) is not SymBytes:
        raise TypeError('a bytes-like object is required')
    c = data.chunks[0]
    if type(c) is Atom and c.kind == 'cbor':
        # anything after a complete item is ignored
        return thaw(c.args[0])
    # data that no encoder made
    if CUR.ctx.fork('cbor', 2):
        return CUR.ctx.garbage()
    raise ValueError('undecodable')


# -- coincurve ------------------------------------------------------------------

def key_data(x, n=32):
    """Private keys, as the C library sees them."""
    if not is_bytes_like(x):
        raise TypeError('initializer for ctype must be a bytes')
    return x


class PrivateKey:
    def __init__(self, secret=None, context=None):
        if secret is None:
            k = zfresh_int('freshkey')
            CUR.ex.add(k > 1 << 41)
            for other in CUR.ctx.fresh_keys:
                CUR.ex.add(k != other)
            CUR.ctx.fresh_keys.append(k)
            secret = mk_bytes([Atom('priv', (k,), 32)])
        if not is_bytes_like(secret):
            raise TypeError('initializer for ctype must be a bytes')
        if not length_is(secret, 32):
            raise ValueError('Secret scalar must be between 0 and order.')
        self.secret = secret
        self.public_key = PublicKey(pub_of(secret))

    def sign_recoverable(self, message, hasher='sha256', custom_nonce=None):
        if not is_bytes_like(message):
            raise TypeError('initializer for ctype must be a bytes')
        if hasher is None and not length_is(message, 32):
            raise ValueError('Message hash must be 32 bytes long.')
        tag = 'sig' if hasher is None else 'sigh'
        return mk_bytes([Atom(tag, (self.secret, message), 65)])

    def sign(self, message, hasher='sha256', custom_nonce=None):
        return mk_bytes([Atom('sigd', (self.secret, message), 70)])

    def ecdh(self, public_key):
        return ecdh(self.secret, PublicKey(public_key))

    def format(self):
        return self.secret

    @property
    def ec_secret(self):
        return self.secret

    def __eq__(self, other):
        return self.secret == other.secret

    def __hash__(self):
        return hash(self.secret)


def pub_of(secret):
    """64 bytes of the public key of a private key."""
    return mk_bytes([Atom('pub', (secret,), 64)])


def known_secret(raw):
    """The private key of a (64 byte) public key, if it was made from one."""
    if is_sym(raw) and len(raw.chunks) == 1:
        c = raw.chunks[0]
        if type(c) is Atom and c.kind == 'pub':
            return c.args[0]
    return None


def ecdh(secret, pub):
    other = known_secret(pub.raw)
    if other is None:
        return mk_bytes([Atom('dhx', (secret, pub.raw), 32)])
    return mk_bytes([Atom('dh', (secret, other), 32)])


class PublicKey:
    def __init__(self, data, context=None):
        if not is_bytes_like(data):
            raise TypeError('initializer for ctype must be a bytes')
        n = known_length(data)
        if n == 64 and known_secret(data) is not None:
            self.raw = data          # internal use
            return
        if n is None:
            n = len(data)
        if n == 33 and is_sym(data) and type(data.chunks[0]) is Atom and \
                data.chunks[0].kind == 'cpub':
            self.raw = data.chunks[0].args[0]
            return
        if n == 65:
            head, raw = data[:1], data[1:]
            if decide(mk_p(head == b'\x04')):
                if known_secret(raw) is not None:
                    self.raw = raw
                    return
                # some other bytes: on the curve or not
                if CUR.ctx.fork('point', 2):
                    self.raw = raw
                    return
        raise ValueError(
            'The public key could not be parsed or is invalid.')

    def format(self, compressed=True):
        if compressed:
            return mk_bytes([Atom('cpub', (self.raw,), 33)])
        return mk_bytes([Lit(b'\x04')] + list(chunks_of(self.raw)))

    @classmethod
    def from_secret(cls, secret):
        return PrivateKey(secret).public_key

    @classmethod
    def from_valid_secret(cls, secret):
        return PrivateKey(secret).public_key

    @classmethod
    def from_signature_and_message(cls, signature, message, hasher='sha256',
                                   context=None):
        if not is_bytes_like(signature):
            if signature is None or rope.kind(signature) not in (
                    'str', 'list'):
                raise TypeError('object has no len()')
            raise TypeError('initializer for ctype must be a bytes')
        if not length_is(signature, 65):
            raise ValueError('Signature must be 65 bytes long.')
        if not is_bytes_like(message):
            raise TypeError('initializer for ctype must be a bytes')
        if hasher is None and not length_is(message, 32):
            raise ValueError('Message hash must be 32 bytes long.')
        tag = 'sig' if hasher is None else 'sigh'
        ch = chunks_of(signature)
        if len(ch) == 1 and type(ch[0]) is Atom and ch[0].kind == tag:
            secret, signed = ch[0].args
            if decide(deq(signed, message)):
                return PublicKey(pub_of(secret))
        # recovers some unrelated key, or none
        if CUR.ctx.fork('recover', 2):
            return PublicKey(stranger(signature, message))
        raise Exception('failed to recover ECDSA public key')


def stranger(signature, message):
    """A public key nobody knows the private key of."""
    out = object.__new__(PublicKey)
    out.raw = mk_bytes([Atom('rpub', (signature, message), 64)])
    return out


_init = PublicKey.__init__


def _public_init(self, data, context=None):
    if isinstance(data, PublicKey):
        self.raw = data.raw
        return
    _init(self, data, context)


PublicKey.__init__ = _public_init


def verify_signature(signature, message, public_key, hasher='sha256'):
    unsupported('DER signatures')


# -- pyelliptic ------------------------------------------------------------------

class Cipher:
    def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
        self.key = key
        self.iv = iv
        self.do = do
        if ciphername != 'aes-128-ctr':
            unsupported('cipher ' + ciphername)

    def ciphering(self, data):
        if not is_bytes_like(data):
            raise TypeError('a bytes-like object is required')
        ch = chunks_of(data)
        if not ch:
            return b''
        if len(ch) == 1 and type(ch[0]) is Atom and ch[0].kind == 'ctr':
            k, v, x = ch[0].args
            if decide(zand([deq(k, self.key), deq(v, self.iv)])):
                return x
        n = total_len(ch)
        if type(n) is int:
            return mk_bytes([Atom('ctr', (self.key, self.iv, data), n)])
        return mk_bytes([Atom('ctr', (self.key, self.iv, data), None, n)])

    update = ciphering

    def final(self):
        return b''

    @staticmethod
    def gen_IV(name):
        z = zfresh_int('iv')
        CUR.ex.add(z3.And(z >= 0, z < 1 << 128))
        return mk_bytes([rope.IntC(z, 16)])

    @staticmethod
    def get_all_cipher():
        return ['aes-128-ctr', 'aes-256-cbc']

    @staticmethod
    def get_blocksize(name):
        return 16


class _CipherType:
    def get_blocksize(self):
        return 16


class _OpenSSL:
    def get_cipher(self, name):
        return _CipherType()

    def rand(self, n):
        z = zfresh_int('rand')
        CUR.ex.add(z3.And(z >= 0, z < 256 ** n))
        return mk_bytes([rope.IntC(z, n)])


class ECC:
    def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                 pubkey_y=None, raw_privkey=None, curve='sect283r1'):
        if raw_privkey is None:
            raw_privkey = PrivateKey().secret
            pub = pub_of(raw_privkey)
            pubkey_x, pubkey_y = pub[:32], pub[32:]
        self.privkey = raw_privkey
        self.pubkey_x = pubkey_x
        self.pubkey_y = pubkey_y

    def raw_check_key(self, privkey, pubkey_x, pubkey_y):
        good = pub_of(privkey) == pubkey_x + pubkey_y
        return 0 if decide(mk_p(good)) else -1


def hmac_sha256(k, m):
    if not is_bytes_like(k) or not is_bytes_like(m):
        raise TypeError('a bytes-like object is required')
    return mk_bytes([Atom('hmac', (k, m), 32)])


def equals(a, b):
    return a == b


# -- Ethereum ------------------------------------------------------------------

def sha3_256(data=b''):
    return models.SymHash('sha3_256', data)


def keccak_bytes(data):
    if not is_bytes_like(data):
        raise TypeError('a bytes-like object is required')
    return mk_bytes([Atom('keccak', (data,), 32)])


def keccak(primitive=None, hexstr=None, text=None):
    if text is not None:
        primitive = text.encode()
    elif hexstr is not None:
        primitive = to_bytes(hexstr=hexstr)
    elif is_str_like(primitive):
        raise TypeError('expected an int in first arg, or keyword of hexstr '
                        'or text')
    elif rope.kind(primitive) in ('int', 'bool'):
        primitive = to_bytes(primitive)
    return keccak_bytes(primitive)


def to_bytes(primitive=None, hexstr=None, text=None):
    if hexstr is not None:
        h = strip0x(hexstr)
        n = total_len(chunks_of(h))
        if type(n) is int and n % 2:
            h = '0' + h
        return models.m_unhexlify(h)
    if text is not None:
        return text.encode('utf-8')
    if rope.kind(primitive) == 'int':
        if is_sym(primitive):
            unsupported('minimal bytes of a symbolic integer')
        return to_bytes(hexstr='%x' % primitive)
    if is_bytes_like(primitive):
        return primitive
    raise TypeError('expected an int in first arg, or keyword of hexstr or '
                    'text')


def strip0x(h):
    if decide(mk_p(h[:2] == '0x')):
        return h[2:]
    return h


def is_hex_text(x):
    if not is_str_like(x):
        return False
    for c in chunks_of(strip0x(x)):
        if type(c) is Lit:
            try:
                int('0' + c.v, 16)
            except ValueError:
                return False
        elif type(c) is not rope.Hex and not (
                type(c) is Atom and c.kind == 'addrhex'):
            return False
    return True


def hexstr_if_str(f, x):
    if is_str_like(x):
        h = strip0x(x)
        if not is_sym(h):
            if h and not is_hex_text(h):
                raise ValueError('when sending a str, it must be a hex '
                                 'string. Got: %r' % h)
            return models.call(f, hexstr=x)
        if not is_hex_text(h):
            raise ValueError('when sending a str, it must be a hex string.')
        return models.call(f, hexstr=x)
    return models.call(f, x)


def to_checksum_address(value):
    if is_str_like(value):
        raw = to_bytes(hexstr=value)
    else:
        raw = value
    if not length_is(raw, 20):
        raise ValueError('not an address')
    return mk_str([Atom('ethaddr', (raw,), 42)])


def address_of(pub):
    return to_checksum_address(keccak_bytes(pub)[12:])


class SignedHash(dict):
    @property
    def v(self):
        return self['v']

    @property
    def r(self):
        return self['r']

    @property
    def s(self):
        return self['s']

    @property
    def signature(self):
        return self['signature']


def hash_message(primitive=None, hexstr=None, text=None):
    data = to_bytes(primitive, hexstr=hexstr, text=text)
    n = total_len(chunks_of(data))
    if type(n) is not int:
        n = mk_int(n)
    size = models.to_str(n).encode('ascii')
    return keccak_bytes(mk_bytes(
        [Lit(b'\x19Ethereum Signed Message:\n')] + list(chunks_of(size)) +
        list(chunks_of(data))))


class Account:
    """Signatures: r, s are the halves of one ideal value, v is 27 or 28."""

    @staticmethod
    def signHash(message_hash, private_key):
        if not is_bytes_like(private_key) or not length_is(private_key, 32):
            raise ValueError('The private key must be exactly 32 bytes long')
        if not length_is(message_hash, 32):
            raise ValueError('The message hash must be exactly 32-bytes')
        a = Atom('ethsig', (private_key, message_hash), 64)
        r = mk_bytes([Part(a, 0, 32)])
        s = mk_bytes([Part(a, 32, 64)])
        memo = CUR.ctx.memo
        bits = memo.setdefault('ethv', [])
        bit = zfresh_bool('ethv')
        for other, b in bits:
            p = rope.atom_eq(a, other)
            if p is not False:
                CUR.ex.add(z3.Implies(rope.zbool(p), bit == b))
        bits.append((a, bit))
        v = SymInt(z3.If(bit, z3.IntVal(28), z3.IntVal(27)))
        return SignedHash(v=v, r=LazyInt(r), s=LazyInt(s),
                          messageHash=message_hash)

    sign_hash = signHash

    @staticmethod
    def recoverHash(message_hash, vrs=None, signature=None):
        if vrs is None:
            unsupported('recoverHash of a joined signature')
        v, r, s = vrs
        if not length_is(message_hash, 32):
            raise ValueError('The message hash must be exactly 32-bytes')
        kinds = [rope.kind(x) for x in (v, r, s)]
        if kinds[0] not in ('int', 'bool', 'bytes', 'str') or any(
                k not in ('bytes', 'str', 'int') for k in kinds[1:]):
            raise TypeError('value cannot be converted')
        if 'str' in kinds or kinds[0] == 'bytes' or 'int' in kinds[1:]:
            if CUR.ctx.fork('vrs', 2):
                return address_of(stranger(models.to_repr([v, r, s]),
                                           message_hash).raw)
            raise ValueError('bad signature values')
        for x in (r, s):
            if is_sym(x):
                n = total_len(chunks_of(x))
                if type(n) is not int and decide(n > 32):
                    raise ValueError('bad signature values')
        memo = CUR.ctx.memo
        rc, sc = unpadded(r), unpadded(s)
        if len(rc) == 1 and len(sc) == 1 and type(rc[0]) is Part and \
                type(sc[0]) is Part and rc[0].atom.kind == 'ethsig' and \
                sc[0].atom.kind == 'ethsig' and rc[0].lo == 0 and \
                sc[0].lo == 32:
            key, signed = rc[0].atom.args
            same = [rope.atom_eq(rc[0].atom, sc[0].atom),
                    deq(signed, message_hash)]
            for other, b in memo.get('ethv', []):
                if other is rc[0].atom:
                    same.append(mk_p(v == SymInt(
                        z3.If(b, z3.IntVal(28), z3.IntVal(27)))))
            if decide(zand(same)):
                return address_of(pub_of(key))
            if decide(zand([same[0], zor([
                    mk_p(v == 27), mk_p(v == 28)])])):
                # r comes from a point, so some key is recovered
                CUR.ctx.env = True
                return address_of(stranger(
                    mk_bytes(list(rc) + list(sc)), message_hash).raw)
        if CUR.ctx.fork('recover', 2):
            return address_of(stranger(
                mk_bytes(list(rc) + list(sc)), message_hash).raw)
        raise ValueError('bad signature')

    recover_hash = recoverHash


def unpadded(x):
    """The chunks of a number without its literal leading zeros."""
    out = list(chunks_of(x))
    while out and type(out[0]) is Lit:
        d = out[0].v.lstrip(b'\0')
        if d:
            out[0] = Lit(d)
            break
        out.pop(0)
    return out


class LazyInt:
    """A signature half as an integer: only its bytes are ever used."""

    def __init__(self, data):
        self.data = data

    def to_bytes(self, length, byteorder='big', **k):
        if length < 32 or byteorder != 'big':
            unsupported('unusual encoding of a signature half')
        return b'\0' * (length - 32) + self.data if length > 32 \
            else self.data

    def __getattr__(self, name):
        unsupported('arithmetic on a signature half')


def str_to_bytes(value):
    if is_bytes_like(value):
        return value
    return value.encode('utf-8')


def get_privkey_format(priv):
    n = total_len(chunks_of(priv)) if is_bytes_like(priv) or \
        is_str_like(priv) else None
    if n is None:
        return 'decimal'
    if type(n) is not int:
        n = len(priv)
    if n in (32, 33, 64, 66):
        return {32: 'bin', 33: 'bin_compressed', 64: 'hex',
                66: 'hex_compressed'}[n]
    raise Exception('WIF does not represent privkey')


class _Keccak:
    def __init__(self, data):
        self.data = data

    def digest(self):
        return keccak_bytes(self.data)


def keccak_new(data=b'', digest_bits=256, **k):
    return _Keccak(data)


def install():
    module('cbor', dumps=cbor_dumps, loads=cbor_loads, Tag=CborTag)
    module('coincurve', PrivateKey=PrivateKey, PublicKey=PublicKey,
           verify_signature=verify_signature)
    module('coincurve.keys', PrivateKey=PrivateKey, PublicKey=PublicKey)
    module('pyelliptic', Cipher=Cipher, ECC=ECC, OpenSSL=_OpenSSL(),
           hmac_sha256=hmac_sha256, equals=equals)
    module('bitcoin', get_privkey_format=get_privkey_format)
    u = module('rlp.utils', str_to_bytes=str_to_bytes)
    module('rlp', utils=u).__path__ = []
    module('_pysha3', sha3_256=sha3_256)
    module('sha3', sha3_256=sha3_256)
    k = module('Crypto.Hash.keccak', new=keccak_new)
    h = module('Crypto.Hash', keccak=k)
    h.__path__ = []
    module('Crypto', Hash=h).__path__ = []
    module('eth_utils', to_checksum_address=to_checksum_address,
           keccak=keccak, hexstr_if_str=hexstr_if_str, to_bytes=to_bytes)
    a = module('eth_account.account', Account=Account)
    m = module('eth_account.messages', defunct_hash_message=hash_message)
    module('eth_account', account=a, messages=m,
           Account=Account).__path__ = []
    for c in (PrivateKey, PublicKey):
        c.__module__ = 'coincurve.keys'
    models.INSTRUMENTED.add(__name__)
