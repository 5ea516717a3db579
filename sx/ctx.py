"""Symbolic inputs and their concretisation."""
import enum
import hashlib
import ipaddress
import uuid

from . import models, rope
from .api import NOW, Api
from .rope import Atom, IntC, blob, mk_bytes, mk_str
from .values import (SymBool, SymInt, is_sym, mk_bool, mk_int, mk_p, zand,
                     zbool, zor)
from .z3env import z3

# environment choices that the real code makes by itself
ENV = ('cbor', 'point', 'recover', 'vrs')


class SymCtx(Api):
    symbolic = True

    def __init__(self, ex, tier, params):
        self.ex = ex
        self.tier = tier
        self.params = params
        self.sample_limit = 40
        # None: texts and bytes may be hashed; True: numbers too
        self.hash_ok = None
        self.keyed = False      # was anything symbolic hashed?
        self.inputs = []        # (name, kind, data)
        self.names = {}
        self.interned = {}
        self.memo = {}
        self.valued = {}
        self.hashed = {}
        self.fresh_keys = []
        self.blob_bytes = []
        self.records = []
        self.uuids = []
        self.events = []
        self.env = False        # took an environment choice
        self.now_us = NOW

    # -- inputs ---------------------------------------------------------

    def put(self, name, kind, *data):
        name = self.unique(name)
        self.inputs.append((name, kind, data))
        return name

    def peek(self, name):
        """The name the next input called so will have."""
        n = self.names.get(name, 0)
        return name if n == 0 else '%s#%d' % (name, n)

    def choice(self, name, n):
        if n == 1:
            self.put(name, 'const', 0)
            return 0
        i, _ = self.ex.choose(self.peek(name), n)
        self.put(name, 'const', i)
        return i

    def int(self, name, lo=None, hi=None):
        z = z3.Int('in:' + self.peek(name))
        self.put(name, 'int', z)
        if lo is not None:
            self.ex.assume(z >= lo)
        if hi is not None:
            self.ex.assume(z <= hi)
        return mk_int(z)

    def bool(self, name):
        z = z3.Bool('in:' + self.peek(name))
        self.put(name, 'bool', z)
        return SymBool(z)

    def bytes(self, name, n):
        """n bytes, every value of them."""
        z = z3.Int('in:' + self.peek(name))
        self.put(name, 'bytes', z, n)
        if n == 0:
            return b''
        self.ex.assume(z3.And(z >= 0, z < 256 ** n))
        return mk_bytes([IntC(z, n)])

    def bits(self, name, n, positions):
        """n bits as bytes, of which those at positions are symbolic."""
        bits = [0] * n
        zs = []
        real = self.put(name, 'bits', zs, n)
        for p in positions:
            b = z3.Bool('in:%s.%d' % (real, p))
            zs.append((p, b))
            bits[p] = b
        return mk_bytes([rope.BitsC(bits)])

    def blob(self, name, lo, hi):
        """Opaque bytes: only compared as a whole."""
        z = z3.Int('in:' + self.peek(name))
        a = blob('b', z, lo if lo == hi else None, lo, hi)
        self.put(name, 'blob', z, a)
        return mk_bytes([a]) if hi else b''

    def text(self, name, lo, hi):
        """Opaque text of letters g-z: only compared as a whole."""
        z = z3.Int('in:' + self.peek(name))
        a = blob('s', z, lo if lo == hi else None, lo, hi)
        self.put(name, 'text', z, a)
        return mk_str([a]) if hi else ''

    def decimal(self, name, lo, hi):
        """Decimal text of an integer lo <= n <= hi (0 <= lo)."""
        return rope_text(self.int(name, lo, hi))

    def ip(self, name):
        z = z3.Int('in:' + self.peek(name))
        self.ex.assume(z3.And(z >= 0, z < 1 << 32))
        a = Atom('ipstr', (z,), None, None)
        self.ex.add(z3.And(a.lenz >= 7, a.lenz <= 15))
        self.put(name, 'ip', z)
        return mk_str([a])

    def uuid_text(self, name, node=None):
        """Canonical text of an arbitrary UUID (with the given node)."""
        real = self.peek(name)
        hi = z3.Int('in:' + real + '.hi')
        self.ex.assume(z3.And(hi >= 0, hi < 1 << 80))
        if node is None:
            low = z3.Int('in:' + real + '.node')
            self.ex.assume(z3.And(low >= 0, low < 1 << 48))
            node = SymInt(low, nbits=48)
            self.put(name, 'uuid', hi, low)
        else:
            self.put(name, 'uuidhi', hi)
        return mk_str([Atom('uuidstr', (
            mk_bytes([IntC(hi, 10)]), node), 36)])

    def key(self, name):
        """A private key."""
        z = z3.Int('in:' + self.peek(name))
        self.ex.assume(z3.And(z >= 0, z < 1000))
        self.put(name, 'key', z)
        return mk_bytes([Atom('priv', (z,), 32)])

    # -- clock and other nondeterminism -------------------------------------

    def clock(self):
        return self.now_us

    def set_now(self, us):
        self.now_us = us

    def fork(self, tag, n):
        if tag in ENV:
            self.env = True
        return self.ex.choose(self.ex.name(tag), n)[0]

    def record(self, kind, value):
        self.records.append((kind, value))

    def garbage(self):
        return 0

    # -- claims -------------------------------------------------------------

    def assume(self, c):
        self.ex.assume(truth(c))

    def same(self, a, b):
        """Equal in value and type, all the way down."""
        return mk_bool(strict(a, b))

    def all(self, *cs):
        return mk_bool(zand([truth(c) for c in cs]))

    def either(self, *cs):
        return mk_bool(zor([truth(c) for c in cs]))

    def no(self, c):
        c = truth(c)
        return (not c) if isinstance(c, bool) else mk_bool(z3.Not(c))

    def iff(self, a, b):
        a, b = truth(a), truth(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return mk_bool(zbool(a) == zbool(b))

    def implies(self, a, b):
        return self.either(self.no(a), b)

    def require(self, c, label):
        self.events.append('require ' + label)
        self.ex.require(truth(c), label)

    def reach(self, label):
        self.events.append('reach ' + label)
        if not self.ex.replaying:
            self.ex.need_model()
            self.reached.add(label)

    def note(self, text):
        self.events.append('note ' + text)

    def is_true(self, c):
        """Decides a condition (forks)."""
        return bool(c)

    def count_bits(self, data):
        """Number of set bits of a byte string."""
        v = rope.value_of(rope.chunks_of(data))
        if type(v) is int:
            return bin(v).count('1')
        z = z3.IntVal(0)
        for b in v.get_bits():
            z = z + (b if type(b) is int else z3.If(b, 1, 0))
        return mk_int(z)


def strict(a, b):
    """z3 Bool or Python bool: same value and type; dictionaries unordered."""
    if a is b:
        return True
    k = rope.kind(a)
    if k != rope.kind(b):
        return False
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        if a.__class__ is not b.__class__:
            return False
    if k == 'list':
        if len(a) != len(b):
            return False
        return zand_lazy(strict(x, y) for x, y in zip(a, b))
    if k == 'dict':
        if len(a) != len(b):
            return False
        parts = []
        for x in dict.keys(a):
            r = models.scan(b, x)
            if r is None:
                return False
            parts.append(strict(dict.__getitem__(a, x),
                                dict.__getitem__(b, r[0])))
        return zand_lazy(parts)
    if k == 'obj':
        if a.__class__ is not b.__class__:
            return False
        return truth(a == b)
    return rope.deq(a, b)


def zand_lazy(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        out.append(p)
    return zand(out)


def truth(c):
    """Python bool or z3 Bool of any object's truth."""
    t = type(c)
    if t is SymBool:
        return c.p
    if t is bool:
        return c
    if is_sym(c):
        return mk_p(c != 0) if t is SymInt else bool(c)
    return bool(c)


def rope_text(n):
    return models.to_str(n)


# -- concretisation -------------------------------------------------------------

LETTERS = 'ghijklmnopqrstuvwxyz'


class Concretiser:
    def __init__(self, ctx, model, variant=0):
        self.ctx = ctx
        self.model = model
        self.variant = variant
        self.lits = {}
        for (dom, v), i in ctx.interned.items():
            self.lits[dom, i] = v
        self.made = {}
        self.used = set(v for (dom, v) in ctx.interned)

    def num(self, z):
        if isinstance(z, int):
            return z
        return self.model.eval(z, model_completion=True).as_long()

    def truth(self, z):
        if isinstance(z, bool):
            return z
        return z3.is_true(self.model.eval(z, model_completion=True))

    def opaque(self, dom, z, atom):
        i = self.num(z)
        if (dom, i) in self.lits:
            return self.lits[dom, i]
        n = atom.n if atom.n is not None else self.num(atom.lenz)
        if i == 0 or n == 0:
            return '' if dom == 's' else b''
        key = (dom, i)
        if key in self.made:
            return self.made[key]
        if atom.valbits is not None and dom == 'b':
            v = 0
            for b in atom.valbits:
                v = v * 2 + (1 if (b if isinstance(b, int)
                                   else self.truth(b)) else 0)
            r = v.to_bytes(n, 'big')
        else:
            k = 0
            while True:
                r = self.letters(k, n)
                if dom == 'b':
                    r = r.encode()
                    if self.variant == 1:
                        r = bytes(255 - x + 100 for x in r)
                    r = bytearray(r)
                    for idz, pos, byte in self.ctx.blob_bytes:
                        at = self.num(pos)
                        if self.num(idz) == i and 0 <= at < n:
                            r[at] = self.num(byte)
                    r = bytes(r)
                k += 1
                if r not in self.used or k > 20 ** min(n, 3):
                    break
        self.used.add(r)
        self.made[key] = r
        return r

    @staticmethod
    def letters(k, n):
        out = []
        for _ in range(min(n, 8)):
            out.append(LETTERS[-1 - k % 20])
            k //= 20
        return LETTERS[-1] * (n - len(out)) + ''.join(reversed(out))

    def value(self, kind, data):
        if kind == 'const':
            return data[0]
        if kind == 'int':
            return self.num(data[0])
        if kind == 'bool':
            return self.truth(data[0])
        if kind == 'bytes':
            return self.num(data[0]).to_bytes(data[1], 'big')
        if kind == 'bits':
            v = 0
            for p, b in data[0]:
                if self.truth(b):
                    v |= 1 << (data[1] - 1 - p)
            return v.to_bytes(data[1] // 8, 'big')
        if kind == 'blob':
            return self.opaque('b', *data)
        if kind == 'text':
            return self.opaque('s', *data)
        if kind == 'ip':
            return str(ipaddress.IPv4Address(self.num(data[0])))
        if kind == 'uuid':
            n = (self.num(data[0]) << 48) | self.num(data[1])
            return str(uuid.UUID(int=n))
        if kind == 'uuidhi':
            return self.num(data[0]).to_bytes(10, 'big')
        if kind == 'key':
            return hashlib.sha256(b'key%d' % self.num(data[0])).digest()
        raise AssertionError(kind)

    def plain(self, v):
        if isinstance(v, (list, tuple)) and not is_sym(v):
            return [self.plain(x) for x in v]
        if type(v) is SymInt:
            return self.num(v.z)
        return v

    def case(self):
        from .api import to_json
        return {
            'inputs': {n: to_json(self.value(k, d))
                       for n, k, d in self.ctx.inputs},
            'records': [[k, to_json(self.plain(v))]
                        for k, v in self.ctx.records],
        }
