"""Symbolic byte strings and texts as sequences of chunks."""
import binascii
import enum
import uuid as _uuid

from .values import (CUR, Sym, SymBool, SymFloat, SymInt, bit_eq, bits_to_z,
                     decide, implied, int_bits, is_sym, mk_bits, mk_bool,
                     mk_int, mk_p,
                     py_int, unsupported, zand, zbool, zfresh_bool,
                     zfresh_int, zint, znot)
from .z3env import z3


# -- chunks ----------------------------------------------------------------------

class Chunk:
    __slots__ = ()


class Lit(Chunk):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class IntC(Chunk):
    """n bytes: big-endian value of the Int term z, 0 <= z < 256**n."""
    __slots__ = ('z', 'n')

    def __init__(self, z, n):
        self.z = z
        self.n = n


class BitsC(Chunk):
    """Bytes given bit by bit, most significant first."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = tuple(bits)


class Hex(Chunk):
    """Lower-case hexadecimal text of a byte chunk."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Dec(Chunk):
    """Decimal text of a non-negative integer, without leading zeros."""
    __slots__ = ('z', 'lenz')

    def __init__(self, z):
        self.z = z
        self.lenz = zfresh_int('declen')
        n = z3.IntVal(20)
        for k in range(19, 0, -1):
            n = z3.If(z < z3.IntVal(10 ** k), z3.IntVal(k), n)
        CUR.ex.add(self.lenz == n)


class Atom(Chunk):
    """Unstructured data: input blobs and ideal cryptographic values.

    Two atoms of the same kind are equal iff their arguments are; atoms of
    different kinds never are.
    """
    __slots__ = ('kind', 'args', 'n', 'lenz', 'valbits')

    def __init__(self, kind, args, n=None, lenz=None):
        self.kind = kind
        self.args = tuple(args)
        self.n = n
        self.valbits = None
        if n is None and lenz is None:
            lenz = zfresh_int('len')
            CUR.ex.add(z3.And(lenz >= 1, lenz <= 1 << 20))
        self.lenz = lenz

    def __repr__(self):
        return 'Atom(%s)' % self.kind


class Part(Chunk):
    __slots__ = ('atom', 'lo', 'hi')

    def __init__(self, atom, lo, hi):
        self.atom = atom
        self.lo = lo
        self.hi = hi


def simp(z):
    if type(z) is int:
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return z


def chunk_len(c):
    t = type(c)
    if t is Lit:
        return len(c.v)
    if t is IntC:
        return c.n
    if t is BitsC:
        return len(c.bits) // 8
    if t is Hex:
        n = chunk_len(c.c)
        return 2 * n
    if t is Dec:
        return c.lenz
    if t is Atom:
        return c.n if c.n is not None else c.lenz
    if t is Part:
        return simp(c.hi - c.lo)
    raise AssertionError(c)


def total_len(chunks):
    n = 0
    for c in chunks:
        n = n + chunk_len(c)
    return simp(n)


# -- blobs -----------------------------------------------------------------------

def len_fn(dom):
    return z3.Function('len_' + dom, z3.IntSort(), z3.IntSort())


def part_fn(dom):
    return z3.Function('part_' + dom, z3.IntSort(), z3.IntSort(),
                       z3.IntSort(), z3.IntSort())


def intern(v):
    """Identity of a literal among blobs of its domain."""
    dom = 's' if isinstance(v, str) else 'b'
    if len(v) == 0:
        return 0
    table = CUR.ctx.interned
    key = (dom, v)
    if key not in table:
        table[key] = -1 - len(table)
        CUR.ex.add(len_fn(dom)(z3.IntVal(table[key])) == len(v))
    return table[key]


def blob(dom, idz, n=None, lo=0, hi=None):
    f = len_fn(dom)(idz)
    ex = CUR.ex
    ex.add((idz == 0) == (f == 0))
    if n is not None:
        ex.add(f == n)
        return Atom('blob' + dom, (idz,), n)
    ex.add(z3.And(f >= lo, f <= (hi if hi is not None else 1 << 20)))
    return Atom('blob' + dom, (idz,), None, f)


def is_blob(a):
    return type(a) is Atom and a.kind in ('blobs', 'blobb')


# -- normal form ------------------------------------------------------------------

def norm(chunks, is_str):
    out = []
    for c in chunks:
        t = type(c)
        if t is IntC:
            if c.n == 0:
                continue
            z = simp(c.z)
            if type(z) is int:
                c = Lit(z.to_bytes(c.n, 'big'))
        elif t is BitsC:
            if not c.bits:
                continue
            if all(type(b) is int for b in c.bits):
                v = 0
                for b in c.bits:
                    v = v * 2 + b
                c = Lit(v.to_bytes(len(c.bits) // 8, 'big'))
        elif t is Dec:
            z = simp(c.z)
            if type(z) is int:
                c = Lit(str(z))
        elif t is Hex and type(c.c) is Lit:
            c = Lit(c.c.v.hex())
        elif t is Part:
            if type(c.lo) is int and type(c.hi) is int and c.lo == c.hi:
                continue
            n = chunk_len(c.atom)
            if type(c.lo) is int and c.lo == 0 and same(c.hi, n):
                c = c.atom
        elif t is Atom and c.n == 0:
            continue
        if type(c) is Lit:
            if is_str and isinstance(c.v, bytes):
                c = Lit(c.v.decode('ascii'))
            elif not is_str and isinstance(c.v, str):
                c = Lit(c.v.encode('ascii'))
            if not c.v:
                continue
        if out:
            p = out[-1]
            if type(p) is Lit and type(c) is Lit:
                out[-1] = Lit(p.v + c.v)
                continue
            if type(p) is Part and type(c) is Part and p.atom is c.atom \
                    and same(p.hi, c.lo):
                out.pop()
                q = Part(p.atom, p.lo, c.hi)
                if type(q.lo) is int and q.lo == 0 and same(
                        q.hi, chunk_len(q.atom)):
                    q = q.atom
                out.append(q)
                continue
            if type(p) is BitsC and type(c) is BitsC:
                out[-1] = BitsC(p.bits + c.bits)
                continue
        out.append(c)
    return out


def same(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int or type(b) is int:
        d = simp(a - b)
        return type(d) is int and d == 0
    if a.eq(b):
        return True
    d = simp(a - b)
    return type(d) is int and d == 0


def mk_bytes(chunks):
    chunks = norm(chunks, False)
    if not chunks:
        return b''
    if len(chunks) == 1 and type(chunks[0]) is Lit:
        return chunks[0].v
    return SymBytes(chunks)


def mk_str(chunks):
    chunks = norm(chunks, True)
    if not chunks:
        return ''
    if len(chunks) == 1 and type(chunks[0]) is Lit:
        return chunks[0].v
    return SymStr(chunks)


def plain_str(v):
    """A str (subclass) instance as plain str."""
    return v if type(v) is str else str.__str__(v)[:] \
        if not isinstance(v, enum.Enum) else str.__getitem__(v, slice(None))


def chunks_of(x):
    """Chunk list of a text or byte string, concrete or symbolic."""
    if issubclass(type(x), SymSeq):
        return x.chunks
    if type(x) is SymByteArray:
        return chunks_of(x.b)
    if isinstance(x, str):
        x = plain_str(x)
        return [Lit(x)] if x else []
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        return [Lit(x)] if x else []
    raise TypeError('not a string')


def is_str_like(x):
    return type(x) is SymStr or (not is_sym(x) and isinstance(x, str))


def is_bytes_like(x):
    return type(x) in (SymBytes, SymByteArray) or (
        not is_sym(x) and isinstance(x, (bytes, bytearray)))


# -- cutting ------------------------------------------------------------------------

def split_chunk(c, k):
    """Split at offset k (0 < k < length)."""
    t = type(c)
    if type(k) is not int:
        if t is Atom:
            return [Part(c, 0, k), Part(c, k, chunk_len(c))]
        if t is Part:
            return [Part(c.atom, c.lo, simp(c.lo + k)),
                    Part(c.atom, simp(c.lo + k), c.hi)]
        k = CUR.ex.concretize(k, 'a slice position')
    if t is Lit:
        return [Lit(c.v[:k]), Lit(c.v[k:])]
    if t is IntC:
        d = z3.IntVal(256 ** (c.n - k))
        return [IntC(z3.simplify(c.z / d), k),
                IntC(z3.simplify(c.z % d), c.n - k)]
    if t is BitsC:
        return [BitsC(c.bits[:8 * k]), BitsC(c.bits[8 * k:])]
    if t is Hex:
        if k % 2:
            unsupported('odd split of hexadecimal text')
        return [Hex(x) for x in split_chunk(c.c, k // 2)]
    if t is Atom:
        if c.kind == 'ethaddr':
            # checksummed address text: '0x' + 40 characters
            if k == 2:
                return [Lit('0x'), Atom('addrhex', c.args, 40)]
        return [Part(c, 0, k), Part(c, k, chunk_len(c))]
    if t is Part:
        return [Part(c.atom, c.lo, simp(c.lo + k)),
                Part(c.atom, simp(c.lo + k), c.hi)]
    if t is Dec:
        if k != 1:
            unsupported('split of decimal text')
        # the first digit is not 0 as the number is not below 10
        return [Atom('digit1', (c.z,), 1),
                Atom('digits', (c.z,), None, simp(c.lenz - 1))]
    raise AssertionError(t)


def cut(chunks, off):
    """(left, right) at offset off >= 0 (clamped to the length)."""
    left = []
    chunks = list(chunks)
    i = 0
    while i < len(chunks):
        if type(off) is int and off <= 0:
            break
        c = chunks[i]
        n = chunk_len(c)
        if type(n) is int and type(off) is int:
            whole = off >= n
        else:
            whole = decide(mk_p(mk_bool(_z(off) >= _z(n))))
        if whole:
            left.append(c)
            off = simp(off - n)
            i += 1
            continue
        if type(off) is not int and decide(mk_p(mk_bool(off <= 0))):
            break
        a, b = split_chunk(c, off)
        left.append(a)
        chunks[i] = b
        break
    return left, chunks[i:]


def cut_end(chunks, k):
    """(left, right) with right the last k (concrete) elements, clamped."""
    right = []
    chunks = list(chunks)
    while chunks:
        if type(k) is int and k <= 0:
            break
        c = chunks[-1]
        n = chunk_len(c)
        if type(n) is int and type(k) is int:
            whole = k >= n
        else:
            whole = decide(mk_p(mk_bool(_z(k) >= _z(n))))
        if whole:
            right.insert(0, c)
            k = simp(k - n)
            chunks.pop()
            continue
        if type(k) is not int and decide(mk_p(mk_bool(k <= 0))):
            break
        a, b = split_chunk(c, simp(n - k))
        right.insert(0, b)
        chunks[-1] = a
        break
    return chunks, right


def _z(x):
    return z3.IntVal(x) if type(x) is int else x


def slice_chunks(chunks, lo, hi):
    """Python slice semantics with step 1; lo, hi None or int-like."""
    def val(x):
        if x is None:
            return None
        n = py_int(x)
        if n is not None:
            return n
        z = zint(x)
        if z is None:
            raise TypeError('slice indices must be integers')
        return simp(z)
    lo, hi = val(lo), val(hi)

    def neg(x):
        if type(x) is int:
            return x < 0
        return decide(mk_p(mk_bool(x < 0)))

    # split by position from the left or from the right
    def split(ch, p):
        if neg(p):
            return cut_end(ch, simp(0 - p))
        return cut(ch, p)

    if lo is None:
        if hi is None:
            return list(chunks)
        return split(chunks, hi)[0]
    if hi is None:
        return split(chunks, lo)[1]
    nlo, nhi = neg(lo), neg(hi)
    if not nlo and not nhi:
        left = cut(chunks, hi)[0]
        return cut(left, lo)[1]
    if nlo and nhi:
        right = cut_end(chunks, simp(0 - lo))[1]
        return cut_end(right, simp(0 - hi))[0]
    n = total_len(chunks)
    if not nlo:     # hi negative
        right = cut(chunks, lo)[1]
        # end position is len + hi; it may lie before lo
        end = simp(_z(n) + hi - lo)
        if type(end) is int:
            if end <= 0:
                return []
        elif decide(mk_p(mk_bool(end <= 0))):
            return []
        return cut_end(right, simp(0 - hi))[0]
    # lo negative, hi not
    start = simp(_z(n) + lo)
    if type(start) is int:
        start = max(start, 0)
    elif decide(mk_p(mk_bool(start < 0))):
        start = 0
    left = cut(chunks, hi)[0]
    return cut(left, start)[1]


# -- equality --------------------------------------------------------------------------

def public_part(base, c):
    """A few bytes of a public key: anything may equal them."""
    if base.kind != 'pub':
        return False
    n = chunk_len(c)
    return type(n) is int and n <= 8


def piece_eq(a, b):
    """Equality of two chunks of equal length (or two atoms)."""
    ta, tb = type(a), type(b)
    if a is b:
        return True
    if ta is Lit and tb is Lit:
        return as_same(a.v, b.v)
    order = {Lit: 0, IntC: 1, BitsC: 2, Hex: 3, Dec: 4, Part: 5, Atom: 6}
    if order[ta] > order[tb]:
        a, b, ta, tb = b, a, tb, ta
    if ta is Lit:
        v = a.v
        if tb is IntC:
            return b.z == int.from_bytes(raw(v), 'big')
        if tb is BitsC:
            bits = int_bits(int.from_bytes(raw(v), 'big'))
            bits += [0] * (len(b.bits) - len(bits))
            return zand(bit_eq(x, y)
                        for x, y in zip(reversed(bits), b.bits))
        if tb is Hex:
            try:
                u = binascii.unhexlify(v)
            except (ValueError, binascii.Error):
                return False
            if u.hex() != (v if isinstance(v, str) else v.decode('latin-1')):
                return False
            return chunks_eq([Lit(u)] if u else [], [b.c])
        if tb is Dec:
            s = v if isinstance(v, str) else v.decode('latin-1')
            if not (s.isascii() and s.isdigit()) or str(int(s)) != s:
                return False
            return b.z == int(s)
        if tb is Atom:
            if is_blob(b):
                return b.args[0] == intern(v)
            if (b.kind, raw(v)) in CUR.ctx.hashed:
                return deq(CUR.ctx.hashed[b.kind, raw(v)], b.args[0])
            if b.kind == 'uuidstr':
                return uuid_lit_eq(b, v)
            if b.kind == 'ipstr':
                return ip_lit_eq(b, v)
            if b.kind in ('digit1', 'digits') and raw(v).isdigit() and (
                    b.kind == 'digits' or raw(v) != b'0'):
                unsupported('comparison of some digits')
            return False
        if tb is Part:
            return part_lit_eq(b, v)
    if ta is IntC:
        if tb is IntC:
            return a.z == b.z
        if tb is BitsC:
            return a.z == bits_to_z(tuple(reversed(b.bits)))
        if tb in (Atom, Part):
            base = b if tb is Atom else b.atom
            if is_blob(base) or public_part(base, b):
                return a.z == value_of([b]).z
            return False
        return False
    if ta is BitsC:
        if tb is BitsC:
            return zand(bit_eq(x, y) for x, y in zip(a.bits, b.bits))
        if tb in (Atom, Part):
            base = b if tb is Atom else b.atom
            if is_blob(base) or public_part(base, b):
                v = value_of([b]).get_bits()
                v = v + [0] * (len(a.bits) - len(v))
                return zand(bit_eq(x, y)
                            for x, y in zip(reversed(v), a.bits))
            return False
        return False
    if ta is Hex:
        if tb is Hex:
            return chunks_eq([a.c], [b.c])
        return False
    if ta is Dec:
        return a.z == b.z if tb is Dec else False
    if ta is Part:
        if tb is Part:
            if a.atom.kind != b.atom.kind:
                return False
            if is_blob(a.atom):
                f = part_fn(a.atom.kind[-1])
                return zand([f(a.atom.args[0], _z(a.lo), _z(a.hi)) ==
                             f(b.atom.args[0], _z(b.lo), _z(b.hi))])
            if same(a.lo, b.lo) and same(a.hi, b.hi):
                return part_tok_eq(a, atom_eq(a.atom, b.atom))
            return False
        if is_blob(a.atom) and is_blob(b):
            f = part_fn(a.atom.kind[-1])
            return f(a.atom.args[0], _z(a.lo), _z(a.hi)) == b.args[0]
        return False
    return atom_eq(a, b)


def as_same(x, y):
    return raw(x) == raw(y)


def raw(v):
    return v if isinstance(v, bytes) else v.encode('utf-8', 'surrogatepass')


def part_tok_eq(part, whole):
    n = chunk_len(part)
    if type(n) is int and n < 4 and whole is not True:
        b = zfresh_bool('collision')
        if whole is not False:
            CUR.ex.add(z3.Implies(whole, b))
        return b
    return whole


def part_lit_eq(p, v):
    if is_blob(p.atom):
        if p.atom.kind == 'blobs':
            return False       # opaque text has no proper literal part
        n = chunk_len(p)
        if type(n) is int and n <= 4 and p.atom.n is not None:
            return value_of([p]).z == int.from_bytes(raw(v), 'big')
        return False
    if public_part(p.atom, p):
        return value_of([p]).z == int.from_bytes(raw(v), 'big')
    n = chunk_len(p)
    if type(n) is int and n < 4:
        key = (id(p.atom), str(p.lo), str(p.hi), v)
        memo = CUR.ctx.memo
        if key not in memo:
            memo[key] = (p.atom, zfresh_bool('tokbyte'))
        return memo[key][1]
    return False


def uuid_lit_eq(a, v):
    s = v if isinstance(v, str) else v.decode('latin-1')
    try:
        u = _uuid.UUID(s)
    except ValueError:
        return False
    if str(u) != s:
        return False
    hi, node = a.args
    return zand([mk_p(hi == u.bytes[:10]), mk_p(node == u.node)])


def ip_lit_eq(a, v):
    import ipaddress
    try:
        i = ipaddress.IPv4Address(v)
    except ValueError:
        return False
    return zand([a.args[0] == int(i)])


def atom_eq(a, b):
    if a is b:
        return True
    if a.kind != b.kind or len(a.args) != len(b.args):
        return False
    if a.n is not None and b.n is not None and a.n != b.n:
        return False
    if a.kind == 'dh':
        (x, y), (u, v) = a.args, b.args
        p = zand([deq(x, u), deq(y, v)])
        q = zand([deq(x, v), deq(y, u)])
        if p is True or q is True:
            return True
        if p is False:
            return q
        if q is False:
            return p
        return z3.Or(p, q)
    return zand(deq(x, y) for x, y in zip(a.args, b.args))


def chunks_eq(A, B):
    A, B = list(A), list(B)
    la, lb = total_len(A), total_len(B)
    if type(la) is int and type(lb) is int and la != lb:
        return False
    conds = []

    def step(end):
        """Compare the pieces at one end; False when stuck."""
        i = -1 if end else 0
        a, b = A[i], B[i]
        na, nb = chunk_len(a), chunk_len(b)
        if type(na) is int and type(nb) is int:
            if na != nb:
                k = min(na, nb)
                src, n, c = (B, nb, b) if na < nb else (A, na, a)
                if type(c) is Dec:
                    return False
                x, y = split_chunk(c, n - k if end else k)
                if end:
                    src[-1:] = [x, y]
                else:
                    src[0:1] = [x, y]
                a, b = A[i], B[i]
        elif not (type(a) in (Atom, Dec, Part) and type(b) in (
                Atom, Dec, Part, Lit) or type(b) in (Atom, Dec, Part)
                and type(a) is Lit):
            return False
        elif type(a) is Lit or type(b) is Lit:
            if len(A) != 1 or len(B) != 1:
                # only decide for a whole string
                lit, oth = (a, b) if type(a) is Lit else (b, a)
                if type(oth) is Dec:
                    return dec_prefix(end, lit, oth)
                return False
        elif type(a) is not type(b) or (
                type(a) is Atom and a.kind != b.kind) or (
                type(a) is Part and a.atom.kind != b.atom.kind):
            conds.append(False)
            A.clear()
            B.clear()
            return True
        e = piece_eq(a, b)
        conds.append(e)
        if not (type(na) is int and type(nb) is int) and (
                len(A) > 1 or len(B) > 1):
            if type(a) is not Lit and type(b) is not Lit:
                n = simp_eq(na, nb)
                # equal contents have equal lengths
                if e is True:
                    if z3.is_expr(n):
                        CUR.ex.add(n)
                elif e is not False and z3.is_expr(n):
                    CUR.ex.add(z3.Implies(e, n))
                    conds.append(n)
                else:
                    conds.append(n)
        A.pop(i)
        B.pop(i)
        return True

    def dec_prefix(end, lit, dec):
        # digits at the border of a literal facing a decimal chunk
        v = lit.v if isinstance(lit.v, str) else lit.v.decode('latin-1')
        if end:
            k = len(v)
            while k > 0 and v[k - 1].isdigit():
                k -= 1
            digits, rest = v[k:], v[:k]
        else:
            k = 0
            while k < len(v) and v[k].isdigit():
                k += 1
            digits, rest = v[:k], v[k:]
        src, oth = (A, B) if (A[-1 if end else 0] is lit) else (B, A)
        nxt = None
        if len(oth) > 1:
            nxt = oth[-2 if end else 1]
        if not digits:
            conds.append(False)
            A.clear()
            B.clear()
            return True
        if nxt is not None and (type(nxt) is not Lit or (
                nxt.v[-1 if end else 0:][:1]
                if isinstance(nxt.v, str) else 'x').isdigit()):
            return False
        conds.append(piece_eq(Lit(digits), dec))
        if end:
            oth.pop()
            src[-1:] = [Lit(rest)] if rest else []
        else:
            oth.pop(0)
            src[0:1] = [Lit(rest)] if rest else []
        return True

    for X, Y in ((A, B), (B, A)):
        # opaque text has no digits in it
        if len(X) == 1 and type(X[0]) is Atom and X[0].kind == 'blobs' and \
                Y and all(type(c) in (Hex, Dec) for c in Y):
            return zand(_z(chunk_len(c)) == 0 for c in X + Y)
    while A and B:
        if step(False):
            pass
        elif step(True):
            pass
        else:
            return unsupported('comparison of %s with %s' % (
                [type(x).__name__ for x in A], [type(x).__name__ for x in B]))
        if any(c is False for c in conds):
            return False
    for rest in (A, B):
        for c in rest:
            n = chunk_len(c)
            if type(n) is int:
                return False
            conds.append(n == 0)
    return zand(conds)


def simp_eq(a, b):
    if same(a, b):
        return True
    return _z(a) == _z(b)


# -- integer value of bytes ------------------------------------------------------------

def atom_bits(a):
    """Bits (most significant first) of an atom of known length."""
    if a.valbits is None:
        if a.n is None:
            unsupported('integer value of data of unknown length')
        name = CUR.ex.name('bits_' + a.kind)
        a.valbits = [z3.Bool('%s_%d' % (name, i)) for i in range(8 * a.n)]
        group = CUR.ctx.valued.setdefault((a.kind, a.n), [])
        for b in group:
            p = atom_eq(a, b)
            if p is False:
                continue
            CUR.ex.add(z3.Implies(zbool(p), zbool(zand(
                x == y for x, y in zip(a.valbits, b.valbits)))))
        group.append(a)
    return a.valbits


def some_byte(part):
    """One byte of data of unknown length."""
    a = part.atom
    n = chunk_len(part)
    if n != 1 if type(n) is int else not implied(n == 1):
        unsupported('integer value of data of unknown length')
    if a.kind == 'blobb':
        f = z3.Function('byte_b', z3.IntSort(), z3.IntSort(), z3.IntSort())
        z = f(a.args[0], _z(part.lo))
        CUR.ctx.blob_bytes.append((a.args[0], part.lo, z))
    else:
        key = ('byte', id(a), str(part.lo))
        memo = CUR.ctx.memo
        if key not in memo:
            memo[key] = (a, zfresh_int('byte'))
        z = memo[key][1]
    lo, hi = 0, 255
    if a.kind == 'enc' and is_blob(a.args[0]):
        lo, hi = 103, 122
    CUR.ex.add(z3.And(z >= lo, z <= hi))
    return SymInt(z, nbits=8)


def value_of(chunks):
    chunks = norm(chunks, False)
    if not chunks:
        return 0
    if len(chunks) == 1:
        c = chunks[0]
        if type(c) is Lit:
            return int.from_bytes(c.v, 'big')
        if type(c) is IntC:
            return SymInt(c.z, nbits=8 * c.n, chunk=c)
    if any(type(c) is IntC for c in chunks):
        z = z3.IntVal(0)
        n = 0
        for c in chunks:
            k = chunk_len(c)
            if type(k) is not int:
                unsupported('integer value of data of unknown length')
            v = value_of([c])
            z = z * z3.IntVal(256 ** k) + (v if type(v) is int else v.z)
            n += k
        r = mk_int(z)
        if type(r) is SymInt:
            r.nbits = 8 * n
        return r
    bits = []
    for c in chunks:
        if type(c) is Lit:
            for byte in c.v:
                bits += [(byte >> (7 - i)) & 1 for i in range(8)]
        elif type(c) is BitsC:
            bits += c.bits
        elif type(c) is Atom and c.n is None and len(chunks) == 1:
            return some_byte(Part(c, 0, 1))
        elif type(c) is Atom and c.n is not None:
            bits += atom_bits(c)
        elif type(c) is Part:
            if len(chunks) == 1 and (
                    c.atom.n is None or type(c.lo) is not int):
                return some_byte(c)
            if type(c.lo) is not int or type(c.hi) is not int:
                unsupported('integer value of data of unknown length')
            bits += atom_bits(c.atom)[8 * c.lo:8 * c.hi]
        else:
            unsupported('integer value of text')
    r = mk_bits(list(reversed(bits)))
    if type(r) is SymInt and len(chunks) == 1:
        r.chunk = chunks[0]
    return r


# -- string proxies -------------------------------------------------------------------------

class SymSeq(Sym):
    __slots__ = ()

    def length(self):
        n = total_len(self.chunks)
        return n if type(n) is int else mk_int(n)

    def __len__(self):
        n = total_len(self.chunks)
        if type(n) is int:
            return n
        return CUR.ex.concretize(n, 'a length used natively', cap=2000)

    def __bool__(self):
        for c in self.chunks:
            n = chunk_len(c)
            if type(n) is int and n > 0:
                return True
        return decide(mk_p(mk_bool(_z(total_len(self.chunks)) > 0)))

    def __hash__(self):
        if CUR.ctx.hash_ok is not False:
            CUR.ctx.keyed = True
            return 77
        unsupported('hash of symbolic data')

    def __iter__(self):
        n = len(self)
        for i in range(n):
            yield self[i]

    def __getattr__(self, name):
        if hasattr(self.REAL, name):
            unsupported('%s.%s on symbolic data' % (self.REAL.__name__, name))
        raise AttributeError("'%s' object has no attribute '%s'" % (
            self.REAL.__name__, name))

    def __add__(self, o):
        if not self.compatible(o):
            if is_sym(o) or not hasattr(type(o), '__radd__'):
                raise TypeError('can only concatenate like to like')
            return NotImplemented
        return self.make(list(self.chunks) + list(chunks_of(o)))

    def __radd__(self, o):
        if not self.compatible(o):
            return NotImplemented
        return self.make(list(chunks_of(o)) + list(self.chunks))

    def __mul__(self, o):
        n = o.__index__()
        return self.make(list(self.chunks) * max(n, 0))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not self.compatible(o):
            if is_sym(o) or isinstance(o, (bytes, str, int, float, list, dict,
                                           tuple, type(None))):
                return False
            return NotImplemented
        return mk_bool(chunks_eq(self.chunks, chunks_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return mk_bool(z3.Not(r.p))
        return not r

    def __getitem__(self, i):
        if type(i) is slice:
            step = i.step
            if step is not None and py_int(step) == -1 and i.start is None \
                    and i.stop is None:
                return self.reverse()
            if step is not None and py_int(step) != 1:
                unsupported('slice with a step')
            return self.make(slice_chunks(self.chunks, i.start, i.stop))
        n = py_int(i)
        if n is None:
            if zint(i) is None:
                raise TypeError('indices must be integers')
            n = i.__index__()
        if n >= 0:
            part = slice_chunks(self.chunks, n, n + 1)
        else:
            part = slice_chunks(self.chunks, n, n + 1 if n != -1 else None)
        k = total_len(part)
        if type(k) is not int:
            k = CUR.ex.concretize(k, 'index range')
        if k == 0:
            raise IndexError('index out of range')
        return self.element(part)

    def startswith(self, prefix, *a):
        if a:
            unsupported('startswith with positions')
        if type(prefix) is tuple:
            return any(bool(self.startswith(p)) for p in prefix)
        if not self.compatible(prefix):
            raise TypeError('startswith first arg')
        n = total_len(chunks_of(prefix))
        return self[:n if type(n) is int else mk_int(n)] == prefix

    def endswith(self, suffix, *a):
        if a:
            unsupported('endswith with positions')
        if type(suffix) is tuple:
            return any(bool(self.endswith(p)) for p in suffix)
        if not self.compatible(suffix):
            raise TypeError('endswith first arg')
        n = total_len(chunks_of(suffix))
        if type(n) is not int:
            unsupported('endswith of unknown length')
        if n == 0:
            return True
        return self[-n:] == suffix

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not first:
                out += self.chunks
            first = False
            out += chunks_of(x)
        return self.make(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or is_sym(sep):
            unsupported('split on whitespace or symbolic separator')
        parts = [[]]
        left = maxsplit
        for c in self.chunks:
            if type(c) is Lit:
                v = c.v
                while left != 0:
                    k = v.find(sep)
                    if k < 0:
                        break
                    parts[-1].append(Lit(v[:k]))
                    parts.append([])
                    v = v[k + len(sep):]
                    left -= 1
                parts[-1].append(Lit(v))
            else:
                self.no_literal(c, sep)
                parts[-1].append(c)
        return [self.make(p) for p in parts]

    def partition(self, sep):
        parts = self.split(sep, 1)
        if len(parts) == 1:
            return parts[0], self.make([]), self.make([])
        return parts[0], sep, parts[1]

    def no_literal(self, c, sep):
        """Chunks taken not to contain a literal separator."""
        if type(c) in (Hex, Dec):
            s = raw(sep).decode('latin-1')
            if all(x in '0123456789abcdef' for x in s):
                unsupported('search in digits')
            return
        if type(c) is Atom and c.kind in ('blobs',):
            return
        if type(c) is Atom and c.kind == 'uuidstr' and raw(sep) not in (
                b'-',) and not any(x in b'0123456789abcdef-'
                                   for x in raw(sep)):
            return
        unsupported('search in opaque data')

    def __contains__(self, x):
        if type(self) is SymBytes and py_int(x) is not None:
            return any(bool(b == x) for b in self)
        if not self.compatible(x):
            raise TypeError('in <string> requires string')
        if is_sym(x):
            unsupported('search of symbolic data')
        if len(x) == 0:
            return True
        for c in self.chunks:
            if type(c) is Lit:
                if x in c.v:
                    return True
            else:
                self.no_literal(c, x)
        return False

    def count(self, x):
        return len(self.split(x)) - 1

    def find(self, x, *a):
        if a:
            unsupported('find with positions')
        parts = self.split(x, 1)
        if len(parts) == 1:
            return -1
        n = total_len(chunks_of(parts[0]))
        return n if type(n) is int else mk_int(n)

    def index(self, x, *a):
        r = self.find(x, *a)
        if type(r) is int and r == -1:
            raise ValueError('substring not found')
        return r

    def replace(self, old, new, *a):
        if a:
            unsupported('replace with a count')
        parts = self.split(old)
        return self.make([c for i, p in enumerate(parts)
                          for c in ((list(chunks_of(new)) if i else [])
                                    + list(chunks_of(p)))])

    def rstrip(self, chars=None):
        c = self.chunks[-1]
        if type(c) is Lit:
            v = c.v.rstrip(chars)
            out = self.make(list(self.chunks[:-1]) + [Lit(v)])
            if v or not issubclass(type(out), SymSeq):
                return out
            return out.rstrip(chars)
        self._strip_ok(c, chars)
        return self

    def lstrip(self, chars=None):
        c = self.chunks[0]
        if type(c) is Lit:
            v = c.v.lstrip(chars)
            out = self.make([Lit(v)] + list(self.chunks[1:]))
            if v or not issubclass(type(out), SymSeq):
                return out
            return out.lstrip(chars)
        self._strip_ok(c, chars)
        return self

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def _strip_ok(self, c, chars):
        if type(c) in (Hex, Dec):
            s = b'' if chars is None else raw(chars)
            if any(x in b'0123456789abcdef' for x in s):
                unsupported('strip of digits')
            return
        if is_blob(c) and c.kind == 'blobs':
            return
        if type(c) is Atom and c.kind in ('uuidstr', 'ethaddr', 'ipstr'):
            return
        unsupported('strip of opaque data')

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            n = total_len(chunks_of(prefix))
            return self[n if type(n) is int else mk_int(n):]
        return self

    def removesuffix(self, suffix):
        if total_len(chunks_of(suffix)) != 0 and self.endswith(suffix):
            return self[:-total_len(chunks_of(suffix))]
        return self

    def rpartition(self, sep):
        parts = self.split(sep)
        if len(parts) == 1:
            return self.make([]), self.make([]), parts[0]
        head = []
        for i, x in enumerate(parts[:-1]):
            head += (list(chunks_of(sep)) if i else []) + list(chunks_of(x))
        return self.make(head), sep, parts[-1]

    def _padding(self, width, fill):
        if fill is None:
            fill = ' ' if self.REAL is str else b' '
        if not isinstance(fill, self.REAL) or len(fill) != 1:
            raise TypeError('The fill character must be one long')
        n = self.length()
        if bool(n >= width):
            return []
        return [Lit(fill * (width - n).__index__())]

    def ljust(self, width, fill=None):
        return self.make(list(self.chunks) + self._padding(width, fill))

    def rjust(self, width, fill=None):
        return self.make(self._padding(width, fill) + list(self.chunks))

    def zfill(self, width):
        c = self.chunks[0]
        if not (type(c) is Hex or type(c) is Lit and c.v[:1] not in (
                '+', '-', b'+', b'-')):
            unsupported('zfill of opaque data')
        return self.rjust(width, '0' if self.REAL is str else b'0')

    def copy(self):
        return self

    def lower(self):
        for c in self.chunks:
            if type(c) in (Lit, Hex, Dec) or (
                    type(c) is Atom and c.kind in ('uuidstr', 'ipstr')):
                continue
            if type(c) is Atom and c.kind in ('ethaddr', 'addrhex'):
                continue
            unsupported('lower() of opaque text')
        out = []
        for c in self.chunks:
            if type(c) is Lit:
                c = Lit(c.v.lower())
            elif type(c) is Atom and c.kind == 'ethaddr':
                out.append(Lit('0x'))
                c = Hex(c.args[0])
            elif type(c) is Atom and c.kind == 'addrhex':
                c = Hex(c.args[0])
            out.append(c)
        return self.make(out)

    # comparisons by order are not modelled
    def __lt__(self, o):
        if not self.compatible(o):
            if is_sym(o):
                raise TypeError('ordering of unlike types')
            return NotImplemented
        unsupported('ordering of symbolic data')
    __le__ = __gt__ = __ge__ = __lt__


class SymBytes(SymSeq):
    __slots__ = ('chunks',)
    REAL = bytes

    def __init__(self, chunks):
        self.chunks = chunks

    @property
    def __class__(self):
        return bytes

    def __repr__(self):
        return '<sym bytes>'

    def __str__(self):
        unsupported('native str() of symbolic bytes')

    def __bytes__(self):
        unsupported('native bytes() of symbolic bytes')

    make = staticmethod(mk_bytes)

    @staticmethod
    def compatible(o):
        return is_bytes_like(o)

    @staticmethod
    def element(part):
        return value_of(part)

    def reverse(self):
        n = len(self)
        out = []
        for i in range(n - 1, -1, -1):
            out += slice_chunks(self.chunks, i, i + 1)
        return mk_bytes(out)

    def hex(self, *a):
        if a:
            unsupported('hex with a separator')
        return mk_str([hex_chunk(c) for c in self.chunks])

    def decode(self, encoding='utf-8', errors='strict'):
        out = []
        for c in self.chunks:
            if type(c) is Lit:
                out.append(Lit(c.v.decode(encoding, errors)))
            elif type(c) in (Hex, Dec):
                out.append(c)
            elif type(c) is Atom and c.kind == 'enc':
                out.append(c.args[0])
            elif is_blob(c):
                # undecodable bytes, or some opaque text
                if errors == 'strict' and decide(
                        zfresh_bool('undecodable')):
                    raise UnicodeDecodeError(
                        encoding, b'\xff', 0, 1, 'opaque data')
                out.append(decoded_blob(c))
            elif type(c) is Part and is_blob(c.atom) and \
                    c.atom.kind == 'blobb':
                if errors == 'strict' and decide(
                        zfresh_bool('undecodable')):
                    raise UnicodeDecodeError(
                        encoding, b'\xff', 0, 1, 'opaque data')
                out.append(decoded_part(c))
            else:
                unsupported('decode of ' + type(c).__name__)
        return mk_str(out)


def decoded_blob(c):
    f = z3.Function('decoded', z3.IntSort(), z3.IntSort())
    idz = f(c.args[0])
    hi = c.n if c.n is not None else None
    a = blob('s', idz, None, 0, hi)
    if c.n is None:
        CUR.ex.add(a.lenz <= c.lenz)
    return a


def decoded_part(c):
    f = z3.Function('decoded', z3.IntSort(), z3.IntSort())
    part = part_fn('b')(c.atom.args[0], _z(c.lo), _z(c.hi))
    n = chunk_len(c)
    a = blob('s', f(part), None, 0, n if type(n) is int else None)
    if type(n) is not int:
        CUR.ex.add(a.lenz <= n)
    return a


def hex_chunk(c):
    if type(c) is Lit:
        return Lit(c.v.hex())
    return Hex(c)


class SymByteArray(Sym):
    """What bytearray() gives: its content is some bytes, or SymBytes."""
    __slots__ = ('b',)
    made = False

    def __init__(self, b):
        self.b = b
        SymByteArray.made = True

    @property
    def __class__(self):
        return bytearray

    def __copy__(self):
        return SymByteArray(self.b)

    def __deepcopy__(self, memo):
        return SymByteArray(self.b)

    copy = __copy__

    def __repr__(self):
        return '<sym bytearray>'

    def __bytes__(self):
        return bytes(self.b)

    __hash__ = None

    def _join(self, a, b):
        return mk_bytes(list(chunks_of(a)) + list(chunks_of(b)))

    def __iadd__(self, o):
        if not is_bytes_like(o):
            raise TypeError("can't concat to bytearray")
        self.b = self._join(self.b, o)
        return self

    def extend(self, o):
        if is_bytes_like(o):
            self.b = self._join(self.b, o)
        else:
            for x in o:
                self.append(x)

    def append(self, x):
        n = py_int(x)
        if n is not None:
            if not 0 <= n < 256:
                raise ValueError('byte must be in range(0, 256)')
            self.b = self._join(self.b, bytes([n]))
            return
        z = zint(x)
        if z is None:
            raise TypeError('an integer is required')
        if decide(z3.Or(z < 0, z > 255)):
            raise ValueError('byte must be in range(0, 256)')
        self.b = mk_bytes(list(chunks_of(self.b)) + [IntC(z, 1)])

    def clear(self):
        self.b = b''

    def insert(self, i, x):
        unsupported('bytearray.insert')

    def __setitem__(self, i, v):
        if type(i) is slice and i.step is None and is_bytes_like(v):
            n = len(self)
            lo, hi, _ = slice(i.start, i.stop).indices(n)
            hi = max(lo, hi)
            self.b = mk_bytes(list(chunks_of(self.b[:lo])) + list(
                chunks_of(v)) + list(chunks_of(self.b[hi:])))
            return
        n = py_int(i)
        if n is None:
            unsupported('bytearray index')
        size = len(self)
        if not -size <= n < size:
            raise IndexError('bytearray index out of range')
        n %= size
        one = SymByteArray(b'')
        one.append(v)
        self.b = mk_bytes(list(chunks_of(self.b[:n])) + list(chunks_of(
            one.b)) + list(chunks_of(self.b[n + 1:])))

    def __delitem__(self, i):
        if type(i) is not slice or i.step is not None:
            unsupported('deletion from a bytearray')
        self[i] = b''

    def __getitem__(self, i):
        r = self.b[i]
        return SymByteArray(r) if type(i) is slice else r

    def length(self):
        return self.b.length() if is_sym(self.b) else len(self.b)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(self.b)

    def __contains__(self, x):
        return x in self.b

    def __add__(self, o):
        if not is_bytes_like(o):
            raise TypeError("can't concat to bytearray")
        return SymByteArray(self._join(self.b, o))

    def __radd__(self, o):
        if not is_bytes_like(o):
            return NotImplemented
        return self._join(o, self.b)

    def __mul__(self, n):
        return SymByteArray(self.b * n)

    def __eq__(self, o):
        return self.b == (o.b if type(o) is SymByteArray else o)

    def __ne__(self, o):
        return self.b != (o.b if type(o) is SymByteArray else o)

    def __getattr__(self, name):
        if not hasattr(bytearray, name):
            raise AttributeError(name)
        if name not in ('hex', 'decode', 'startswith', 'endswith', 'find',
                        'count', 'index'):
            unsupported('bytearray.%s' % name)
        return getattr(self.b, name)


class SymStr(SymSeq):
    __slots__ = ('chunks',)
    REAL = str

    def __init__(self, chunks):
        self.chunks = chunks

    @property
    def __class__(self):
        return str

    def __repr__(self):
        return '<sym str>'

    def __str__(self):
        unsupported('native str() of symbolic text')

    def __format__(self, spec):
        unsupported('native format() of symbolic text')

    make = staticmethod(mk_str)

    @staticmethod
    def compatible(o):
        return is_str_like(o)

    @staticmethod
    def element(part):
        return mk_str(part)

    def reverse(self):
        unsupported('reversed text')

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        for c in self.chunks:
            if type(c) is Lit:
                out.append(Lit(c.v.encode(encoding, errors)))
            elif type(c) in (Hex, Dec):
                out.append(c)
            else:
                n = c.n if type(c) is Atom and c.kind in (
                    'uuidstr', 'ethaddr', 'addrhex') else None
                lenz = None
                if n is None:
                    m = chunk_len(c)
                    lenz = m if type(m) is not int else None
                    n = m if type(m) is int else None
                out.append(Atom('enc', (c,), n, lenz))
        return mk_bytes(out)

    def isdigit(self):
        if all(type(c) is Dec or (type(c) is Lit and c.v.isdigit())
               for c in self.chunks):
            return True
        for c in self.chunks:
            if type(c) is Lit and not c.v.isdigit():
                return False
            if type(c) is Atom:
                return False
        unsupported('isdigit of hexadecimal text')

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        head = parts[:len(parts) - maxsplit]
        first = []
        for i, x in enumerate(head):
            if i:
                first += chunks_of(sep)
            first += chunks_of(x)
        return [mk_str(first)] + parts[len(parts) - maxsplit:]

    def format(self, *a, **k):
        unsupported('format on symbolic template')


def opaque_text(tag='msg'):
    """Some text about which nothing is known (error messages, repr)."""
    idz = zfresh_int(tag)
    CUR.ex.add(idz > 1 << 40)
    return SymStr([blob('s', idz, None, 1, 1 << 16)])


# -- deep strict equality --------------------------------------------------------------------

def kind(x):
    if x is None:
        return 'none'
    t = type(x)
    if t is SymBool or (not is_sym(x) and isinstance(x, bool)):
        return 'bool'
    if t is SymInt:
        return 'int'
    if t is SymFloat:
        return 'float'
    if t is SymStr:
        return 'str'
    if t is SymBytes or t is SymByteArray:
        return 'bytes'
    if issubclass(t, Chunk):
        return 'chunk'
    if isinstance(x, str):
        return 'str'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, float):
        return 'float'
    if isinstance(x, (bytes, bytearray)):
        return 'bytes'
    if isinstance(x, (list, tuple)):
        return 'list'
    if isinstance(x, dict):
        return 'dict'
    if z3.is_expr(x):
        return 'z3'
    return 'obj'


def deq(a, b):
    """z3 Bool or Python bool: structurally equal, types included."""
    if a is b:
        return True
    ka, kb = kind(a), kind(b)
    if ka == 'z3' or kb == 'z3':
        return zand([_zz(a) == _zz(b)])
    if ka != kb:
        return False
    if ka == 'none':
        return True
    if ka in ('bool', 'int', 'float'):
        if ka == 'float' and not is_sym(a) and not is_sym(b):
            return a == b or (a != a and b != b)
        return mk_p(a == b)
    if ka in ('str', 'bytes'):
        return chunks_eq(chunks_of(a), chunks_of(b))
    if ka == 'chunk':
        return chunks_eq([a], [b])
    if ka == 'list':
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            p = deq(x, y)
            if p is False:
                return False
            out.append(p)
        return zand(out)
    if ka == 'dict':
        return deq(dict_items(a), dict_items(b))
    r = a == b
    return mk_p(r)


def _zz(x):
    return z3.IntVal(x) if type(x) is int else x


def dict_items(d):
    return [[k, dict.__getitem__(d, k)] for k in dict.keys(d)]
