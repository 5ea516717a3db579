"""Symbolic stand-ins for bool, int and float (strings: see rope.py)."""
import math

from .core import Unsupported
from .z3env import z3


class Current:
    """The exploration in progress."""
    ex = None
    ctx = None


CUR = Current()


def unsupported(msg):
    CUR.ex.abort(Unsupported(msg))


def zfresh_int(prefix):
    return z3.Int(CUR.ex.name(prefix))


def zfresh_bool(prefix):
    return z3.Bool(CUR.ex.name(prefix))


def zfresh_real(prefix):
    return z3.Real(CUR.ex.name(prefix))


# -- booleans as z3 terms or Python bools ------------------------------------

def zand(parts):
    out = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return False
        out.append(p)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def zor(parts):
    out = []
    for p in parts:
        if p is False:
            continue
        if p is True:
            return True
        out.append(p)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def znot(p):
    if p is True or p is False:
        return not p
    return z3.Not(p)


def zbool(p):
    """Python bool or z3 Bool as z3 Bool."""
    if p is True or p is False:
        return z3.BoolVal(p)
    return p


def mk_bool(p):
    if p is True or p is False:
        return p
    p = z3.simplify(p)
    if z3.is_true(p):
        return True
    if z3.is_false(p):
        return False
    return SymBool(p)


def decide(p):
    """Python bool of a z3 Bool or Python bool, forking if need be."""
    if p is True or p is False:
        return p
    return CUR.ex.branch(p)


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, protocol):
        unsupported('pickling a symbolic value')


def missing_attribute(real, name):
    """__getattr__ of a proxy: what the real type has is not modelled."""
    if hasattr(real, name):
        unsupported('%s.%s on symbolic data' % (real.__name__, name))
    raise AttributeError("'%s' object has no attribute '%s'" % (
        real.__name__, name))


def is_sym(x):
    return issubclass(type(x), Sym)


class SymBool(Sym):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.ex.branch(self.p)

    def __index__(self):
        return int(CUR.ex.branch(self.p))

    __int__ = __index__

    def __float__(self):
        return float(CUR.ex.branch(self.p))

    def __hash__(self):
        return hash(CUR.ex.branch(self.p))

    def __getattr__(self, name):
        return missing_attribute(bool, name)

    def __repr__(self):
        return '<sym bool>'

    def __str__(self):
        return str(CUR.ex.branch(self.p))

    def __format__(self, spec):
        return format(CUR.ex.branch(self.p), spec)

    def _i(self):
        return SymInt(z3.If(self.p, z3.IntVal(1), z3.IntVal(0)))

    def _logic(self, o, f):
        if type(o) is bool:
            return mk_bool(f(self.p, z3.BoolVal(o)))
        if type(o) is SymBool:
            return mk_bool(f(self.p, o.p))
        return None

    def __and__(self, o):
        r = self._logic(o, z3.And)
        return r if r is not None else self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        r = self._logic(o, z3.Or)
        return r if r is not None else self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        r = self._logic(o, z3.Xor)
        return r if r is not None else self._i() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is bool:
            return mk_bool(self.p if o else z3.Not(self.p))
        if type(o) is SymBool:
            return mk_bool(self.p == o.p)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __invert__(self):
        return ~self._i()


def _fwd(name):
    def method(self, *a):
        return getattr(SymInt, name)(self._i(), *a)
    method.__name__ = name
    setattr(SymBool, name, method)


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ '
           '__rfloordiv__ __truediv__ __rtruediv__ __mod__ __rmod__ __neg__ '
           '__pos__ __abs__ __lt__ __le__ __gt__ __ge__ __lshift__ '
           '__rlshift__ __rshift__ __rrshift__ __divmod__ __rdivmod__ '
           '__pow__ __rpow__').split():
    _fwd(_n)


def sym_not(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.p))
    return not x


# -- integers ------------------------------------------------------------------

def mk_int(z):
    if type(z) is int:
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def mk_bits(bits):
    """bits: least significant first, each 0, 1 or a z3 Bool."""
    bits = list(bits)
    while bits and type(bits[-1]) is int and bits[-1] == 0:
        bits.pop()
    if all(type(b) is int for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    return SymInt(bits=bits)


def bit_of(b):
    """Normalise a bit: z3 Bool or Python bool to 0, 1 or z3 Bool."""
    if b is True or b is False:
        return int(b)
    if type(b) is int:
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return 1
    if z3.is_false(s):
        return 0
    return s


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    return z3.And(a, b)


def bor(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    return z3.Or(a, b)


def bnot(a):
    if type(a) is int:
        return 1 - a
    return z3.Not(a)


def bxor(a, b):
    if type(a) is int:
        return bnot(b) if a else b
    if type(b) is int:
        return bnot(a) if b else a
    return z3.Xor(a, b)


def bits_to_z(bits):
    const = 0
    terms = []
    for i, b in enumerate(bits):
        if type(b) is int:
            const += b << i
        else:
            terms.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
    if not terms:
        return z3.IntVal(const)
    return z3.Sum(*(terms + [z3.IntVal(const)]))


def int_bits(n):
    out = []
    while n:
        out.append(n & 1)
        n >>= 1
    return out


def py_int(o):
    """The plain Python int of a concrete operand (bool included) or None."""
    t = type(o)
    if t is int:
        return o
    if t is bool:
        return int(o)
    if not issubclass(t, Sym) and isinstance(o, int):
        return int(o)
    return None


def zint(o):
    """z3 Int term of an int-like operand, or None."""
    n = py_int(o)
    if n is not None:
        return z3.IntVal(n)
    t = type(o)
    if t is SymInt:
        return o.z
    if t is SymBool:
        return z3.If(o.p, z3.IntVal(1), z3.IntVal(0))
    return None


def floordiv_z(a, b_const):
    if b_const > 0:
        return a / z3.IntVal(b_const)
    return (-a) / z3.IntVal(-b_const)


class SymInt(Sym):
    __slots__ = ('_z', 'bits', 'nbits', 'chunk')

    def __init__(self, z=None, bits=None, nbits=None, chunk=None):
        self._z = z
        self.bits = bits
        self.nbits = nbits       # known to be in [0, 2**nbits)
        self.chunk = chunk       # byte chunk this is the big-endian value of

    @property
    def z(self):
        if self._z is None:
            self._z = bits_to_z(self.bits)
        return self._z

    @property
    def __class__(self):
        return int

    def get_bits(self):
        if self.bits is not None:
            return self.bits
        if self.nbits is not None and self.nbits <= 512:
            z = self.z
            self.bits = [
                (z / z3.IntVal(1 << i)) % z3.IntVal(2) == z3.IntVal(1)
                for i in range(self.nbits)]
            return self.bits
        return None

    # protocol hooks used by native code
    def __bool__(self):
        if self._z is None:
            return decide(zor(b if type(b) is not int else bool(b)
                              for b in self.bits))
        return CUR.ex.branch(self.z != 0)

    def __index__(self):
        return CUR.ex.concretize(self.z, 'an integer used natively')

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        if CUR.ctx.hash_ok:
            CUR.ctx.keyed = True
            return 77
        return hash(self.__index__())

    def __getattr__(self, name):
        return missing_attribute(int, name)

    def __repr__(self):
        return '<sym int>'

    def __str__(self):
        unsupported('native str() of a symbolic integer')

    def __format__(self, spec):
        unsupported('native format() of a symbolic integer')

    # arithmetic
    def _arith(self, o, f, ff, swap=False):
        z = zint(o)
        if z is None:
            if type(o) in (float, SymFloat):
                a, b = to_float(self), to_float(o)
                if swap:
                    a, b = b, a
                return ff(a, b)
            return NotImplemented
        a, b = (z, self.z) if swap else (self.z, z)
        return mk_int(f(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, f_add)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, f_add, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, f_sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, f_sub, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b, f_mul)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, f_mul, True)

    def __neg__(self):
        return mk_int(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return mk_int(-self.z - 1)

    def __floordiv__(self, o):
        if type(o) in (float, SymFloat):
            return f_floordiv(to_float(self), to_float(o))
        return int_divmod(self, o, 0)

    def __rfloordiv__(self, o):
        if type(o) in (float, SymFloat):
            return f_floordiv(to_float(o), to_float(self))
        return int_divmod(o, self, 0)

    def __mod__(self, o):
        return int_divmod(self, o, 1)

    def __rmod__(self, o):
        if type(o) not in (int, bool, SymBool):
            return NotImplemented
        return int_divmod(o, self, 1)

    def __divmod__(self, o):
        q = int_divmod(self, o, 0)
        return q if q is NotImplemented else (q, int_divmod(self, o, 1))

    def __rdivmod__(self, o):
        q = int_divmod(o, self, 0)
        return q if q is NotImplemented else (q, int_divmod(o, self, 1))

    def __truediv__(self, o):
        if zint(o) is None and type(o) not in (float, SymFloat):
            return NotImplemented
        return f_div_exact(self, o)

    def __rtruediv__(self, o):
        if zint(o) is None and type(o) not in (float, SymFloat):
            return NotImplemented
        return f_div_exact(o, self)

    def __pow__(self, o, mod=None):
        n = py_int(o)
        if n is None or mod is not None or not 0 <= n <= 8:
            return self.__index__() ** (o if n is None else n)
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** self.__index__()

    # bitwise
    def _bitop(self, o, op, name):
        if type(o) is SymBool:
            o = o._i()
        n = py_int(o)
        mine = self.get_bits()
        if n is not None:
            if mine is None:
                if name == 'and':
                    return self._and_const(n)
                return unsupported('bit operation on an unbounded integer')
            if n < 0:
                if name != 'and':
                    return unsupported('bit operation with negative constant')
                n &= (1 << len(mine)) - 1
            other = int_bits(n)
        elif type(o) is SymInt:
            other = o.get_bits()
            if mine is None or other is None:
                return unsupported('bit operation on an unbounded integer')
        else:
            return NotImplemented
        m = max(len(mine), len(other))
        a = mine + [0] * (m - len(mine))
        b = other + [0] * (m - len(other))
        return mk_bits([op(x, y) for x, y in zip(a, b)])

    def _and_const(self, n):
        if n < 0:
            # x & ~m == x - (x & m)
            return self - self._and_const(~n)
        if n & (n + 1) == 0:
            return mk_int(self.z % z3.IntVal(n + 1))
        out = 0
        for i, b in enumerate(int_bits(n)):
            if b:
                out = mk_int((self.z / z3.IntVal(1 << i)) % z3.IntVal(2)) \
                    * (1 << i) + out
        return out

    def __and__(self, o):
        return self._bitop(o, band, 'and')
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, bor, 'or')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, bxor, 'xor')
    __rxor__ = __xor__

    def __lshift__(self, o):
        n = py_int(o)
        if n is None:
            if zint(o) is None:
                return NotImplemented
            n = o.__index__()
        if n < 0:
            raise ValueError('negative shift count')
        if self.bits is not None:
            return mk_bits([0] * n + list(self.bits))
        r = mk_int(self.z * z3.IntVal(1 << n))
        if self.nbits is not None and type(r) is SymInt:
            r.nbits = self.nbits + n
        return r

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        n = py_int(o)
        if n is None:
            if zint(o) is None:
                return NotImplemented
            n = o.__index__()
        if n < 0:
            raise ValueError('negative shift count')
        if self.bits is not None:
            return mk_bits(self.bits[n:])
        r = mk_int(self.z / z3.IntVal(1 << n))
        if self.nbits is not None and type(r) is SymInt:
            r.nbits = max(self.nbits - n, 1)
        return r

    def __rrshift__(self, o):
        return o >> self.__index__()

    # comparisons
    def _cmp(self, o, f, name):
        if self.bits is not None and self._z is None and name in ('eq', 'ne'):
            other = None
            n = py_int(o)
            if n is not None:
                if n < 0:
                    return name == 'ne'
                other = int_bits(n)
            elif type(o) is SymInt and o.bits is not None:
                other = o.bits
            if other is not None:
                m = max(len(self.bits), len(other))
                a = list(self.bits) + [0] * (m - len(self.bits))
                b = list(other) + [0] * (m - len(other))
                p = zand(bit_eq(x, y) for x, y in zip(a, b))
                return mk_bool(p if name == 'eq' else znot(p))
        if type(o) is SymInt and self.chunk is not None \
                and o.chunk is not None and name in ('eq', 'ne'):
            from . import rope
            p = rope.chunks_eq([self.chunk], [o.chunk])
            return mk_bool(p if name == 'eq' else znot(p))
        z = zint(o)
        if z is None:
            t = type(o)
            if t is float:
                if math.isnan(o):
                    return name == 'ne'
                if math.isinf(o):
                    return {'lt': o > 0, 'le': o > 0, 'gt': o < 0,
                            'ge': o < 0, 'eq': False, 'ne': True}[name]
                return mk_bool(f(z3.ToReal(self.z), real_const(o)))
            if t is SymFloat:
                return mk_bool(f(z3.ToReal(self.z), o.z))
            return NotImplemented
        return mk_bool(f(self.z, z))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, 'eq')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, 'ne')

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, 'lt')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, 'le')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, 'gt')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, 'ge')

    # int methods
    def to_bytes(self, length, byteorder='big', *, signed=False):
        from . import rope
        length = length.__index__()
        if self.chunk is not None and not signed and byteorder == 'big' \
                and rope.chunk_len(self.chunk) == length:
            return rope.mk_bytes([self.chunk])
        if signed:
            return unsupported('signed to_bytes')
        if decide(mk_p(self < 0)):
            raise OverflowError("can't convert negative int to unsigned")
        if decide(mk_p(self >= 1 << (8 * length))):
            raise OverflowError('int too big to convert')
        if self.bits is not None:
            bits = list(self.bits[:8 * length])
            bits += [0] * (8 * length - len(bits))
            chunk = rope.BitsC(tuple(reversed(bits)))
        else:
            chunk = rope.IntC(self.z, length)
        out = rope.mk_bytes([chunk])
        if byteorder == 'little':
            return out[::-1]
        return out

    def bit_length(self):
        bits = self.get_bits()
        if bits is None:
            return unsupported('bit_length of an unbounded integer')
        for i in range(len(bits) - 1, -1, -1):
            if decide(bits[i] if type(bits[i]) is not int else bool(bits[i])):
                return i + 1
        return 0

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is not None:
            unsupported('round(int, n)')
        return self


def mk_p(b):
    """z3 Bool or Python bool of a (symbolic) Python boolean."""
    if type(b) is SymBool:
        return b.p
    return b


def bit_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    x = bxor(a, b)
    if type(x) is int:
        return x == 0
    return z3.Not(x)


def int_divmod(a, b, which):
    za, zb = zint(a), zint(b)
    if za is None or zb is None:
        if type(a) in (float, SymFloat) or type(b) in (float, SymFloat):
            return unsupported('float modulo')
        return NotImplemented
    nb = py_int(b)
    if nb is None:
        if decide(zb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if decide(zb > 0):
            return mk_int(za / zb if which == 0 else za % zb)
        q = (-za) / (-zb)
        return mk_int(q if which == 0 else za - zb * q)
    if nb == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    q = floordiv_z(za, nb)
    if which == 0:
        r = mk_int(q)
    else:
        r = mk_int(za % z3.IntVal(nb)) if nb > 0 else mk_int(
            za - z3.IntVal(nb) * q)
        if type(r) is SymInt and nb > 0:
            r.nbits = (nb - 1).bit_length() or 1
    return r


# -- floats ----------------------------------------------------------------------
#
# A SymFloat stands for an IEEE double whose value is the real term z.  Every
# operation that may round introduces a fresh real within half an ulp
# (|e| <= |q| * 2**-53) that moreover never crosses an integer (integers up to
# 2**53 are doubles and rounding is monotone).

TWO53 = 1 << 53


def real_const(f):
    n, d = f.as_integer_ratio()
    return z3.Q(n, d)


def to_float(x):
    if type(x) is SymFloat:
        return x
    if type(x) is float:
        if math.isnan(x) or math.isinf(x):
            return unsupported('infinite or NaN operand')
        return SymFloat(real_const(x))
    n = py_int(x)
    if n is not None:
        return SymFloat(real_const(float(n)))
    z = zint(x)
    if z is None:
        raise TypeError('float operand')
    return SymFloat(rounded(z3.ToReal(z), isint=z))


def implied(p):
    """Does the path imply p?"""
    if p is True or p is False:
        return p
    p = z3.simplify(p)
    if z3.is_true(p):
        return True
    if z3.is_false(p):
        return False
    ex = CUR.ex
    ex.alive()
    if ex.replaying:
        # answer recorded on the first execution
        e = ex._next_entry('i')
        return e.val
    ex.solver.push()
    ex.solver.add(z3.Not(p))
    r = not ex.check()
    ex.solver.pop()
    from .core import Entry
    ex.trace.append(Entry(r, [], None, False, 'i'))
    ex.pos += 1
    return r


def rounded(q, isint=None):
    """The double nearest to the exact real q."""
    q = z3.simplify(q)
    if z3.is_rational_value(q):
        n = q.numerator_as_long()
        d = q.denominator_as_long()
        return real_const(n / d)
    if isint is not None and CUR.ex.branch(
            z3.And(isint <= TWO53, isint >= -TWO53)):
        return q
    if not implied(z3.And(q <= 1 << 1000, q >= -(1 << 1000))):
        unsupported('float beyond 2**1000')
    r = zfresh_real('fl')
    k = z3.ToInt(q)
    eps = z3.Q(1, TWO53)
    absq = z3.If(q >= 0, q, -q)
    if isint is not None:
        # beyond the exactly represented integers
        CUR.ex.add(z3.And(r - q <= absq * eps, q - r <= absq * eps))
        return r
    CUR.ex.add(z3.And(
        r - q <= absq * eps, q - r <= absq * eps,
        z3.Implies(absq <= TWO53, z3.And(
            r >= z3.ToReal(k), r <= z3.ToReal(k) + 1)),
        z3.Implies(z3.And(absq <= TWO53, q == z3.ToReal(k)), r == q)))
    return r


def mk_float(q):
    q = z3.simplify(q)
    if z3.is_rational_value(q):
        return q.numerator_as_long() / q.denominator_as_long()
    return SymFloat(q)


def f_add(a, b):
    return mk_float(rounded(a.z + b.z, isint=int_term(a, b, '+')))


def f_sub(a, b):
    return mk_float(rounded(a.z - b.z, isint=int_term(a, b, '-')))


def int_term(a, b, op):
    x, y = int_value(a.z), int_value(b.z)
    if x is None or y is None:
        return None
    return x + y if op == '+' else x - y


def int_value(z):
    """An Int term equal to the real term z if z is visibly integral."""
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        if z.denominator_as_long() == 1:
            return z3.IntVal(z.numerator_as_long())
        return None
    if z3.is_to_real(z):
        return z.arg(0)
    if z3.is_add(z):
        parts = [int_value(c) for c in z.children()]
        if all(p is not None for p in parts):
            return z3.Sum(*parts)
    if z3.is_mul(z):
        parts = [int_value(c) for c in z.children()]
        if all(p is not None for p in parts):
            return z3.Product(*parts)
    return None


def f_mul(a, b):
    for x, y in ((a, b), (b, a)):
        q = z3.simplify(x.z)
        if z3.is_rational_value(q):
            n, d = q.numerator_as_long(), q.denominator_as_long()
            if n and abs(n) & (abs(n) - 1) == 0 and d & (d - 1) == 0:
                return mk_float(q * y.z)     # power of two: exact
    return mk_float(rounded(a.z * b.z))


def f_div_exact(a, b):
    """True division; int / int is correctly rounded in Python."""
    zb = zint(b)
    if zb is not None:
        if decide(mk_p(mk_bool(zb == 0))):
            raise ZeroDivisionError('division by zero')
        za = zint(a)
        if za is not None:
            q = z3.simplify(z3.ToReal(za) / z3.ToReal(zb))
            if not z3.is_rational_value(q):
                return SymFloat(None, (za, zb))
        db = z3.ToReal(zb)
    else:
        fb = to_float(b)
        if decide(mk_p(mk_bool(fb.z == 0))):
            raise ZeroDivisionError('float division by zero')
        db = fb.z
    za = zint(a)
    da = z3.ToReal(za) if za is not None and zb is not None \
        else to_float(a).z
    return mk_float(rounded(da / db))


def f_floordiv(a, b):
    return unsupported('float floor division')


class SymFloat(Sym):
    __slots__ = ('_z', 'ratio')

    def __init__(self, z, ratio=None):
        self._z = z              # None: the quotient, not rounded so far
        self.ratio = ratio       # (n, d): built as the quotient of integers

    @property
    def z(self):
        if self._z is None:
            n, d = self.ratio
            self._z = rounded(z3.ToReal(n) / z3.ToReal(d))
        return self._z

    def exact(self):
        """(n, d) when rounding the quotient cannot move it to or over an
        integer: the distance to one is at least 1/d, that to the rounded
        value less when |n| < 2**53."""
        if self.ratio is None:
            return None
        n, d = self.ratio
        if implied(z3.And(d > 0, n < TWO53, n > -TWO53)):
            return n, d
        return None

    def __getattr__(self, name):
        return missing_attribute(float, name)

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return CUR.ex.branch(self.z != 0)

    def __hash__(self):
        unsupported('hash of a symbolic float')

    def __float__(self):
        unsupported('native use of a symbolic float')

    def __int__(self):
        return CUR.ex.concretize(to_trunc(self), 'int(float)')

    def __repr__(self):
        return '<sym float>'

    def __str__(self):
        unsupported('native str() of a symbolic float')

    def __format__(self, spec):
        unsupported('native format() of a symbolic float')

    def _op(self, o, f, swap=False):
        if type(o) in (float, SymFloat) or zint(o) is not None:
            a, b = self, to_float(o)
            if swap:
                a, b = b, a
            return f(a, b)
        return NotImplemented

    def __add__(self, o):
        return self._op(o, f_add)

    def __radd__(self, o):
        return self._op(o, f_add, True)

    def __sub__(self, o):
        return self._op(o, f_sub)

    def __rsub__(self, o):
        return self._op(o, f_sub, True)

    def __mul__(self, o):
        return self._op(o, f_mul)

    def __rmul__(self, o):
        return self._op(o, f_mul, True)

    def __truediv__(self, o):
        return self._op(o, f_div_exact)

    def __rtruediv__(self, o):
        return self._op(o, f_div_exact, True)

    def __neg__(self):
        return mk_float(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_float(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f, name):
        if type(o) is float:
            if math.isnan(o):
                return name == 'ne'
            if math.isinf(o):
                return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0,
                        'eq': False, 'ne': True}[name]
            return mk_bool(f(self.z, real_const(o)))
        if type(o) is SymFloat:
            return mk_bool(f(self.z, o.z))
        z = zint(o)
        if z is None:
            return NotImplemented
        return mk_bool(f(self.z, z3.ToReal(z)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, 'eq')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, 'ne')

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, 'lt')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, 'le')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, 'gt')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, 'ge')

    def is_integer(self):
        return mk_bool(z3.ToReal(z3.ToInt(self.z)) == self.z)

    def __trunc__(self):
        x = self.exact()
        if x is not None:
            n, d = x
            return mk_int(z3.If(n >= 0, n / d, -(-n / d)))
        return mk_int(to_trunc(self))

    def __floor__(self):
        x = self.exact()
        if x is not None:
            return mk_int(x[0] / x[1])
        return mk_int(z3.ToInt(self.z))

    def __ceil__(self):
        x = self.exact()
        if x is not None:
            return mk_int(-(-x[0] / x[1]))
        return mk_int(-z3.ToInt(-self.z))

    def __round__(self, n=None):
        if n is not None:
            return unsupported('round(float, n)')
        k = z3.ToInt(self.z)
        d = self.z - z3.ToReal(k)
        up = z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2), k % 2 == 1))
        return mk_int(z3.If(up, k + 1, k))


def to_trunc(f):
    k = z3.ToInt(f.z)
    return z3.If(f.z >= 0, k, -z3.ToInt(-f.z))


def fatal(self, *args):
    """An error of the engine must not pass for one of the code."""
    Exception.__init__(self, *args)
    if getattr(CUR, 'ex', None) is not None and CUR.ex.dead is None:
        from .core import Unsupported
        CUR.ex.dead = Unsupported('z3: %s' % (args,))


z3.Z3Exception.__init__ = fatal
