"""Models of the native operations the code under test performs.

`call` is what every call expression of instrumented code goes through.
"""
import binascii
import builtins
import calendar
import copy
import datetime as _dt
import enum
import functools
import hashlib
import ipaddress
import itertools
import logging
import math
import operator
import random
import re
import string
import struct
import time
import types
import uuid as _uuid
import warnings

from . import rope
from .core import Ctl
from .rope import (Atom, BitsC, Dec, Hex, IntC, Lit, Part, SymByteArray,
                   SymBytes, SymSeq, SymStr, chunk_len, chunks_of, deq, is_bytes_like,
                   is_str_like, mk_bytes, mk_str, opaque_text, total_len)
from .values import (CUR, Sym, SymBool, SymFloat, SymInt, decide,
                     f_div_exact, implied, is_sym, mk_bits, mk_bool, mk_float,
                     mk_int, mk_p, py_int, rounded, sym_not, to_float,
                     unsupported, zand, zfresh_bool, zfresh_int, zint, znot,
                     zor)
from .z3env import z3

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinCode = type(str.join.__code__)

MODELS = {}          # function or class -> model
METHODS = {}         # (type, name) -> model taking self first
INSTRUMENTED = set()   # names of instrumented modules


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m
    return deco


def method(t, *names):
    def deco(m):
        for n in names:
            METHODS[(t, n)] = m
        return m
    return deco


def any_sym(a, k):
    for x in a:
        if issubclass(type(x), Sym):
            return True
    for x in k.values():
        if issubclass(type(x), Sym):
            return True
    return False


def has_sym(x, depth=6):
    """Is there a symbolic value in x (containers and plain objects)?"""
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t in (int, str, bytes, bool, float, type(None), type):
        return False
    if depth == 0:
        return True
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1)
                   for k, v in dict.items(x))
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    return False


# -- truth ---------------------------------------------------------------------

def sx_not(x):
    if is_sym(x):
        return sym_not(m_bool(x))
    return not x


def tentative(thunk):
    """The value of an expression without effects, if it takes no fork to
    get it and it is a boolean; else None."""
    ex = CUR.ex
    if ex.no_fork:
        return None
    ex.no_fork = True
    try:
        v = thunk()
    except Ctl:
        if ex.dead is not None:
            raise
        return None
    except Exception:  # the path which gets there will raise it again
        return None
    finally:
        ex.no_fork = False
    return v if type(v) in (bool, SymBool) else None


def sx_and(a, thunk):
    if type(a) is SymBool:
        b = tentative(thunk)
        if b is not None:
            return a & b
    return a and thunk()


def sx_or(a, thunk):
    if type(a) is SymBool:
        b = tentative(thunk)
        if b is not None:
            return a | b
    return a or thunk()


def frozen_bytes(f, a, k):
    """Functions outside the code under test take a bytearray as bytes."""
    if not any(type(x) is SymByteArray for x in a + tuple(k.values())):
        return a, k
    if getattr(f, '__module__', None) in INSTRUMENTED or f in (
            isinstance, type, len, bytes, bytearray, copy.copy,
            copy.deepcopy, id, super, callable, getattr, hasattr) or getattr(
            f, '__name__', None) in NATIVE_OK:
        return a, k

    def cold(x):
        return x.b if type(x) is SymByteArray else x
    return (tuple(map(cold, a)),
            {name: cold(x) for name, x in k.items()})


# -- call dispatch -----------------------------------------------------------------

def call(f, *a, **k):
    t = type(f)
    if SymByteArray.made:
        a, k = frozen_bytes(f, a, k)
    if t is FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if type(f.__code__) is BuiltinCode:
            return unbound_builtin(f, a, k)
        if f.__module__ in INSTRUMENTED or not any_sym(a, k):
            return f(*a, **k)
        return native(f, a, k)
    if t is MethodType:
        fn = f.__func__
        if type(fn) is FunctionType and type(fn.__code__) is not BuiltinCode:
            m = MODELS.get(f) or MODELS.get(fn)
            if m is not None:
                if f in MODELS:
                    return m(*a, **k)
                return m(f.__self__, *a, **k)
            s = f.__self__
            if s in ENUMS and fn.__name__ == '__call__':
                return call(s, *a, **k)
            return f(*a, **k)
        return bound_builtin(f, a, k)
    if isinstance(f, type):
        return call_class(f, a, k)
    if t is functools.partial:
        return call(f.func, *(f.args + a), **{**f.keywords, **k})
    if t is BuiltinFunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        return native(f, a, k) if any_sym(a, k) else f(*a, **k)
    if issubclass(t, Sym):
        raise TypeError('object is not callable')
    c = getattr(t, '__call__', None)
    if type(c) is FunctionType and type(c.__code__) is not BuiltinCode:
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    return native(f, a, k) if any_sym(a, k) else f(*a, **k)


BuiltinFunctionType = type(len)


class _Enums:
    def __contains__(self, x):
        return isinstance(x, enum.EnumMeta)


ENUMS = _Enums()


def native(f, a, k):
    """A native function on symbolic arguments: trusted to go through the
    proxies; an error that may be due to them is not believed."""
    if f is setattr and not k and len(a) == 3 and type(a[1]) is str and \
            not isinstance(a[0], Sym):
        return f(*a)
    try:
        return f(*a, **k)
    except (TypeError, AttributeError) as e:
        unsupported('native call %s: %s' % (
            getattr(f, '__qualname__', f), e))


def call_class(f, a, k):
    m = MODELS.get(f)
    if m is not None:
        return m(*a, **k)
    if isinstance(f, enum.EnumMeta):
        return enum_call(f, a, k)
    if f.__module__ in INSTRUMENTED or not any_sym(a, k):
        return f(*a, **k)
    if issubclass(f, (BaseException, str, bytes, int, float)):
        if issubclass(f, BaseException):
            return f(*a, **k)
        return native(f, a, k)
    return f(*a, **k)


def enum_call(cls, a, k):
    if len(a) == 1 and not k:
        v = a[0]
        if type(v) is cls:
            return v
        if has_sym(v):
            for member in cls:
                if decide(mk_p(eq(member.value, v))):
                    return member
            miss = cls._missing_
            if type(getattr(miss, '__func__', None)) is FunctionType and \
                    miss.__func__ is not enum.Enum._missing_.__func__:
                r = miss(v)
                if r is not None:
                    return r
            raise ValueError('not a valid ' + cls.__qualname__)
    return cls(*a, **k)


def unbound_builtin(f, a, k):
    """str.join(x, y), dict.get(d, k), dict.__setitem__(d, k, v)..."""
    if a:
        m = METHODS.get((type(a[0]), f.__name__))
        if m is not None and any_sym(a, k):
            return m(*a, **k)
        if is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
    if any_sym(a, k):
        r = sym_method(a[0], f.__name__, a[1:], k, None)
        if r is not NotImplemented:
            return r
        return native(f, a, k)
    return f(*a, **k)


def bound_builtin(f, a, k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    s = f.__self__
    name = f.__name__
    ts = type(s)
    if isinstance(s, BaseException) and name in ('__str__', '__repr__') \
            and has_sym(s.args):
        if name == '__str__' and len(s.args) == 1:
            return to_str(s.args[0])
        return opaque_text()
    if ts is str or isinstance(s, str):
        if name == 'format':
            return fmt_format(rope.plain_str(s), a, k)
        if name == 'join':
            items = list(a[0])
            if any(is_sym(x) for x in items):
                return SymStr([Lit(s)] if s else []).join(items)
            return s.join(items)
    elif ts is bytes and name == 'join':
        items = list(a[0])
        if any(is_sym(x) for x in items):
            return SymBytes([Lit(s)] if s else []).join(items)
        return s.join(items)
    elif isinstance(s, re.Pattern):
        if any_sym(a, k):
            return pattern_call(s, name, a, k)
        return f(*a, **k)
    if any_sym(a, k) or (a and isinstance(s, (dict, set, frozenset)) and
                         is_sym_keyed(s)):
        r = sym_method(s, name, a, k, f)
        if r is not NotImplemented:
            return r
        return native(f, a, k)
    return f(*a, **k)


NATIVE_OK = {
    '__setitem__', 'append', 'insert', 'extend', '__init__', '__new__',
    'index', 'count', 'remove', '__setattr__', '__eq__', '__ne__',
    'update', '__contains__',
}


def sym_method(s, name, a, k, f):
    """Method of a concrete native object with symbolic arguments."""
    if isinstance(s, dict):
        if name == 'get':
            r = scan(s, a[0])
            if r is None:
                return a[1] if len(a) > 1 else k.get('default')
            return dict.__getitem__(s, r[0])
        if name in ('__getitem__', 'pop', '__contains__', '__delitem__') \
                and (is_sym(a[0]) or is_sym_keyed(s)):
            if name == '__contains__':
                return member(s, a[0])
            r = scan(s, a[0])
            if r is None:
                if name == 'pop' and len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if name == '__getitem__':
                return dict.__getitem__(s, r[0])
            if name == 'pop':
                return dict.pop(s, r[0])
            return dict.__delitem__(s, r[0])
        if name == 'setdefault':
            if not is_sym(a[0]) and not is_sym_keyed(s):
                return dict.setdefault(s, *a)
            r = scan(s, a[0])
            if r is not None:
                return dict.__getitem__(s, r[0])
            v = a[1] if len(a) > 1 else None
            dict_store(s, a[0], v)
            return v
        if name == '__setitem__':
            if is_sym(a[0]) or is_sym_keyed(s):
                return dict_store(s, a[0], a[1])
            return f(*a, **k) if f is not None else \
                dict.__setitem__(s, *a)
        return NotImplemented
    if isinstance(s, str):
        if isinstance(s, enum.Enum):
            s = rope.plain_str(s)
        return getattr(SymStr([Lit(s)] if s else []), name)(*a, **k)
    if isinstance(s, (bytes, bytearray)):
        return getattr(SymBytes([Lit(bytes(s))] if s else []), name)(*a, **k)
    if isinstance(s, (list, tuple)):
        if f is not None:
            return f(*a, **k)
        return NotImplemented
    if isinstance(s, (set, frozenset)):
        if name == '__contains__':
            return member(s, a[0])
        if name in ('add', 'discard', 'remove') and len(a) == 1:
            r = scan_set(s, a[0])
            if r is not None:
                return None if name == 'add' else getattr(s, name)(r[0])
            return getattr(s, name)(a[0])
        return NotImplemented
    if f is not None and name in NATIVE_OK:
        return f(*a, **k)
    return NotImplemented


def dict_store(d, key, value):
    r = scan(d, key)
    if r is not None:
        return dict.__setitem__(d, r[0], value)
    if CUR.ctx.hash_ok is not False:
        return dict.__setitem__(d, key, value)
    unsupported('symbolic dictionary key')


# -- equality, membership ------------------------------------------------------------

def eq(a, b):
    """a == b as a Python or symbolic boolean."""
    return a == b


def kinds_may_equal(a, b):
    ka, kb = rope.kind(a), rope.kind(b)
    num = ('bool', 'int', 'float')
    if ka == kb or (ka in num and kb in num):
        return True
    return ka in ('obj', 'chunk') or kb in ('obj', 'chunk')


def is_sym_keyed(d):
    """Are there symbolic keys in it (even inside tuples)?"""
    if not CUR.ctx.keyed:
        return False
    for k in (dict.keys(d) if isinstance(d, dict) else d):
        t = type(k)
        if issubclass(t, Sym) or (t is tuple and any(
                issubclass(type(x), Sym) for x in k)):
            return True
    return False


def scan_set(s, x):
    for k in list(s):
        if kinds_may_equal(k, x) and decide(mk_p(eq(k, x))):
            return (k,)
    return None


def scan(d, key):
    """(key,) of the entry of d equal to key, or None; forks."""
    for k in dict.keys(d):
        if kinds_may_equal(k, key) and decide(mk_p(eq(k, key))):
            return (k,)
    return None


def member(c, x):
    return mk_bool(zor([mk_p(eq(k, x)) for k in list(c)
                        if kinds_may_equal(k, x)]))


def sx_in(x, c):
    if is_sym(x) or is_sym(c):
        if is_sym(c):
            if issubclass(type(c), SymSeq):
                return c.__contains__(x)
            raise TypeError('argument is not iterable')
        t = type(c)
        if isinstance(c, enum.EnumMeta):
            # Python 3.8+: TypeError for values that are no members
            raise TypeError("unsupported operand type(s) for 'in'")
        if t in (dict, list, tuple, set, frozenset) or (
                isinstance(c, (dict, set, frozenset, list, tuple)) and
                type(getattr(t, '__contains__')) is FunctionType and
                type(t.__contains__.__code__) is BuiltinCode):
            if isinstance(c, (set, frozenset, dict, list, tuple)):
                return member(c, x)
        if isinstance(c, str):
            if not is_str_like(x):
                raise TypeError("'in <string>' requires string")
            return SymStr([Lit(c)] if c else []).__contains__(x) \
                if c else unsupported('search')
        if isinstance(c, (type({}.keys()),)):
            return member(c, x)
        return x in c
    if isinstance(c, (dict, set, frozenset)) and is_sym_keyed(c) and \
            type(type(c).__contains__.__code__) is BuiltinCode:
        return member(c, x)
    return x in c


def sx_not_in(x, c):
    return sym_not(sx_in(x, c))


def sx_is(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        x, y = (a, b) if type(a) is SymBool else (b, a)
        if type(y) in (bool, SymBool):
            return x == y
        return False
    return a is b


def sx_is_not(a, b):
    return sym_not(sx_is(a, b))


def getitem(o, i):
    if (is_sym(i) and not is_sym(o)) or (
            isinstance(o, dict) and is_sym_keyed(o)):
        if isinstance(o, dict):
            g = type(o).__getitem__
            if type(g.__code__) is BuiltinCode:
                r = scan(o, i)
                if r is None:
                    miss = getattr(type(o), '__missing__', None)
                    if miss is not None:
                        return miss(o, i)
                    raise KeyError(i)
                return dict.__getitem__(o, r[0])
            return o[i]
    elif type(i) is slice and not is_sym(o) and (
            is_sym(i.start) or is_sym(i.stop)):
        if isinstance(o, str):
            return SymStr([Lit(o)])[i] if o else ''
        if isinstance(o, (bytes, bytearray)):
            return SymBytes([Lit(bytes(o))])[i] if o else b''
    elif issubclass(type(o), Sym) and not issubclass(
            type(o), (SymSeq, SymByteArray)):
        raise TypeError('object is not subscriptable')
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and (is_sym(i) or is_sym_keyed(o)):
        s = type(o).__setitem__
        if type(s.__code__) is BuiltinCode:
            return dict_store(o, i, v)
    o[i] = v


def delitem(o, i):
    if isinstance(o, dict) and (is_sym(i) or is_sym_keyed(o)):
        r = scan(o, i)
        if r is None:
            raise KeyError(i)
        i = r[0]
    del o[i]


# -- texts of values ---------------------------------------------------------------------

def py_method(x, name):
    f = getattr(type(x), name, None)
    if type(f) is FunctionType and type(f.__code__) is not BuiltinCode:
        return f
    return None


@model(str)
def m_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and is_sym(a[0]):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def int_text(x):
    if decide(mk_p(x >= 0)):
        return mk_str([Dec(x.z)])
    return mk_str([Lit('-'), Dec(-x.z)])


def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if issubclass(t, Sym):
        if t is SymInt:
            return int_text(x)
        if t is SymBool:
            return str(x)
        if t is SymUUID:
            return x.text()
        return opaque_text()
    if t in (str, int, bytes, float, bool, type(None)):
        return str(x)
    if isinstance(x, BaseException):
        f = py_method(x, '__str__')
        if f is not None:
            return f(x)
        if len(x.args) == 1:
            return to_str(x.args[0])
        return opaque_text() if has_sym(x.args) else str(x)
    if isinstance(x, enum.Enum):
        return str(x)
    f = py_method(x, '__str__')
    if f is not None:
        return f(x)
    if isinstance(x, str):
        return str(x)
    return to_repr(x)


@model(repr, ascii)
def to_repr(x):
    t = type(x)
    if issubclass(t, Sym):
        if t is SymInt:
            return int_text(x)
        if t is SymBool:
            return str(x)
        return opaque_text()
    if isinstance(x, (dict, list, tuple, set, frozenset)):
        f = py_method(x, '__repr__')
        if f is not None:
            return f(x)
        items = dict.items(x) if isinstance(x, dict) else [(i,) for i in x]
        sym = False
        for pair in items:
            for v in pair:
                if type(v) not in (int, str, bytes, float, bool, type(None)):
                    # (the text of a symbolic value inside is opaque)
                    if isinstance(v, Sym) or is_sym(to_repr(v)):
                        sym = True
        return opaque_text() if sym else repr_plain(x)
    f = py_method(x, '__repr__')
    if f is not None:
        return f(x)
    if isinstance(x, BaseException):
        return opaque_text() if has_sym(x.args) else repr(x)
    if t is functools.partial:
        return '<partial>'
    return repr(x)


def repr_plain(x):
    try:
        return repr(x)
    except TypeError:
        return opaque_text()


def to_format(x, spec=''):
    if is_sym(spec):
        unsupported('symbolic format specification')
    if not is_sym(x):
        f = py_method(x, '__format__')
        if f is not None and not isinstance(x, enum.Enum):
            return f(x, spec)
        if spec == '':
            return to_str(x) if not isinstance(x, enum.Enum) \
                else format(x, spec)
        return format(x, spec)
    if spec == '' or (spec == 's' and type(x) is SymStr) or (
            spec == 'd' and type(x) is SymInt):
        return to_str(x)
    if type(x) is SymInt:
        if x.bits is not None and (spec.endswith('b') or sum(
                type(b) is not int for b in x.bits) <= 10):
            v = 0
            for i, b in enumerate(x.bits):
                if type(b) is not int:
                    b = int(decide(b))
                v |= b << i
            return format(v, spec)
        m = re.fullmatch(r'0(\d+)x', spec)
        if m and x.chunk is not None and \
                chunk_len(x.chunk) * 2 == int(m.group(1)):
            return mk_str([rope.hex_chunk(x.chunk)])
        if m and x.nbits is not None and x.nbits <= 4 * int(m.group(1)) \
                and int(m.group(1)) % 2 == 0:
            return mk_str([Hex(IntC(x.z, int(m.group(1)) // 2))])
        if decide(mk_p(x >= 0)) and spec in ('x', 'X', 'b', 'o', '#x'):
            return opaque_text()
        return opaque_text()
    if type(x) is SymBool:
        return format(bool(x), spec)
    return opaque_text()


@model(format)
def m_format(x, spec=''):
    return to_format(x, spec)


def concat(parts):
    if any(is_sym(p) for p in parts):
        return mk_str([c for p in parts for c in chunks_of(p)])
    return ''.join(parts)


_formatter = string.Formatter()


def get_field(name, a, k):
    first, rest = _string_split(name)
    if isinstance(first, int):
        obj = a[first]
    else:
        obj = k[first]
    for is_attr, i in rest:
        obj = getattr(obj, i) if is_attr else getitem(obj, i)
    return obj


def _string_split(name):
    import _string
    return _string.formatter_field_name_split(name)


def fmt_format(template, a, k):
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(template):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        x = get_field(field, a, k)
        if conv == 'r' or conv == 'a':
            x = to_repr(x)
        elif conv == 's':
            x = to_str(x)
        if spec and '{' in spec:
            spec = fmt_format(spec, a, k)
        out.append(to_format(x, spec))
    return concat(out)


_percent = re.compile(
    r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?'
    r'(?:\.(?P<prec>\*|\d+))?(?P<conv>[diouxXeEfFgGcrsa%])')


def sx_mod(l, r):
    if type(l) is str or (isinstance(l, str) and not is_sym(l)):
        return percent(rope.plain_str(l), r)
    if is_sym(l) and type(l) is SymStr:
        unsupported('formatting with a symbolic template')
    if type(l) is bytes and any(is_sym(x) for x in (
            r if type(r) is tuple else (r,))):
        return bytes_percent(l, list(r) if type(r) is tuple else [r])
    return l % r


def bytes_percent(template, args):
    """Bytes formatted with %b and %s."""
    out = []
    parts = re.split(b'(%.)', template)
    for lit, conv in zip(parts[::2], parts[1::2] + [None]):
        out += chunks_of(lit)
        if conv is None:
            break
        if conv == b'%%':
            out += chunks_of(b'%')
            continue
        if conv not in (b'%b', b'%s'):
            unsupported('bytes formatted with %r' % conv)
        if not args:
            raise TypeError('not enough arguments for format string')
        x = args.pop(0)
        if not is_bytes_like(x):
            raise TypeError('%b requires a bytes-like object')
        out += chunks_of(x)
    if args:
        raise TypeError('not all arguments converted')
    return mk_bytes(out)


def percent(template, r):
    if not is_sym(r) and type(r) in (int, str, bytes, float, bool,
                                     type(None)):
        return template % r
    args = list(r) if isinstance(r, tuple) else [r]
    mapping = r if not isinstance(r, tuple) and hasattr(r, 'keys') else None
    out = []
    pos = 0
    n = 0
    for m in _percent.finditer(template):
        out.append(template[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            x = getitem(mapping, m.group('key'))
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            x = args[n]
            n += 1
        plain = not (m.group('flags') or m.group('width') or m.group('prec'))
        if conv == 's' and plain:
            out.append(to_str(x))
        elif conv in 'ra' and plain:
            out.append(to_repr(x))
        elif not has_sym(x):
            out.append(('%' + (m.group('flags') or '') + (
                m.group('width') or '') + ('.' + m.group('prec') if m.group(
                    'prec') else '') + conv) % (x,))
        elif conv in 'di' and type(x) is SymInt and plain:
            out.append(int_text(x))
        elif conv in 'di' and type(x) in (SymInt, SymBool, SymFloat):
            out.append(opaque_text())
        elif conv in 'diouxX' and type(x) not in (SymInt, SymBool, SymFloat):
            raise TypeError('%d format: a number is required')
        elif conv in 'xX' and type(x) is SymInt:
            out.append(to_format(x, (m.group('flags') or '') + (
                m.group('width') or '') + conv))
        else:
            out.append(opaque_text())
    if n < len(args) and mapping is None:
        raise TypeError(
            'not all arguments converted during string formatting')
    out.append(template[pos:])
    return concat(out)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        x, conv, spec = p
        if conv in (114, 97):
            x = to_repr(x)
        elif conv == 115:
            x = to_str(x)
        out.append(to_format(x, spec))
    return concat(out)


# -- regular expressions on structured text -------------------------------------------------

class SymMatch:
    def __init__(self, m, spans):
        self.m = m
        self.spans = spans   # [(start, end, chunk)] in the placeholder text

    def sub(self, lo, hi):
        if lo < 0:
            return None
        out = []
        for s, e, c in self.spans:
            if s >= hi or e <= lo:
                continue
            if type(c) is Lit:
                out.append(Lit(c.v[max(lo - s, 0):hi - s]))
            elif lo <= s and e <= hi:
                out.append(c)
            else:
                unsupported('regular expression splits a number')
        return mk_str(out)

    def group(self, *g):
        if not g:
            g = (0,)
        r = tuple(self.sub(*self.m.span(i)) for i in g)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        r = []
        for i in range(1, self.m.re.groups + 1):
            x = self.sub(*self.m.span(i))
            r.append(default if x is None else x)
        return tuple(r)

    def groupdict(self, default=None):
        return {n: (lambda x: default if x is None else x)(self.group(n))
                for n in self.m.re.groupindex}

    def span(self, *a):
        unsupported('positions in symbolic text')
    start = end = span

    __getitem__ = group


def placeholders(chunks):
    """Concrete text with a stand-in for each symbolic piece."""
    text = ''
    spans = []
    for i, c in enumerate(chunks):
        if type(c) is Lit:
            p = c.v
        elif type(c) is Dec:
            # zero and non-zero numbers are matched differently at times
            p = '0' if decide(c.z == 0) else '4%d2' % (311 + i)
        elif rope.is_blob(c):
            p = 'qmw'
        else:
            unsupported('regular expression on ' + type(c).__name__)
        spans.append((len(text), len(text) + len(p), c))
        text += p
    return text, spans


def pattern_call(pat, name, a, k):
    s = a[0]
    if name not in ('match', 'fullmatch', 'search') or len(a) > 1 or k:
        unsupported('re.Pattern.%s on symbolic text' % name)
    if type(s) is not SymStr:
        raise TypeError('expected string or bytes-like object')
    text, spans = placeholders(s.chunks)
    m = getattr(pat, name)(text)
    return None if m is None else SymMatch(m, spans)


@model(re.match)
def m_re_match(p, s, flags=0):
    return call(re.compile(p, flags).match, s)


@model(re.fullmatch)
def m_re_fullmatch(p, s, flags=0):
    return call(re.compile(p, flags).fullmatch, s)


# -- builtins ----------------------------------------------------------------------------------

@model(len)
def m_len(x):
    if issubclass(type(x), SymSeq):
        return x.length()
    if type(x) is SymByteArray:
        return x.length()
    if is_sym(x):
        raise TypeError('object has no len()')
    return len(x)


@model(bool)
def m_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt or t is SymFloat:
        return mk_bool(x.z != 0)
    if t is SymByteArray:
        return m_bool(x.b)
    if issubclass(t, SymSeq):
        n = total_len(x.chunks)
        return n > 0 if type(n) is int else mk_bool(n > 0)
    return bool(x)


@model(type)
def m_type(*a, **k):
    if len(a) == 1:
        return a[0].__class__ if is_sym(a[0]) else type(a[0])
    return type(*a, **k)


@model(int)
def m_int(*a, **k):
    if not any_sym(a, k):
        return int(*a, **k)
    x = a[0]
    t = type(x)
    base = a[1] if len(a) > 1 else k.get('base')
    if base is None:
        if t is SymInt:
            return x
        if t is SymBool:
            return x._i()
        if t is SymFloat:
            return x.__trunc__()
    if t in (SymStr, SymBytes):
        c = x.chunks
        if base in (None, 10) and len(c) == 1 and type(c[0]) is Dec:
            return mk_int(c[0].z)
        if base == 16 and all(type(y) is Hex for y in c):
            return rope.value_of([y.c for y in c])
        if base in (None, 10) and any(rope.is_blob(y) or (
                type(y) is Lit and not y.v.isdigit()) for y in c):
            raise ValueError('invalid literal for int()')
        unsupported('int() of symbolic text')
    if base is not None:
        raise TypeError("int() can't convert non-string with explicit base")
    raise TypeError('int() argument')


@model(float)
def m_float(x=0.0):
    if type(x) in (SymInt, SymBool, SymFloat):
        return mk_float(to_float(x).z)
    if is_sym(x):
        unsupported('float() of symbolic text')
    return float(x)


@model(bytearray)
def m_bytearray(*a, **k):
    return SymByteArray(m_bytes(*a, **k))


@model(memoryview)
def m_memoryview(x):
    return x if is_sym(x) else memoryview(x)


@model(bytes)
def m_bytes(*a, **k):
    if not any_sym(a, k):
        if len(a) == 1 and isinstance(a[0], (list, tuple)) and any(
                is_sym(x) for x in a[0]):
            out = SymByteArray(b'')
            out.extend(a[0])
            return out.b
        return bytes(*a, **k)
    x = a[0]
    if type(x) is SymBytes:
        return x
    if type(x) is SymByteArray:
        return x.b
    if type(x) is SymStr:
        if len(a) == 1 and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:], **k)
    unsupported('bytes() of a symbolic number')


@model(isinstance)
def m_isinstance(x, t):
    return isinstance(x, t)


def names_nothing(o, name):
    """Whether a symbolic name can be told to name no attribute."""
    if any(type(c) in (Atom, Hex, Part) for c in name.chunks):
        # opaque text never names an attribute of the code
        return True
    rx = ''.join(re.escape(c.v if isinstance(c.v, str) else c.v.decode(
        'latin-1')) if type(c) is Lit else r'-?\d+' if type(c) is Dec
        else '.*' for c in name.chunks)
    return not any(re.fullmatch(rx, n, re.S) for n in dir(o))


@model(getattr)
def m_getattr(o, name, *d):
    if is_sym(name):
        if type(name) is not SymStr:
            raise TypeError('attribute name must be string')
        if names_nothing(o, name):
            if d:
                return d[0]
            raise AttributeError(name)
        unsupported('symbolic attribute name %r' % (name.chunks,))
    return getattr(o, name, *d)


@model(hasattr)
def m_hasattr(o, name):
    if is_sym(name):
        if names_nothing(o, name):
            return False
        unsupported('symbolic attribute name %r' % (name.chunks,))
    return hasattr(o, name)


@model(hash)
def m_hash(x):
    return hash(x)


@model(sorted)
def m_sorted(it, key=None, reverse=False):
    items = list(it)
    if has_sym(items):
        unsupported('sorting symbolic values')
    return sorted(items, key=key, reverse=reverse)


@model(hex)
def m_hex(x):
    if is_sym(x):
        return opaque_text()
    return hex(x)


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if n is not None else x.__round__()
    return round(x) if n is None else round(x, n)


@model(pow)
def m_pow(x, y, *m):
    if not m:
        return x ** y
    return pow(x, y, *m)


@model(map)
def m_map(f, *its):
    return [call(f, *xs) for xs in zip(*its)].__iter__()


@model(filter)
def m_filter(f, it):
    if f is None:
        return [x for x in it if x].__iter__()
    return [x for x in it if call(f, x)].__iter__()


@model(sum)
def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


@model(all)
def m_all(it):
    for x in it:
        if not x:
            return False
    return True


@model(any)
def m_any(it):
    for x in it:
        if x:
            return True
    return False


def _minmax(less):
    def f(*a, key=None, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
        best = items[0]
        bk = call(key, best) if key else best
        for x in items[1:]:
            xk = call(key, x) if key else x
            c = less(xk, bk)
            if type(c) is SymBool and key is None and all(
                    type(v) in (int, SymInt) for v in (x, best)):
                best = mk_int(z3.If(c.p, zint(x), zint(best)))
                bk = best
            elif c:
                best, bk = x, xk
        return best
    return f


model(min)(_minmax(lambda a, b: a < b))
model(max)(_minmax(lambda a, b: a > b))


@model(divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(print)
def m_print(*a, **k):
    return None


@model(functools.reduce)
def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


@model(copy.copy)
def m_copy(x):
    if is_sym(x) or isinstance(x, (list,)) and type(x) is list:
        return x if is_sym(x) else list(x)
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(x, memo=None):
    return copy.deepcopy(x, memo)


for _op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
            operator.ge, operator.add, operator.sub, operator.mul,
            operator.or_, operator.ior, operator.and_, operator.xor,
            operator.floordiv, operator.lshift, operator.rshift,
            operator.neg):
    MODELS[_op] = _op
MODELS[operator.not_] = lambda x: not x
MODELS[operator.contains] = lambda c, x: sx_in(x, c)
MODELS[operator.getitem] = getitem


# logging and warnings have no effect on the properties
def _quiet(*a, **k):
    return None


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical',
           'log'):
    MODELS[getattr(logging.Logger, _n)] = _quiet
    if hasattr(logging, _n):
        MODELS[getattr(logging, _n)] = _quiet
MODELS[warnings.warn] = _quiet


# -- functools caches -------------------------------------------------------------------------

class Memo:
    """functools.lru_cache with symbolic keys (no eviction)."""

    def __init__(self, f, maxsize, typed):
        functools.update_wrapper(self, f)
        self.f = f
        self.entries = []
        MEMOS.append(self)

    def __call__(self, *a, **k):
        key = list(a) + [x for p in sorted(k.items()) for x in p]
        for old, r in self.entries:
            if len(old) == len(key) and decide(zand(
                    memo_eq(x, y) for x, y in zip(old, key))):
                return r
        r = self.f(*a, **k)
        self.entries.append((key, r))
        return r

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return MethodType(self, obj)

    def cache_clear(self):
        self.entries.clear()

    def cache_info(self):
        return functools._CacheInfo(0, len(self.entries), None,
                                    len(self.entries))


def memo_eq(x, y):
    kx, ky = rope.kind(x), rope.kind(y)
    if kx == 'obj' or ky == 'obj':
        if x is y:
            return True
        return mk_p(x == y)
    if kx != ky:
        return False
    return deq(x, y)


MEMOS = []


@model(functools.lru_cache)
def m_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Memo(maxsize, 128, typed)
    return lambda f: Memo(f, maxsize, typed)


def deco(d):
    if d is functools.lru_cache or d is getattr(functools, 'cache', None):
        return lambda f: Memo(f, 128, False)
    return d


@model(functools.wraps)
def m_wraps(f, *a, **k):
    if is_sym(f):
        unsupported('wraps')
    return functools.wraps(f, *a, **k)


# -- integers and bytes --------------------------------------------------------------------

@model(int.from_bytes)
def m_from_bytes(b, byteorder='big', *, signed=False):
    if not is_sym(b):
        if has_sym(b):
            unsupported('int.from_bytes of a list')
        return int.from_bytes(b, byteorder, signed=signed)
    if type(b) is not SymBytes:
        raise TypeError('cannot convert object to bytes')
    if signed:
        unsupported('signed from_bytes')
    if byteorder == 'little':
        b = b[::-1]
    return rope.value_of(b.chunks)


@model(int.to_bytes)
def m_to_bytes(x, *a, **k):
    if is_sym(x):
        return x.to_bytes(*a, **k)
    return int.to_bytes(x, *a, **k)


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(x):
    if not is_sym(x):
        return binascii.unhexlify(x)
    if type(x) not in (SymStr, SymBytes):
        raise TypeError('a bytes-like object is required')
    out = []
    for c in x.chunks:
        if type(c) is Hex:
            out.append(c.c)
        elif type(c) is Lit:
            if len(c.v) % 2:
                n = total_len(x.chunks)
                if type(n) is int and n % 2:
                    raise binascii.Error('Odd-length string')
                unsupported('odd split of hexadecimal text')
            out.append(Lit(binascii.unhexlify(c.v)))
        elif type(c) is Atom and c.kind == 'addrhex':
            out.extend(chunks_of(c.args[0]))
        elif type(c) is Atom and c.kind in ('ethaddr', 'uuidstr', 'ipstr'):
            raise binascii.Error('Non-hexadecimal digit found')
        elif rope.is_blob(c):
            n = chunk_len(c)
            if (n > 0) if type(n) is int else decide(n > 0):
                raise binascii.Error('Non-hexadecimal digit found')
        else:
            unsupported('unhexlify of ' + type(c).__name__)
    return mk_bytes(out)


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(x, *a):
    if not is_sym(x):
        return binascii.hexlify(x, *a)
    if type(x) is not SymBytes:
        raise TypeError('a bytes-like object is required')
    return mk_bytes([rope.hex_chunk(c) for c in x.chunks])


@model(bytes.fromhex)
def m_fromhex(x):
    if not is_sym(x):
        return bytes.fromhex(x)
    if type(x) is not SymStr:
        raise TypeError('fromhex() argument must be str')
    try:
        return m_unhexlify(x)
    except binascii.Error as e:
        raise ValueError('non-hexadecimal number found') from e


# -- struct --------------------------------------------------------------------------------------

_codes = re.compile(r'(\d*)([xcbB?hHiIlLqQsp])')
SIZES = {'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4,
         'L': 4, 'q': 8, 'Q': 8}


def parse_format(fmt):
    if fmt[:1] not in ('!', '>') and fmt not in ('B', 'b', '?', 's'):
        unsupported('struct format ' + fmt)
    out = []
    for n, c in _codes.findall(fmt):
        if c in 'spx':
            out.append((c, int(n) if n else 1))
        else:
            out += [(c, 1)] * (int(n) if n else 1)
    return out


@model(struct.pack)
def m_pack(fmt, *a):
    if not any_sym(a, {}):
        return struct.pack(fmt, *a)
    items = parse_format(fmt)
    args = list(a)
    if len(args) != sum(1 for c, _ in items if c != 'x'):
        raise struct.error('wrong number of arguments')
    out = []
    for c, n in items:
        if c == 'x':
            out.append(Lit(bytes(n)))
            continue
        v = args.pop(0)
        if c in SIZES and not is_sym(v):
            out.append(Lit(struct.pack('>' + c, v)))
            continue
        if c == '?':
            p = mk_p(m_bool(v))
            out.append(IntC(z3.If(p, z3.IntVal(1), z3.IntVal(0)), 1))
        elif c in SIZES:
            z = zint(v)
            if z is None:
                raise struct.error('required argument is not an integer')
            size = SIZES[c]
            if c.islower():
                unsupported('signed struct format')
            if decide(z3.Not(z3.And(z >= 0, z < 256 ** size))):
                raise struct.error('argument out of range')
            out.append(IntC(z, size))
        elif c == 's':
            if not is_bytes_like(v):
                raise struct.error("argument for 's' must be a bytes object")
            ch, rest = rope.cut(chunks_of(v), n)
            m = total_len(ch)
            if type(m) is not int:
                unsupported('padding of data of unknown length')
            out += ch + [Lit(bytes(n - m))]
        else:
            if not is_bytes_like(v):
                raise struct.error("argument for 'p' must be a bytes object")
            ch, rest = rope.cut(chunks_of(v), n - 1)
            m = total_len(ch)
            if type(m) is int:
                out += [Lit(bytes([m]))] + ch + [Lit(bytes(n - 1 - m))]
            else:
                out.append(Atom('pstr%d' % n, (mk_bytes(ch),), n))
    return mk_bytes(out)


class StructModel:
    """struct.Struct"""

    def __init__(self, format):
        real = struct.Struct(format)
        self.format = real.format
        self.size = real.size

    def pack(self, *a):
        return m_pack(self.format, *a)

    def unpack(self, data):
        return m_unpack(self.format, data)

    def unpack_from(self, buffer, offset=0):
        return m_unpack_from(self.format, buffer, offset)


@model(struct.Struct)
def m_struct(format):
    return StructModel(format)


@model(struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    if not is_sym(buffer):
        return struct.unpack_from(fmt, buffer, offset)
    size = struct.calcsize(fmt)
    if bool(m_len(buffer) - offset < size):
        raise struct.error('unpack_from requires a larger buffer')
    return m_unpack(fmt, buffer[offset:offset + size])


@model(struct.unpack)
def m_unpack(fmt, data):
    if not is_sym(data):
        return struct.unpack(fmt, data)
    if type(data) is not SymBytes:
        raise TypeError('a bytes-like object is required')
    items = parse_format(fmt)
    size = struct.calcsize(fmt)
    n = total_len(data.chunks)
    if type(n) is int:
        if n != size:
            raise struct.error('unpack requires a buffer of %d bytes' % size)
    elif decide(n != size):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    out = []
    rest = data.chunks
    for c, k in items:
        w = SIZES.get(c, 1) * k
        part, rest = rope.cut(rest, w)
        if c == 'x':
            continue
        b = mk_bytes(part)
        if c == 's':
            out.append(b)
        elif c == 'p':
            out.append(unpascal(b, w))
        else:
            if c.islower():
                unsupported('signed struct format')
            v = rope.value_of(chunks_of(b)) if is_sym(b) \
                else int.from_bytes(b, 'big')
            if c == '?':
                v = m_bool(v)
            out.append(v)
    return tuple(out)


def unpascal(b, n):
    if not is_sym(b):
        return struct.unpack('%dp' % n, b)[0]
    ch = b.chunks
    if len(ch) == 1 and type(ch[0]) is Atom and \
            ch[0].kind == 'pstr%d' % n:
        return ch[0].args[0]
    k = b[0]
    if is_sym(k):
        if rope.is_blob(ch[0]) or type(ch[0]) is Part and \
                rope.is_blob(ch[0].atom):
            # opaque bytes: some other opaque bytes
            if decide(zfresh_bool('emptypstr')):
                return b''
            return b[1:]
        k = CUR.ex.concretize(k.z, 'a string length')
    return b[1:1 + min(k, n - 1)]


MODELS[struct.calcsize] = struct.calcsize


# -- hashes --------------------------------------------------------------------------------------

class SymHash:
    def __init__(self, name, data=b''):
        self.name = name
        self.parts = []
        self.digest_size = hashlib.new(name).digest_size
        self.block_size = 64
        if is_sym(data) or len(data):
            self.update(data)

    def update(self, data):
        if not is_bytes_like(data):
            raise TypeError('object supporting the buffer API required')
        self.parts += chunks_of(data)

    def digest(self):
        data = mk_bytes(self.parts)
        if not is_sym(data):
            d = hashlib.new(self.name, data).digest()
            CUR.ctx.hashed[self.name, d] = data
            return d
        return mk_bytes([Atom(self.name, (data,), self.digest_size)])

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        h = SymHash(self.name)
        h.parts = list(self.parts)
        return h


def _hash_model(name):
    def f(data=b'', **k):
        return SymHash(name, data)
    return f


for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512',
           'sha3_256', 'sha3_512'):
    MODELS[getattr(hashlib, _n)] = _hash_model(_n)


@model(hashlib.new)
def m_hash_new(name, data=b'', **k):
    return SymHash(name, data)


# -- time --------------------------------------------------------------------------------------------

MICRO = 1000000
DT_MIN = -62135596800 * MICRO
DT_MAX = 253402300800 * MICRO       # exclusive
TD_MAX = 86400 * 10 ** 9 * MICRO
EPOCH = _dt.datetime(1970, 1, 1)


def now_us():
    return CUR.ctx.clock()


def td_us(x):
    """Microseconds of a timedelta, as int or SymInt."""
    if type(x) is SymTD:
        return x.us
    return (x.days * 86400 + x.seconds) * MICRO + x.microseconds


def dt_us(x):
    if type(x) is SymDT:
        return x.us
    return td_us(x - EPOCH)


def is_td(x):
    return type(x) is SymTD or type(x) is _dt.timedelta


def is_dt(x):
    return type(x) is SymDT or type(x) is _dt.datetime


def mk_td(us):
    if type(us) is int:
        return _dt.timedelta(microseconds=us)
    if decide(mk_p((us <= -TD_MAX) | (us >= TD_MAX))):
        raise OverflowError('timedelta out of range')
    return SymTD(us)


def mk_dt(us):
    if decide(mk_p((us < DT_MIN) | (us >= DT_MAX))):
        raise OverflowError('date value out of range')
    if type(us) is int:
        return EPOCH + _dt.timedelta(microseconds=us)
    return SymDT(us)


class SymTime(Sym):
    __slots__ = ()

    def __repr__(self):
        return '<sym time>'

    def __str__(self):
        unsupported('native str() of a symbolic time')

    def __hash__(self):
        unsupported('hash of a symbolic time')


class SymTD(SymTime):
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    def __add__(self, o):
        if is_td(o):
            return mk_td(self.us + td_us(o))
        if is_dt(o):
            return mk_dt(self.us + dt_us(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if is_td(o):
            return mk_td(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if is_td(o):
            return mk_td(td_us(o) - self.us)
        if is_dt(o):
            return mk_dt(dt_us(o) - self.us)
        return NotImplemented

    def __neg__(self):
        return mk_td(-self.us)

    def __abs__(self):
        return mk_td(abs(self.us))

    def __mul__(self, o):
        if type(o) is float:
            n, d = o.as_integer_ratio()
            return mk_td(round_div(self.us * n, d))
        if zint(o) is not None:
            return mk_td(self.us * o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_td(o):
            return f_div_exact(self.us, td_us(o))
        n = py_int(o)
        if n is None or n == 0:
            unsupported('timedelta division')
        return mk_td(round_div(self.us if n > 0 else -self.us, abs(n)))

    def __floordiv__(self, o):
        if is_td(o):
            return self.us // td_us(o)
        return mk_td(self.us // o)

    def total_seconds(self):
        return f_div_exact(self.us, MICRO)

    @property
    def days(self):
        return self.us // (86400 * MICRO)

    @property
    def seconds(self):
        return self.us // MICRO % 86400

    @property
    def microseconds(self):
        return self.us % MICRO

    def __bool__(self):
        return bool(self.us != 0)

    def __eq__(self, o):
        return self.us == td_us(o) if is_td(o) else False

    def __ne__(self, o):
        return self.us != td_us(o) if is_td(o) else True

    def __lt__(self, o):
        return self.us < td_us(o) if is_td(o) else NotImplemented

    def __le__(self, o):
        return self.us <= td_us(o) if is_td(o) else NotImplemented

    def __gt__(self, o):
        return self.us > td_us(o) if is_td(o) else NotImplemented

    def __ge__(self, o):
        return self.us >= td_us(o) if is_td(o) else NotImplemented


def round_div(n, d):
    """Nearest integer to n / d, ties to even (d a positive int)."""
    if d == 1:
        return n
    if type(n) is int:
        q, r = divmod(n, d)
        return q + (1 if 2 * r > d or (2 * r == d and q % 2) else 0)
    q = n.z / z3.IntVal(d)
    r = n.z % z3.IntVal(d)
    return mk_int(z3.If(z3.Or(2 * r > d, z3.And(2 * r == d, q % 2 == 1)),
                        q + 1, q))


class SymDT(SymTime):
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.datetime

    def __add__(self, o):
        if is_td(o):
            return mk_dt(self.us + td_us(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if is_td(o):
            return mk_dt(self.us - td_us(o))
        if is_dt(o):
            return mk_td(self.us - dt_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if is_dt(o):
            return mk_td(dt_us(o) - self.us)
        return NotImplemented

    def timestamp(self):
        return f_div_exact(self.us, MICRO)

    def timetuple(self):
        return SymGM(self.us // MICRO)
    utctimetuple = timetuple

    def replace(self, **k):
        if list(k) == ['microsecond'] and py_int(k['microsecond']) == 0:
            return SymDT(self.us - self.us % MICRO)
        if list(k) == ['tzinfo'] and k['tzinfo'] is None:
            return self
        unsupported('datetime.replace')

    @property
    def microsecond(self):
        return self.us % MICRO

    @property
    def tzinfo(self):
        return None

    def isoformat(self, *a):
        return opaque_text()

    def __getattr__(self, name):
        if hasattr(_dt.datetime, name):
            unsupported('datetime.' + name)
        raise AttributeError(name)

    def __eq__(self, o):
        return self.us == dt_us(o) if is_dt(o) else False

    def __ne__(self, o):
        return self.us != dt_us(o) if is_dt(o) else True

    def __lt__(self, o):
        return self.us < dt_us(o) if is_dt(o) else NotImplemented

    def __le__(self, o):
        return self.us <= dt_us(o) if is_dt(o) else NotImplemented

    def __gt__(self, o):
        return self.us > dt_us(o) if is_dt(o) else NotImplemented

    def __ge__(self, o):
        return self.us >= dt_us(o) if is_dt(o) else NotImplemented


def patch_times():
    """Real times leave operations with symbolic ones to these."""
    def wrap(cls, name, sym, us):
        real = getattr(cls, name)

        def op(self, other):
            if isinstance(type(other), type) and \
                    issubclass(type(other), Sym):
                if issubclass(type(other), SymTime):
                    return NotImplemented
                return getattr(sym(us(self)), name)(other)
            return real(self, other)
        setattr(cls, name, op)

    for cls, sym, us in ((_dt.timedelta, SymTD, td_us),
                         (_dt.datetime, SymDT, dt_us)):
        for name in ('__add__', '__radd__', '__sub__', '__rsub__', '__eq__',
                     '__lt__', '__le__', '__gt__', '__ge__', '__mul__',
                     '__rmul__', '__truediv__', '__floordiv__', '__mod__',
                     '__divmod__'):
            if name in cls.__dict__ and hasattr(sym, name):
                wrap(cls, name, sym, us)


class SymGM(Sym):
    """A UTC time.struct_time: whole seconds since the epoch."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return time.struct_time


@model(_dt.datetime.utcnow)
def m_utcnow():
    us = now_us()
    return mk_dt(us)


@model(_dt.datetime.now)
def m_now(tz=None):
    if tz is not None:
        unsupported('time zones')
    return mk_dt(now_us())


def ts_us(t):
    """Microseconds of a time stamp argument (PyPy's datetime rules)."""
    k = rope.kind(t)
    if k in ('int', 'bool'):
        return t * MICRO
    if k != 'float':
        raise TypeError('timestamp must be a number')
    if type(t) is float:
        if t != t:
            raise ValueError('cannot convert float NaN to integer')
        if math.isinf(t):
            raise OverflowError('cannot convert float infinity to integer')
        n, d = t.as_integer_ratio()
        return round_div(n * MICRO, d)
    s = t.__round__() * MICRO
    if implied(z3.ToReal(z3.ToInt(t.z)) == t.z):
        return s
    f = t.z * MICRO
    kf = z3.ToInt(f)
    d = f - z3.ToReal(kf)
    return mk_int(z3.If(z3.Or(d > z3.Q(1, 2), z3.And(
        d == z3.Q(1, 2), kf % 2 == 1)), kf + 1, kf))


@model(_dt.datetime.utcfromtimestamp)
def m_utcfromtimestamp(t):
    us = ts_us(t)
    bad = mk_p((us < DT_MIN) | (us >= DT_MAX))
    if decide(bad):
        raise ValueError('year is out of range')
    return mk_dt(us)


@model(_dt.datetime.fromtimestamp)
def m_fromtimestamp(t, tz=None):
    if tz is not None:
        unsupported('time zones')
    return m_utcfromtimestamp(t)


@model(_dt.timedelta)
def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
                hours=0, weeks=0):
    parts = [(days, 86400 * MICRO), (seconds, MICRO), (microseconds, 1),
             (milliseconds, 1000), (minutes, 60 * MICRO),
             (hours, 3600 * MICRO), (weeks, 7 * 86400 * MICRO)]
    if not any(is_sym(p) for p, _ in parts):
        return _dt.timedelta(days, seconds, microseconds, milliseconds,
                             minutes, hours, weeks)
    us = 0
    for p, m in parts:
        k = rope.kind(p)
        if k in ('int', 'bool'):
            us = us + p * m
        elif k == 'float' and type(p) is float:
            n, d = p.as_integer_ratio()
            us = us + round_div(n * m, d)
        elif k == 'float':
            if implied(z3.ToReal(z3.ToInt(p.z)) == p.z):
                us = us + mk_int(z3.ToInt(p.z)) * m
            else:
                f = p.z * m
                kf = z3.ToInt(f)
                d = f - z3.ToReal(kf)
                us = us + mk_int(z3.If(z3.Or(d > z3.Q(1, 2), z3.And(
                    d == z3.Q(1, 2), kf % 2 == 1)), kf + 1, kf))
        else:
            raise TypeError('unsupported type for timedelta')
    return mk_td(us)


@model(time.time)
def m_time():
    us = now_us()
    if type(us) is int:
        return us / MICRO
    z = us.z
    if z3.is_mul(z) and z.num_args() == 2:
        for i in (0, 1):
            if z3.is_int_value(z.arg(i)) and \
                    z.arg(i).as_long() == MICRO:
                return mk_float(z3.ToReal(z.arg(1 - i)))
    if implied(z % MICRO == 0):
        return mk_float(z3.ToReal(z / MICRO))
    return f_div_exact(us, MICRO)


MODELS[time.monotonic] = m_time


@model(time.gmtime)
def m_gmtime(t=None):
    if t is None:
        us = now_us()
    else:
        us = ts_us(t)
    s = us // MICRO
    return SymGM(s) if is_sym(s) else time.gmtime(s)


@model(calendar.timegm)
def m_timegm(t):
    if type(t) is SymGM:
        return t.s
    return calendar.timegm(t)


@model(time.sleep)
def m_sleep(s):
    return None


# -- uuid -----------------------------------------------------------------------------------------

class SymUUID(Sym):
    """hi: the first 10 bytes; node: the last 6 as an integer."""
    __slots__ = ('hi', 'node_', 'is_safe')

    def __init__(self, hi, node):
        self.hi = hi
        self.node_ = node

    @property
    def __class__(self):
        return _uuid.UUID

    @property
    def node(self):
        return self.node_

    @property
    def bytes(self):
        n = self.node_
        if type(n) is int:
            low = n.to_bytes(6, 'big')
        else:
            low = n.to_bytes(6, 'big')
        return mk_bytes(list(chunks_of(self.hi)) + list(chunks_of(low)))

    @property
    def int(self):
        return m_from_bytes(self.bytes, 'big')

    @property
    def hex(self):
        return self.bytes.hex()

    @property
    def version(self):
        v = rope.value_of(chunks_of(self.hi))
        if decide(mk_p(v // (1 << 14) % 4 != 2)):
            return None
        return v // (1 << 28) % 16

    @property
    def variant(self):
        v = rope.value_of(chunks_of(self.hi))
        if decide(mk_p(v // (1 << 14) % 4 == 2)):
            return _uuid.RFC_4122
        unsupported('uuid variant')

    def text(self):
        return mk_str([Atom('uuidstr', (self.hi, self.node_), 36)])

    def __str__(self):
        unsupported('native str() of a symbolic uuid')

    def __repr__(self):
        return '<sym uuid>'

    def __hash__(self):
        unsupported('hash of a symbolic uuid')

    def __eq__(self, o):
        if type(o) is SymUUID:
            return mk_bool(zand([deq(self.hi, o.hi),
                                 mk_p(self.node_ == o.node_)]))
        if isinstance(o, _uuid.UUID):
            return mk_bool(zand([deq(self.hi, o.bytes[:10]),
                                 mk_p(self.node_ == o.node)]))
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __getattr__(self, name):
        if hasattr(_uuid.UUID, name):
            unsupported('UUID.' + name)
        raise AttributeError(name)


def mk_uuid(data):
    if not is_sym(data):
        return _uuid.UUID(bytes=data)
    return SymUUID(data[:10], m_from_bytes(data[10:16], 'big'))


@model(_uuid.UUID)
def m_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None,
           version=None, **k):
    if not any(is_sym(x) for x in (hex, bytes, bytes_le, fields, int,
                                   version)):
        return _uuid.UUID(hex, bytes, bytes_le, fields, int, version, **k)
    if [hex, bytes, bytes_le, fields, int].count(None) != 4:
        raise TypeError('one of the hex, bytes... arguments must be given')
    if version is not None:
        unsupported('UUID(version=)')
    if hex is not None:
        if type(hex) is SymBytes:
            raise TypeError('a bytes-like object is required')
        if type(hex) is not SymStr:
            raise AttributeError("object has no attribute 'replace'")
        ch = list(hex.chunks)
        for pre in ('urn:uuid:', 'urn:', 'uuid:'):
            if ch and type(ch[0]) is Lit and ch[0].v.startswith(pre):
                ch[0] = Lit(ch[0].v[len(pre):])
        if ch and type(ch[0]) is Lit:
            ch[0] = Lit(ch[0].v.strip('{}'))
        if ch and type(ch[-1]) is Lit:
            ch[-1] = Lit(ch[-1].v.strip('{}'))
        ch = [c for c in ch if not (type(c) is Lit and not c.v)]
        if len(ch) == 1 and type(ch[0]) is Atom and \
                ch[0].kind == 'uuidstr':
            hi, node = ch[0].args
            return SymUUID(hi, node)
        if all(type(c) in (Hex, Lit) for c in ch):
            txt = mk_str([Lit(c.v.replace('-', '')) if type(c) is Lit else c
                          for c in ch])
            n = total_len(chunks_of(txt))
            if n != 32:
                raise ValueError('badly formed hexadecimal UUID string')
            return mk_uuid(m_unhexlify(txt))
        if any(rope.is_blob(c) or type(c) is Atom for c in ch):
            raise ValueError('badly formed hexadecimal UUID string')
        unsupported('UUID of structured text')
    if bytes is not None:
        if type(bytes) is not SymBytes:
            raise TypeError('bytes expected')
        n = total_len(bytes.chunks)
        if type(n) is not builtins.int:
            if decide(n != 16):
                raise ValueError('bytes is not a 16-char string')
        elif n != 16:
            raise ValueError('bytes is not a 16-char string')
        return mk_uuid(bytes)
    if int is not None and type(int) is SymInt:
        if decide(mk_p((int < 0) | (int >= 1 << 128))):
            raise ValueError('int is out of range (need a 128-bit value)')
        return mk_uuid(int.to_bytes(16, 'big'))
    unsupported('UUID argument')


@model(_uuid.uuid1)
def m_uuid1(node=None, clock_seq=None):
    if node is None:
        node = mk_int(zfresh_int('node'))
        CUR.ex.add(z3.And(node.z >= 0, node.z < 1 << 48))
    elif rope.kind(node) not in ('int', 'bool'):
        raise TypeError('node must be an integer')
    if decide(mk_p((node < 0) | (node >= 1 << 48))):
        raise ValueError('field 6 out of range (need a 48-bit value)')
    hi = zfresh_int('uuid1')
    CUR.ex.add(z3.And(hi >= 0, hi < 1 << 80,
                      hi / (1 << 28) % 16 == 1, hi / (1 << 14) % 4 == 2))
    for old in CUR.ctx.uuids:       # never the same one twice
        CUR.ex.add(hi != old)
    CUR.ctx.uuids.append(hi)
    return SymUUID(mk_bytes([IntC(hi, 10)]), node)


@model(_uuid.uuid4)
def m_uuid4():
    hi = zfresh_int('uuid4')
    node = zfresh_int('node')
    CUR.ex.add(z3.And(hi >= 0, hi < 1 << 80, node >= 0, node < 1 << 48,
                      hi / (1 << 28) % 16 == 4, hi / (1 << 14) % 4 == 2))
    return SymUUID(mk_bytes([IntC(hi, 10)]), SymInt(node, nbits=48))


# -- addresses ------------------------------------------------------------------------------------

@model(ipaddress.ip_address)
def m_ip_address(x):
    if not is_sym(x):
        return ipaddress.ip_address(x)
    t = type(x)
    if t is SymStr:
        if len(x.chunks) == 1 and type(x.chunks[0]) is Atom and \
                x.chunks[0].kind == 'ipstr':
            return SymIP(x.chunks[0].args[0])
        raise ValueError('does not appear to be an IPv4 or IPv6 address')
    if t is SymBytes:
        n = total_len(x.chunks)
        if type(n) is int:
            good = n in (4, 16)
        else:
            good = decide(z3.Or(n == 4, n == 16))
        if not good:
            raise ValueError('does not appear to be an address')
        return SymIP(None)
    if t in (SymInt, SymBool):
        z = zint(x)
        if decide(z3.And(z >= 0, z < 1 << 128)):
            return SymIP(None)
        raise ValueError('does not appear to be an address')
    raise ValueError('does not appear to be an address')


class SymIP(Sym):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @property
    def __class__(self):
        return ipaddress.IPv4Address

    def __getattr__(self, name):
        unsupported('attributes of a symbolic address')

    def __hash__(self):
        unsupported('hash of a symbolic address')


@model(ipaddress.IPv4Address)
def m_ipv4(x):
    if not is_sym(x):
        return ipaddress.IPv4Address(x)
    try:
        return m_ip_address(x)
    except ValueError as e:
        raise ipaddress.AddressValueError('not an address') from e


# -- numbers --------------------------------------------------------------------------------------

@model(math.ceil)
def m_ceil(x):
    if type(x) is SymLog2:
        return -(SymLog2(x.d, x.n).floor())
    if is_sym(x):
        return x.__ceil__()
    return math.ceil(x)


@model(math.floor)
def m_floor(x):
    if type(x) is SymLog2:
        return x.floor()
    if is_sym(x):
        return x.__floor__()
    return math.floor(x)


@model(math.trunc)
def m_trunc(x):
    return x.__trunc__()


class SymLog2(Sym):
    """log2(n / d) for positive integer terms n, d below 2**40."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    def floor(self):
        """Greatest k with 2**k <= n/d; exact, as |log2| is far from an
        integer when n/d is no power of two (n, d below 2**40)."""
        for k in range(-40, 41):
            lo = self.n * (1 << -k) < self.d if k < 0 \
                else self.n < self.d * (1 << k)
            if decide(lo):
                return k - 1
        unsupported('logarithm out of range')

    def __neg__(self):
        return SymLog2(self.d, self.n)

    def __float__(self):
        unsupported('native use of a logarithm')

    def __hash__(self):
        unsupported('hash of a logarithm')


@model(math.log2)
def m_log2(x):
    if not is_sym(x):
        return math.log2(x)
    if type(x) is SymInt:
        n, d = x.z, z3.IntVal(1)
    elif type(x) is SymFloat and x.ratio is not None:
        n, d = x.ratio
    else:
        unsupported('log2 of a computed float')
    if decide(n * d <= 0):
        raise ValueError('math domain error')
    if not implied(z3.And(n > 0, d > 0, n < 1 << 40, d < 1 << 40)):
        unsupported('log2 of a large number')
    return SymLog2(n, d)


# -- randomness -------------------------------------------------------------------------------------

@model(random.sample)
def m_sample(population, k, **kw):
    if kw:
        unsupported('random.sample with counts')
    items = sorted(population) if isinstance(population, (set, frozenset)) \
        else list(population)
    n = len(items)
    if is_sym(k):
        if bool(k < 0) or bool(k > n):
            raise ValueError(
                'Sample larger than population or is negative')
        k = k.__index__()
    if not 0 <= k <= n:
        raise ValueError('Sample larger than population or is negative')
    if k == 0:
        picked = []
    elif k == n:
        picked = list(items)
    else:
        if math.comb(n, k) <= CUR.ctx.sample_limit:
            combos = list(itertools.combinations(range(n), k))
        else:
            w = window(n)
            if k <= len(w):
                combos = list(itertools.combinations(w, k))
            elif n - k <= len(w):
                combos = [tuple(i for i in range(n) if i not in c)
                          for c in itertools.combinations(w, n - k)]
            else:
                combos = [tuple(range(k)), tuple(range(n - k, n))]
        i = CUR.ctx.fork('sample', len(combos))
        picked = [items[j] for j in combos[i]]
    CUR.ctx.record('sample', picked)
    return picked


def window(n):
    """Positions considered when the population is large."""
    w = sorted(set([0, n // 2, n - 1]))
    return [i for i in w if 0 <= i < n]


@model(random.choice)
def m_choice(seq):
    seq = list(seq)
    i = CUR.ctx.fork('choice', len(seq))
    CUR.ctx.record('choice', i)
    return seq[i]


@model(random.randint)
def m_randint(a, b):
    return m_randrange(a, b + 1)


@model(random.randrange)
def m_randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    if step != 1:
        unsupported('randrange with a step')
    x = zfresh_int('rand')
    CUR.ex.add(z3.And(x >= start, x < stop))
    r = mk_int(x)
    CUR.ctx.record('rand', r)
    return r


@model(random.shuffle)
def m_shuffle(x):
    items = list(x)
    if len(items) > 4:
        unsupported('shuffle of a long list')
    perms = list(itertools.permutations(range(len(items))))
    i = CUR.ctx.fork('shuffle', len(perms))
    CUR.ctx.record('shuffle', list(perms[i]))
    x[:] = [items[j] for j in perms[i]]


# -- semantic_version -------------------------------------------------------------

def shortcut_versions():
    """The decimal text of a number has no superfluous zero."""
    import semantic_version.base as sv
    plain = sv._has_leading_zero

    def has_leading_zero(value):
        if type(value) is SymStr and len(value.chunks) == 1 and \
                type(value.chunks[0]) is Dec:
            return False
        return plain(value)
    sv._has_leading_zero = has_leading_zero
