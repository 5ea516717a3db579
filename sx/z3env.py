"""Makes the installed z3 Python bindings importable in this interpreter.

The bindings are pure Python over ctypes, so the ones installed for CPython
work under PyPy, where the code under test runs.
"""
import importlib.util
import os
import sys

CANDIDATES = (
    '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3',
)


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for path in CANDIDATES:
        init = os.path.join(path, '__init__.py')
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                'z3', init, submodule_search_locations=[path])
            module = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = module
            spec.loader.exec_module(module)
            return module
    import z3
    return z3


z3 = load()


# -- terms built once -----------------------------------------------------------
#
# Paths are re-executed from the start, so the same terms are built over and
# over; calls into the library are slow in this interpreter.  Terms are
# immutable, so each is remembered by the operation and its arguments.

MEMO = {}
LIMIT = 1000000
AstRef = z3.AstRef


def remember(op, f):
    """f, with its results remembered when all its arguments are terms."""
    def g(*args):
        key = [op]
        for a in args:
            t = type(a)
            if t is list:
                key.append(len(a))
                for x in a:
                    if type(x) is bool:
                        key.append(x)
                        key.append('v')
                    elif isinstance(x, AstRef):
                        key.append(id(x))
                    else:
                        return f(*args)
            elif t is int or t is bool or t is str:
                key.append('v' if t is int else t)
                key.append(a)
            elif isinstance(a, AstRef):
                key.append(id(a))
            else:
                return f(*args)
        key = tuple(key)
        r = MEMO.get(key)
        if r is not None:
            return r[0]
        r = f(*args)
        if len(MEMO) > LIMIT:
            MEMO.clear()
        # the arguments are kept, so their identities stay theirs
        MEMO[key] = (r, args if not any(type(a) is list for a in args)
                     else [list(a) if type(a) is list else a for a in args])
        return r
    g.__name__ = getattr(f, '__name__', op)
    return g


def patch():
    for name in ('And', 'Or', 'Not', 'If', 'Int', 'Bool', 'IntVal',
                 'BoolVal', 'Implies', 'Xor', 'Sum', 'simplify', 'IntSort',
                 'BoolSort', 'is_true', 'is_false', 'is_int_value', 'ToReal',
                 'ToInt', 'Function'):
        setattr(z3, name, remember(name, getattr(z3, name)))
        if hasattr(z3.z3, name):
            setattr(z3.z3, name, getattr(z3, name))
    for cls, names in (
            (z3.ExprRef, ('__eq__', '__ne__', 'sort', 'decl')),
            (z3.BoolRef, ('sort', '__invert__')),
            (z3.ArithRef, ('__add__', '__radd__', '__sub__', '__rsub__',
                           '__mul__', '__rmul__', '__neg__', '__mod__',
                           '__div__', '__truediv__', '__lt__', '__le__',
                           '__gt__', '__ge__', 'sort')),
            (z3.FuncDeclRef, ('__call__',))):
        for n in names:
            f = cls.__dict__.get(n)
            if f is not None:
                setattr(cls, n, remember('%s.%s' % (cls.__name__, n), f))
    # terms stay: identities in MEMO and pointers in the library both do
    del AstRef.__del__


if os.environ.get('VERIF_PLAIN_Z3') != '1':
    patch()
