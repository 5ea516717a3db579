"""Import hook: the code under test is rewritten, from its current source, so
that every operation which may meet a symbolic value goes through the models.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.util
import os
import sys

from . import models
from .values import unsupported

SEEN = set()        # functions of the code under test executed

SKIP_CALLS = ('super', 'locals', 'globals', 'vars', 'dir')


def plain(e):
    """Is it an expression without effects?"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return plain(e.value)
    if isinstance(e, ast.UnaryOp):
        return plain(e.operand)
    if isinstance(e, ast.BinOp):
        return plain(e.left) and plain(e.right)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == 'len' and \
            not e.keywords and all(map(plain, e.args))
    return False


def condition(e):
    """Is it a boolean without effects?"""
    if isinstance(e, ast.Compare):
        return all(map(plain, [e.left] + e.comparators))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return plain(e.operand) or condition(e.operand)
    if isinstance(e, ast.BoolOp):
        return all(map(condition, e.values))
    return False


def thunk(e):
    return ast.copy_location(ast.Lambda(ast.arguments(
        posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
        kwarg=None, defaults=[]), e), e)


class Rewriter(ast.NodeTransformer):

    def __init__(self, module, track):
        self.module = module
        self.track = track
        self.scope = []

    def helper(self, name, args, node):
        f = ast.Name('__sx_%s__' % name, ast.Load())
        return ast.copy_location(ast.Call(f, args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            return node
        if isinstance(f, ast.Name) and f.id.startswith('__sx_'):
            return node
        g = ast.copy_location(ast.Name('__sx_call__', ast.Load()), f)
        return ast.copy_location(
            ast.Call(g, [f] + node.args, node.keywords), node)

    def in_function(self):
        return bool(self.scope) and self.scope[-1][1]

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.helper('not', [node.operand], node)
        return node

    def visit_Lambda(self, node):
        self.scope.append(('<lambda>', True))
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_BoolOp(self, node):
        """Both sides of a condition without effects become one condition
        where that takes no fork."""
        name = 'and' if isinstance(node.op, ast.And) else 'or'
        joined = [self.in_function() and condition(v) for v in node.values]
        self.generic_visit(node)
        out = node.values[0]
        for v, join in list(zip(node.values, joined))[1:]:
            if join:
                out = self.helper(name, [out, thunk(v)], node)
            else:
                out = ast.copy_location(ast.BoolOp(node.op, [out, v]), node)
        return out

    def visit_Compare(self, node):
        if len(node.ops) != 1:
            if not (self.in_function() and condition(node)):
                self.generic_visit(node)
                return node
            sides = [node.left] + node.comparators
            return self.visit_BoolOp(ast.copy_location(ast.BoolOp(
                ast.And(), [ast.copy_location(ast.Compare(
                    copy.deepcopy(a), [op], [copy.deepcopy(b)]), node)
                    for a, op, b in zip(sides, node.ops, sides[1:])]), node))
        self.generic_visit(node)
        names = {ast.In: 'in', ast.NotIn: 'not_in', ast.Is: 'is',
                 ast.IsNot: 'is_not'}
        name = names.get(type(node.ops[0]))
        if name is None:
            return node
        return self.helper(name, [node.left, node.comparators[0]], node)

    @staticmethod
    def index(s):
        """The slice part of a subscript as an expression."""
        if isinstance(s, getattr(ast, 'Index', ())) and hasattr(s, 'value'):
            s = s.value
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(
                ast.Name('__sx_slice__', ast.Load()),
                [s.lower or none, s.upper or none, s.step or none], [])
        return s

    def simple_index(self, s):
        s = self.index(s)
        if isinstance(s, ast.Tuple) and any(
                isinstance(x, (ast.Slice, ast.Starred)) for x in s.elts):
            return None
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        i = self.simple_index(node.slice)
        if i is None:
            return node
        return self.helper('getitem', [node.value, i], node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript):
            t = node.targets[0]
            i = self.simple_index(t.slice)
            if i is not None:
                return ast.copy_location(ast.Expr(self.helper(
                    'setitem', [t.value, i, node.value], node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            i = self.simple_index(t.slice) if isinstance(
                t, ast.Subscript) else None
            if i is None:
                out.append(ast.copy_location(ast.Delete([t]), node))
            else:
                out.append(ast.copy_location(ast.Expr(self.helper(
                    'delitem', [t.value, i], node)), node))
        return out

    def visit_JoinedStr(self, node):
        return self.fstring(node)

    def fstring(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
                continue
            spec = ast.Constant('')
            if v.format_spec is not None:
                spec = self.fstring(v.format_spec)
            args.append(ast.Tuple([self.visit(v.value),
                                   ast.Constant(v.conversion), spec],
                                  ast.Load()))
        return self.helper('fstr', args, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.helper('mod', [node.left, node.right], node)
        return node

    def _decorated(self, node):
        self.scope.append((node.name, not isinstance(node, ast.ClassDef)))
        self.generic_visit(node)
        name = '.'.join([self.module] + [n for n, _ in self.scope])
        self.scope.pop()
        if self.track and not isinstance(node, ast.ClassDef):
            mark = ast.copy_location(ast.Expr(ast.Call(
                ast.Name('__sx_seen__', ast.Load()),
                [ast.Constant(name)], [])), node.body[0])
            node.body.insert(1 if ast.get_docstring(node, False) is not None
                             and len(node.body) > 1 else 0, mark)
        node.decorator_list = [
            self.helper('deco', [d], d) for d in node.decorator_list]
        return node

    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _decorated

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(ast.Call(
            ast.Name('__sx_caught__', ast.Load()), [], [])), node.body[0]))
        return node

    def visit_AnnAssign(self, node):
        # annotations are not executed for their effect
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node


def caught():
    """A fault of the engine must not pass for an error of the code."""
    kind, e, tb = sys.exc_info()
    if not issubclass(kind, (NameError, AssertionError)):
        return
    while tb.tb_next is not None:
        tb = tb.tb_next
    if tb.tb_frame.f_code.co_filename.startswith(HERE):
        unsupported('%s in the engine: %s' % (kind.__name__, e))


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep

HELPERS = {
    'caught': caught,
    'call': models.call,
    'deco': models.deco,
    'in': models.sx_in,
    'not_in': models.sx_not_in,
    'is': models.sx_is,
    'is_not': models.sx_is_not,
    'getitem': models.getitem,
    'setitem': models.setitem,
    'delitem': models.delitem,
    'fstr': models.fstr,
    'mod': models.sx_mod,
    'not': models.sx_not,
    'and': models.sx_and,
    'or': models.sx_or,
    'slice': slice,
    'seen': SEEN.add,
}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            source = f.read()
        tree = ast.parse(source, self.path)
        name = module.__name__
        tree = Rewriter(name, name.startswith('golem_messages')).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        models.INSTRUMENTED.add(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments the packages in roots: name -> directory."""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        parts = name.split('.')
        if parts[0] not in self.roots:
            return None
        base = os.path.join(self.roots[parts[0]], *parts[1:])
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(init),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots):
    for k, v in HELPERS.items():
        setattr(builtins, '__sx_%s__' % k, v)
    sys.meta_path.insert(0, Finder(roots))
