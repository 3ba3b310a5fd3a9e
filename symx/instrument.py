"""Load the package under test with instrumented AST (calls, subscripts, f-strings, membership tests)."""
from __future__ import annotations

import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

PKG = 'dliswriter'
ROOT = os.environ.get('VERIF_REPO_SRC', '/repo/src')


class Tr(ast.NodeTransformer):

    def __init__(self):
        self.stats = {'calls': 0, 'functions': 0}

    def visit_FunctionDef(self, node):
        self.stats['functions'] += 1
        # annotations are not executed code of interest
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        decs = node.decorator_list
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decs
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        # keep annotation (dataclasses, TypedDict); instrument only the value
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'TypeVar',
                                                                'NewType', 'TypedDict', '__sx_call__'):
            return node
        self.stats['calls'] += 1
        return ast.copy_location(ast.Call(func=ast.Name('__sx_call__', ast.Load()), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = _slice_expr(node.slice)
            return ast.copy_location(ast.Call(func=ast.Name('__sx_getitem__', ast.Load()), args=[node.value, sl],
                                              keywords=[]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            call = ast.Call(func=ast.Name('__sx_setitem__', ast.Load()),
                            args=[t.value, _slice_expr(t.slice), node.value], keywords=[])
            return ast.copy_location(ast.Expr(call), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Name('__sx_in__', ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            r = c if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(r, node)
        return node

    def visit_If(self, node):
        # a branch that does nothing but log is not decided: it cannot influence anything else
        if not node.orelse and all(_is_log(x) for x in node.body) and not any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node.test)):
            test = _lazy_test(self.visit(node.test))
            body = ast.Tuple([self.visit(x.value) for x in node.body], ast.Load())
            call = ast.Call(func=ast.Name('__sx_logif__', ast.Load()), args=[_lambda(test), _lambda(body)], keywords=[])
            return ast.copy_location(ast.Expr(call), node)
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(func=ast.Name('__sx_fstr__', ast.Load()), args=parts, keywords=[]), node)


LOGS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical'}


def _is_log(x):
    return isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
        x.value.func.attr in LOGS and isinstance(x.value.func.value, ast.Name) and 'log' in x.value.func.value.id


def _lambda(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def _lazy_test(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return ast.Call(func=ast.Name('__sx_not__', ast.Load()), args=[_lazy_test(t.operand)], keywords=[])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and isinstance(
            t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        c = ast.Call(func=ast.Name('__sx_isnone__', ast.Load()), args=[t.left], keywords=[])
        return c if isinstance(t.ops[0], ast.Is) else ast.Call(func=ast.Name('__sx_not__', ast.Load()), args=[c], keywords=[])
    return t


def _slice_expr(s):
    def one(x):
        if isinstance(x, ast.Slice):
            return ast.Call(func=ast.Name('__sx_slice__', ast.Load()),
                            args=[y if y is not None else ast.Constant(None) for y in (x.lower, x.upper, x.step)],
                            keywords=[])
        if isinstance(x, ast.Tuple):
            return ast.Tuple([one(y) for y in x.elts], ast.Load())
        return x
    return one(s)


_CODE = {}
TOTALS = {'calls': 0, 'functions': 0, 'modules': 0}


def code_for(path):
    if path not in _CODE:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tr = Tr()
        tree = ast.fix_missing_locations(tr.visit(tree))
        _CODE[path] = compile(tree, path, 'exec')
        TOTALS['calls'] += tr.stats['calls']
        TOTALS['functions'] += tr.stats['functions']
        TOTALS['modules'] += 1
    return _CODE[path]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(code_for(self.path), module.__dict__)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == PKG or name.startswith(PKG + '.'):
            root = ROOT
        elif name == 'props' or name.startswith('props.'):
            root = VERIF        # harnesses are executed symbolically as well
        else:
            return None
        base = os.path.join(root, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        return None


FINDER = Finder()


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]


def load_props(name, symbolic):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if symbolic and FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    for k in [k for k in sys.modules if k == 'props' or k.startswith('props.')]:
        del sys.modules[k]
    return importlib.import_module('props.' + name)


def load_instrumented(lru_cache, cache):
    """Fresh instance of the whole package, instrumented. Returns the top module."""
    purge()
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    o1, o2 = functools.lru_cache, functools.cache
    functools.lru_cache, functools.cache = lru_cache, cache
    try:
        return importlib.import_module(PKG)
    finally:
        functools.lru_cache, functools.cache = o1, o2


def load_real():
    """Fresh instance of the uninstrumented package."""
    purge()
    if FINDER in sys.meta_path:
        sys.meta_path.remove(FINDER)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module(PKG)
