"""Import hook: load the modules under test from the current source, instrumented so that
builtins, string methods, ``in`` and formatting understand symbolic values.

The transformation keeps the semantics of the code for ordinary values (see dispatch helpers in
strings.py): every helper falls through to the original operation."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import math
import re
import sys

from . import builtins_sym, strings, regex, sympybridge, symnumpy

STR_METHODS = {'join', 'format', 'startswith', 'endswith', 'find', 'rfind', 'index', 'rindex',
               'count', 'replace', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'partition',
               'rpartition', 'get', 'pop', 'setdefault', 'removeprefix', 'removesuffix', 'Integer'}
MATH_FROM = {'floor', 'ceil', 'trunc', 'isinf', 'isnan', 'isclose', 'fabs', 'fsum', 'gcd', 'sqrt'}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Transform(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                and f.value.func.id == 'super'):
            return ast.Call(_name('__symx_call__'), [
                f.value, ast.Constant(f.attr), ast.Tuple(node.args, ast.Load()),
                ast.Dict([ast.Constant(k.arg) if k.arg else None for k in node.keywords],
                         [k.value for k in node.keywords])], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = ast.Call(_name('__symx_in__'), [node.left, node.comparators[0]], [])
                return c if isinstance(op, ast.In) else ast.UnaryOp(ast.Not(), c)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return ast.Call(_name('__symx_eq__' if isinstance(op, ast.Eq) else '__symx_ne__'),
                                [node.left, node.comparators[0]], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return ast.Call(_name('__symx_getitem__'), [node.value, node.slice], [])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(_name('__symx_mod__'), [node.left, node.right], [])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else \
                    ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(ast.Tuple([v, ast.Constant(None), ast.Constant(None)], ast.Load()))
        return ast.Call(_name('__symx_fstr__'), [ast.List(parts, ast.Load())], [])

    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            tgt = a.asname or a.name
            if a.name in ('re', 'math', 'numpy'):
                out.append(ast.Assign([ast.Name(tgt, ast.Store())], _name('__symx_%s__' % a.name)))
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.level == 0 and node.module == 'math':
            for a in node.names:
                if a.name in MATH_FROM:
                    out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())],
                                          ast.Attribute(_name('__symx_math__'), a.name,
                                                        ast.Load())))
        if node.level == 0 and node.module == 're':
            for a in node.names:
                if a.name in ('match', 'search', 'compile', 'sub', 'fullmatch', 'split',
                              'findall', 'finditer'):
                    out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())],
                                          ast.Attribute(_name('__symx_re__'), a.name, ast.Load())))
        return out


HELPERS = {
    '__symx_call__': strings.dispatch,
    '__symx_in__': strings.contains,
    '__symx_getitem__': strings.getitem,
    '__symx_mod__': strings.modformat,
    '__symx_fstr__': strings.fstring,
    '__symx_eq__': sympybridge.eq,
    '__symx_ne__': sympybridge.ne,
    '__symx_re__': regex.sre,
    '__symx_math__': builtins_sym.smath,
    '__symx_numpy__': symnumpy.symnumpy,
}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        return self.source_to_code(src, path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        module.__dict__.update(builtins_sym.GLOBALS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(prefixes=('kerncraft', 'checks')):
    sys.meta_path.insert(0, Finder(prefixes))
    sympybridge.install()
