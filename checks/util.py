"""Helpers shared by the harnesses."""
import sympy

from kerncraft import kernel as _k


def mk_kernel(code, constants=None, machine=None, filename=None):
    k = _k.KernelCode(code, machine, filename=filename)
    for n, v in (constants or {}).items():
        k.set_constant(n, v)
    return k


def sym(name):
    return _k.symbol_pos_int(name)


def ceildiv(a, b):
    return -((-a) // b)


def evaluate(expr, env):
    """value of a sympy expression of +, -, * with symbols bound by name in env"""
    if isinstance(expr, sympy.Symbol):
        if expr.name.startswith('_sx'):
            from symx import sympybridge
            return sympybridge.REG[expr]
        return env[expr.name]
    if isinstance(expr, sympy.Integer):
        return int(expr)
    if not isinstance(expr, sympy.Basic):
        return expr
    if isinstance(expr, sympy.Add):
        r = 0
        for a in expr.args:
            r = r + evaluate(a, env)
        return r
    if isinstance(expr, sympy.Mul):
        r = 1
        for a in expr.args:
            r = r * evaluate(a, env)
        return r
    if isinstance(expr, sympy.Pow):
        r = 1
        for _ in range(int(expr.exp)):
            r = r * evaluate(expr.base, env)
        return r
    raise ValueError(expr)


class Literals:
    """Integer literals of C code with symbolic values: the code holds placeholders, which are
    exchanged in the syntax tree the parser returns.  Concretely they are ordinary literals."""

    def __init__(self, ctx):
        self.ctx, self.env, self.tokens = ctx, {}, {}
        if ctx.symbolic:
            from pycparser import CParser, c_ast
            tokens = self.tokens

            class Parser:
                def __init__(self, *a, **k):
                    self.parser = CParser(*a, **k)

                def parse(self, *a, **k):
                    tree = self.parser.parse(*a, **k)
                    todo = [tree]
                    while todo:
                        n = todo.pop()
                        if isinstance(n, c_ast.Constant) and n.value in tokens:
                            n.value = tokens[n.value]
                        todo.extend(c for _, c in n.children())
                    return tree
            _k.CParser = Parser

    def new(self, name, lo, hi):
        """declares literal *name* and returns its value"""
        v = self.env[name] = self.ctx.int(name, lo, hi)
        return v

    def text(self, code):
        """C code with the literals filled in"""
        import re

        def fill(m):
            v = self.env[m.group(0)]
            if not hasattr(v, 't'):
                return '%d' % v
            from symx import strings
            p = '%d' % (770000 + sorted(self.env).index(m.group(0)))
            self.tokens[p] = strings.token(v)
            return p
        return re.sub(r'\b_c\d+\b', fill, code)
