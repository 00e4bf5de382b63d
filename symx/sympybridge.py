"""Symbolic values inside sympy expressions: a SymInt enters sympy as a registered Symbol, and
expressions over registered symbols are translated back to z3 terms where the code under test
asks for their value or truth."""
import z3

from . import core, values
from .values import SymInt, SymReal, SymBool, eng, is_sym

REG = {}        # sympy.Symbol -> SymInt/SymReal
_sympy = None


def sympy():
    global _sympy
    if _sympy is None:
        import sympy as s
        _sympy = s
    return _sympy


def is_basic(x):
    return isinstance(x, sympy().Basic)


def reset():
    REG.clear()


def symbol_for(v):
    s = sympy()
    for sym, o in REG.items():
        if type(o) is type(v) and o.t.eq(v.t):
            return sym
    kw = {}
    if isinstance(v, SymInt):
        kw['integer'] = True
    else:
        kw['real'] = True
    e = eng()
    # Assumptions hold on the current path only: the registry is reset for every path and the
    # symbol's name carries them.
    if e._check(v.t <= 0) == z3.unsat:
        kw['positive'] = True
        tag = 'p'
    elif e._check(v.t < 0) == z3.unsat:
        kw['nonnegative'] = True
        tag = 'n'
    else:
        tag = 'z'
    sym = s.Symbol('_sx%d%s' % (len(REG), tag), **kw)
    REG[sym] = v
    return sym


def has_sym(x):
    try:
        fs = x.free_symbols
    except AttributeError:
        return False
    return bool(fs) and all(f in REG for f in fs)


def any_sym(x):
    fs = getattr(x, 'free_symbols', ())
    return any(f in REG for f in fs)


def to_value(x):
    """sympy expression over registered symbols -> python/symbolic number or boolean"""
    s = sympy()
    if isinstance(x, s.Symbol):
        return REG[x]
    if isinstance(x, s.Integer):
        return int(x)
    if isinstance(x, s.Rational):
        from fractions import Fraction
        return Fraction(int(x.p), int(x.q))
    if isinstance(x, s.Float):
        return float(x)
    if isinstance(x, s.NumberSymbol):
        return float(x)
    if x is s.true:
        return True
    if x is s.false:
        return False
    if isinstance(x, s.Add):
        r = 0
        for a in x.args:
            r = r + to_value(a)
        return r
    if isinstance(x, s.Mul):
        num, den = 1, 1
        for a in x.args:
            if isinstance(a, s.Pow) and a.exp.is_Integer and a.exp < 0:
                den = den * to_value(a.base) ** int(-a.exp)
            elif isinstance(a, s.Rational) and not isinstance(a, s.Integer):
                num = num * int(a.p)
                den = den * int(a.q)
            else:
                num = num * to_value(a)
        return num if isinstance(den, int) and den == 1 else num / den
    if isinstance(x, s.Pow):
        b = to_value(x.base)
        if x.exp.is_Integer:
            n = int(x.exp)
            return b ** n if n >= 0 else 1 / (b ** (-n))
        return b ** to_value(x.exp)
    if isinstance(x, s.floor):
        v = to_value(x.args[0])
        import math
        return v.__floor__() if is_sym(v) else math.floor(v)
    if isinstance(x, s.ceiling):
        v = to_value(x.args[0])
        import math
        return v.__ceil__() if is_sym(v) else math.ceil(v)
    if isinstance(x, s.Mod):
        return to_value(x.args[0]) % to_value(x.args[1])
    if isinstance(x, s.Abs):
        return abs(to_value(x.args[0]))
    if isinstance(x, (s.Max, s.Min)):
        vs = [to_value(a) for a in x.args]
        r = vs[0]
        for v in vs[1:]:
            r = values.ite(v > r if isinstance(x, s.Max) else v < r, v, r)
        return r
    if isinstance(x, s.core.relational.Relational):
        a, b = to_value(x.lhs), to_value(x.rhs)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b,
                '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[x.rel_op]()
    if isinstance(x, s.And):
        return SymBool(z3.And([values.bterm(to_value(a)) for a in x.args]))
    if isinstance(x, s.Or):
        return SymBool(z3.Or([values.bterm(to_value(a)) for a in x.args]))
    if isinstance(x, s.Not):
        return SymBool(z3.Not(values.bterm(to_value(x.args[0]))))
    if type(x).__name__ == 'int_floor':
        return to_value(x.args[0]) // to_value(x.args[1])
    if type(x).__name__ == 'int_ceil':
        return -((-to_value(x.args[0])) // to_value(x.args[1]))
    if isinstance(x, s.Piecewise):
        r = None
        for e, c in reversed(x.args):
            v = to_value(e)
            r = v if r is None or c is s.true else values.ite(to_value(c), v, r)
        return r
    raise core.Inconclusive('sympy node %s' % type(x).__name__)


def _cmp(a, b):
    if not REG or not (is_basic(a) or is_basic(b)):
        return None
    s = sympy()

    def val(x):
        if is_sym(x):
            return x
        if isinstance(x, s.Basic):
            if isinstance(x, s.Expr) and (has_sym(x) or x.is_number):
                return to_value(x)
            return None
        return x if values.as_num(x) is not None else None
    if not ((isinstance(a, s.Expr) and has_sym(a)) or (isinstance(b, s.Expr) and has_sym(b))):
        return None
    va, vb = val(a), val(b)
    if va is None or vb is None:
        return None
    return va == vb


def eq(a, b):
    r = _cmp(a, b)
    return (a == b) if r is None else r


def ne(a, b):
    r = _cmp(a, b)
    if r is None:
        return a != b
    return SymBool(z3.Not(r.t)) if isinstance(r, SymBool) else not r


FALLBACK_FUNCS = {'int_floor': lambda x, y: x // y, 'int_ceil': lambda x, y: -((-x) // y)}


def install():
    s = sympy()
    rel = s.core.relational.Relational
    old = rel.__bool__

    def rel_bool(self):
        if REG and has_sym(self):
            return bool(to_value(self))
        return old(self)
    rel.__bool__ = rel_bool
    rel.__nonzero__ = rel_bool

    real_lambdify = s.lambdify

    def lambdify(args, expr, *a, **k):
        exprs = expr if isinstance(expr, (list, tuple)) else [expr]
        extra = []
        for e in exprs:
            for f in getattr(e, 'free_symbols', ()):
                if f in REG and f not in extra:
                    extra.append(f)
        if not extra:
            return real_lambdify(args, expr, *a, **k)
        single = isinstance(args, s.Symbol)
        largs = [args] if single else list(args)
        mods = k.pop('modules', None)
        if a:
            mods, a = a[0], a[1:]
        mods = mods if isinstance(mods, list) else ([mods] if mods is not None else ['numpy'])
        f = real_lambdify(largs + extra, expr, mods + [FALLBACK_FUNCS], *a, **k)
        vals = [REG[x] for x in extra]
        return lambda *xs: f(*(list(xs) + vals))
    s.lambdify = lambdify
