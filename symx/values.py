"""Proxy values: symbolic integers, reals (for floats) and booleans."""
import math
import numbers
import operator
from fractions import Fraction

import z3

from . import core

_int, _float, _isinstance, _type, _str, _bool = int, float, isinstance, type, str, bool


def eng():
    e = core.ENGINE
    if e is None:
        raise core.Inconclusive('symbolic value used outside exploration')
    return e


def real_const(x):
    f = Fraction(x)
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)


def _is_basic(x):
    from . import sympybridge
    return sympybridge.is_basic(x)


def is_sym(x):
    return _isinstance(x, (SymInt, SymReal, SymBool))


def mk_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


class Sym:
    __slots__ = ('t',)
    _symx = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def _as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if _isinstance(o, (SymBool, _bool)):
            return SymBool(z3.And(self.t, bterm(o)))
        return self._as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (SymBool, _bool)):
            return SymBool(z3.Or(self.t, bterm(o)))
        return self._as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, (SymBool, _bool)):
            return SymBool(z3.Xor(self.t, bterm(o)))
        return self._as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if _isinstance(o, (SymBool, _bool)):
            return SymBool(self.t == bterm(o))
        return self._as_int() == o

    def __ne__(self, o):
        if _isinstance(o, (SymBool, _bool)):
            return SymBool(self.t != bterm(o))
        return self._as_int() != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % z3.simplify(self.t)

    def __format__(self, spec):
        return format(bool(self), spec)


def _bool_num(name):
    def f(self, *a):
        return getattr(self._as_int(), name)(*a)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv',
           'rfloordiv', 'mod', 'rmod', 'lt', 'le', 'gt', 'ge', 'neg', 'pos', 'abs', 'pow'):
    setattr(SymBool, '__%s__' % _n, _bool_num('__%s__' % _n))


def bterm(x):
    if _isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(_bool(x))


_np_int = ()
_np_float = ()
try:
    import numpy as _np
    _np_int = (_np.integer,)
    _np_float = (_np.floating,)
except ImportError:
    pass


def as_num(x):
    """-> ('i', term) | ('r', term) | ('special', float) | None"""
    if _isinstance(x, SymInt):
        return 'i', x.t
    if _isinstance(x, SymReal):
        return 'r', x.t
    if _isinstance(x, SymBool):
        return 'i', z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if _isinstance(x, _bool):
        return 'i', z3.IntVal(_int(x))
    if _isinstance(x, _int):
        return 'i', z3.IntVal(x)
    if _isinstance(x, _float):
        if math.isinf(x) or math.isnan(x):
            return 'special', x
        return 'r', real_const(x)
    if _isinstance(x, Fraction):
        return 'r', real_const(x)
    if _np_int and _isinstance(x, _np_int):
        return 'i', z3.IntVal(_int(x))
    if _np_float and _isinstance(x, _np_float):
        return as_num(_float(x))
    if _type(x).__name__ == 'PrefixedUnit':
        return None
    return None


def to_real(kt):
    k, t = kt
    if k == 'i':
        return z3.ToReal(t)
    return t


def floor_div_term(a, b):
    """python floor division on Int terms (b != 0 assumed)"""
    bs = z3.simplify(b)
    if z3.is_int_value(bs):
        if bs.as_long() > 0:
            return a / b
        return (-a) / (-b)
    # z3's div rounds towards making the remainder non-negative
    return z3.If(b > 0, a / b, (-a) / (-b))


def mod_term(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs):
        if bs.as_long() > 0:
            return a % b
        return -((-a) % (-b))
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def _nonzero(term):
    zero = z3.IntVal(0) if term.sort() == z3.IntSort() else z3.RealVal(0)
    if eng().branch(term == zero):
        raise ZeroDivisionError('division by zero')


def floor_real(t):
    return z3.ToInt(t)


class SymNum(Sym):
    __slots__ = ()

    def _binop(self, other, op, swap=False):
        o = as_num(other)
        if o is None and op in ('floordiv', 'mod') and hasattr(other, 'free_symbols'):
            # sympy's integer division works on values (and would hash its operand)
            from . import sympybridge
            if getattr(other, 'is_Integer', False) or sympybridge.has_sym(other):
                o = as_num(sympybridge.to_value(other))
        if o is None:
            return NotImplemented
        s = as_num(self)
        if o[0] == 'special':
            return self._special(other, op, swap)
        a, b = (o, s) if swap else (s, o)
        return _arith(op, a, b)

    def _special(self, other, op, swap):
        """arithmetic with inf/nan: decide the sign where needed"""
        other = _float(other)
        if op in ('add', 'sub'):
            v = 0.0
        else:
            v = 1.0 if self > 0 else (-1.0 if self < 0 else 0.0)
        a, b = (other, v) if swap else (v, other)
        return getattr(operator, op)(a, b)

    def __add__(self, o): return self._binop(o, 'add')
    def __radd__(self, o): return self._binop(o, 'add', True)
    def __sub__(self, o): return self._binop(o, 'sub')
    def __rsub__(self, o): return self._binop(o, 'sub', True)
    def __mul__(self, o): return self._binop(o, 'mul')
    def __rmul__(self, o): return self._binop(o, 'mul', True)
    def __truediv__(self, o): return self._binop(o, 'truediv')
    def __rtruediv__(self, o): return self._binop(o, 'truediv', True)
    def __floordiv__(self, o): return self._binop(o, 'floordiv')
    def __rfloordiv__(self, o): return self._binop(o, 'floordiv', True)
    def __mod__(self, o): return self._binop(o, 'mod')
    def __rmod__(self, o): return self._binop(o, 'mod', True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        if _isinstance(o, SymInt):
            o = o.__index__()
        if _isinstance(o, _float) and o == _int(o):
            o = _int(o)
        if _isinstance(o, _int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if _isinstance(o, _int) and -8 <= o < 0:
            return 1 / (self ** (-o))
        if _is_basic(o):
            return NotImplemented
        raise core.Inconclusive('pow with exponent %r' % (o,))

    def __rpow__(self, o):
        if _is_basic(o):
            return NotImplemented
        if _isinstance(self, SymInt):
            return o ** self.__index__()
        raise core.Inconclusive('rpow with real exponent')

    def __neg__(self):
        return _type(self)(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return _type(self)(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, other, op):
        o = as_num(other)
        if o is None:
            return NotImplemented
        if o[0] == 'special':
            return getattr(operator, op)(0.0, _float(other))
        s = as_num(self)
        if s[0] != o[0]:
            s, o = ('r', to_real(s)), ('r', to_real(o))
        a, b = s[1], o[1]
        return SymBool({'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
                        'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[op]())

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __str__(self):
        from . import strings
        return strings.token(self)

    def __format__(self, spec):
        from . import strings
        return strings.token(self, spec)


class SymInt(SymNum):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return eng().concretize(self.t, _conv_int)

    __int__ = __index__

    def __float__(self):
        return _float(self.__index__())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise core.Inconclusive('round with negative digits')

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (1 << operator.index(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << operator.index(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if _isinstance(o, _int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if _isinstance(o, _int) and o < 0 and (-o & (-o - 1)) == 0:
            return self - self % -o
        if _isinstance(o, (_int, SymInt, SymBool)):
            return operator.index(self) & operator.index(o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (_int, SymInt, SymBool)):
            return operator.index(self) | operator.index(o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, (_int, SymInt, SymBool)):
            return operator.index(self) ^ operator.index(o)
        return NotImplemented
    __rxor__ = __xor__

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    # numpy object-array ufuncs look for these
    def floor(self):
        return self

    ceil = floor
    rint = floor

    def __repr__(self):
        from . import strings
        return strings.token(self)

    def _sympy_(self):
        from . import sympybridge
        return sympybridge.symbol_for(self)


class SymReal(SymNum):
    __slots__ = ()

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.__float__())

    def __float__(self):
        return eng().concretize(self.t, _conv_float)

    def __int__(self):
        return operator.index(trunc(self))

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mk_int(floor_real(self.t))

    def __ceil__(self):
        return mk_int(-floor_real(-self.t))

    def __round__(self, n=None):
        return round_real(self, n)

    def is_integer(self):
        return SymBool(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.t)))

    def rint(self):
        return SymReal(z3.ToReal(round_real(self, None).t))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def __repr__(self):
        from . import strings
        return strings.token(self)

    def _sympy_(self):
        from . import sympybridge
        return sympybridge.symbol_for(self)


def _conv_int(t):
    return t.as_long() if z3.is_int_value(t) else None


def _conv_float(t):
    if z3.is_rational_value(t):
        return _float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return _float(t.as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(20)
        return _float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def trunc(x):
    if _isinstance(x, SymInt):
        return x
    t = x.t
    return mk_int(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def round_real(x, n=None):
    """round half to even on the exact value"""
    nd = 0 if n is None else operator.index(n)
    scale = Fraction(10) ** nd
    t = x.t * real_const(scale) if nd else x.t
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if n is None:
        return mk_int(r)
    return SymReal(z3.ToReal(r) / real_const(scale))


def _arith(op, a, b):
    if op in ('add', 'sub', 'mul'):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            t = x + y if op == 'add' else (x - y if op == 'sub' else x * y)
            return mk_int(t)
        x, y = to_real(a), to_real(b)
        t = x + y if op == 'add' else (x - y if op == 'sub' else x * y)
        return SymReal(z3.simplify(t))
    if op == 'truediv':
        x, y = to_real(a), to_real(b)
        _nonzero(y)
        return SymReal(z3.simplify(x / y))
    if op in ('floordiv', 'mod'):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            _nonzero(y)
            return mk_int(floor_div_term(x, y) if op == 'floordiv' else mod_term(x, y))
        x, y = to_real(a), to_real(b)
        _nonzero(y)
        q = z3.ToInt(x / y)
        if op == 'floordiv':
            return SymReal(z3.ToReal(q))
        return SymReal(x - z3.ToReal(q) * y)
    raise core.Inconclusive('arith ' + op)


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def ite(cond, a, b):
    """If-then-else without forking (numeric operands)."""
    if not _isinstance(cond, SymBool):
        return a if cond else b
    if _isinstance(a, (SymBool, bool)) and _isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(cond.t, bterm(a), bterm(b)))
    x, y = as_num(a), as_num(b)
    if x is None or y is None or 'special' in (x[0], y[0]):
        return a if cond else b
    if x[0] == 'i' and y[0] == 'i':
        return mk_int(z3.If(cond.t, x[1], y[1]))
    return SymReal(z3.simplify(z3.If(cond.t, to_real(x), to_real(y))))
