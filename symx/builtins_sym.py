"""Replacements for builtins inside the transformed modules of the code under test."""
import builtins
import math as _math
import fractions

import z3

from . import core, values
from .values import SymInt, SymReal, SymBool, is_sym, ite
from .strings import SymStr

_T = {}
r_int, r_float, r_str, r_bool = builtins.int, builtins.float, builtins.str, builtins.bool
r_type, r_isinstance, r_len, r_range = (builtins.type, builtins.isinstance, builtins.len,
                                        builtins.range)


class _Meta(type):
    def __instancecheck__(cls, x):
        return r_isinstance(x, (cls._real,) + cls._syms)

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, (cls._real,) + cls._syms)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return cls._real | o


class SInt(metaclass=_Meta):
    _real = int
    _syms = (SymInt, SymBool)

    @staticmethod
    def _conv(*a, **k):
        if r_len(a) == 1 and not k:
            x = a[0]
            if r_isinstance(x, SymInt):
                return x
            if r_isinstance(x, SymBool):
                return x._as_int()
            if r_isinstance(x, SymReal):
                return values.trunc(x)
            if r_isinstance(x, SymStr):
                return x.to_int()
            if r_isinstance(x, r_str):
                from . import strings
                v = strings.token_value(x)
                if v is not None:
                    return v
            from . import sympybridge
            if sympybridge.is_basic(x):
                if sympybridge.has_sym(x):
                    return _conv_trunc(sympybridge.to_value(x))
            f = getattr(r_type(x), '__int__', None)
            if f is not None and r_type(x).__module__.startswith('kerncraft'):
                return f(x)
        return r_int(*a, **k)


def _conv_trunc(v):
    if r_isinstance(v, SymReal):
        return values.trunc(v)
    return r_int(v) if not is_sym(v) else v


class SFloat(metaclass=_Meta):
    _real = float
    _syms = (SymReal,)

    @staticmethod
    def _conv(*a):
        if r_len(a) == 1:
            x = a[0]
            if r_isinstance(x, SymReal):
                return x
            if r_isinstance(x, SymInt):
                return SymReal(z3.ToReal(x.t))
            if r_isinstance(x, SymBool):
                return SymReal(z3.ToReal(x._as_int().t))
            if r_isinstance(x, SymStr):
                return x.to_float()
            if r_isinstance(x, r_str):
                from . import strings
                v = strings.token_value(x)
                if v is not None:
                    return SFloat._conv(v)
            from . import sympybridge
            if sympybridge.is_basic(x):
                if sympybridge.has_sym(x):
                    return SFloat._conv(sympybridge.to_value(x))
            f = getattr(r_type(x), '__float__', None)
            if f is not None and r_type(x).__module__.startswith('kerncraft'):
                v = f(x)
                if not r_isinstance(v, (r_float, SymReal)):
                    raise TypeError('%s.__float__ returned non-float (type %s)'
                                    % (r_type(x).__name__, r_type(v).__name__))
                return v
        return r_float(*a)


class SStr(metaclass=_Meta):
    _real = str
    _syms = (SymStr,)

    @staticmethod
    def _conv(*a, **k):
        if r_len(a) == 1 and not k:
            if r_isinstance(a[0], SymStr):
                return a[0]
            f = getattr(r_type(a[0]), '__str__', None)
            if f is not None and r_type(a[0]).__module__.startswith('kerncraft'):
                return f(a[0])
        return r_str(*a, **k)


class SBool(metaclass=_Meta):
    _real = bool
    _syms = (SymBool,)

    @staticmethod
    def _conv(*a):
        if r_len(a) == 1:
            x = a[0]
            if r_isinstance(x, SymBool):
                return x
            if r_isinstance(x, (SymInt, SymReal)):
                return SymBool(x.t != 0)
        return r_bool(*a)


_TYPEMAP = {int: SInt, float: SFloat, str: SStr, bool: SBool,
            SymInt: SInt, SymReal: SFloat, SymStr: SStr, SymBool: SBool}
_UNMAP = {SInt: int, SFloat: float, SStr: str, SBool: bool}


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return r_isinstance(x, r_type)

    def __call__(cls, *a, **k):
        if r_len(a) == 1 and not k:
            t = r_type(a[0])
            return _TYPEMAP.get(t, t)
        return r_type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class SType(metaclass=_TypeMeta):
    pass


def _expand(c):
    if r_isinstance(c, tuple):
        r = ()
        for x in c:
            r += _expand(x)
        return r
    if c is SInt:
        return (int, SymInt, SymBool)
    if c is SFloat:
        return (float, SymReal)
    if c is SStr:
        return (str, SymStr)
    if c is SBool:
        return (bool, SymBool)
    if c is int:
        return (int, SymInt, SymBool)
    if c is float:
        return (float, SymReal)
    if c is str:
        return (str, SymStr)
    if c is bool:
        return (bool, SymBool)
    return (c,)


def s_isinstance(x, c):
    if r_isinstance(c, (tuple, r_type)) and not r_isinstance(c, _Meta) or r_isinstance(c, _Meta):
        return r_isinstance(x, _expand(c))
    return r_isinstance(x, c)


def s_len(x):
    if r_isinstance(x, SymStr):
        return r_len(x.cs)
    f = getattr(r_type(x), '__len__', None)
    if f is not None and r_type(x).__module__.startswith('kerncraft'):
        return f(x)
    return r_len(x)


def _number(x):
    from . import sympybridge
    if r_type(x).__module__.startswith('sympy') or hasattr(x, 'free_symbols'):
        if sympybridge.has_sym(x) and getattr(x, 'is_integer', False) is not False:
            return sympybridge.to_value(x)
    return x


class s_range:
    """range() with possibly symbolic bounds."""

    def __new__(cls, *a):
        a = [_number(x) for x in a]
        a = [x.__index__() if not is_sym(x) and hasattr(x, '__index__') else x for x in a]
        if not any(is_sym(x) for x in a):
            return r_range(*a)
        self = object.__new__(cls)
        if r_len(a) == 1:
            a = [0] + a
        if r_len(a) == 2:
            a = a + [1]
        self.start, self.stop, self.step = a
        if any(r_isinstance(x, SymReal) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')
        return self

    def __iter__(self):
        i = self.start
        up = r_bool(self.step > 0)
        while True:
            if not ((i < self.stop) if up else (i > self.stop)):
                return
            yield i
            i = i + self.step

    def _len(self):
        n = ite(self.step > 0 if is_sym(self.step > 0) else self.step > 0,
                (self.stop - self.start + self.step - 1) // self.step,
                (self.start - self.stop - self.step - 1) // (-self.step))
        return ite(n > 0, n, 0)

    def __len__(self):
        return self._len().__index__()

    def __getitem__(self, k):
        if k < 0:
            k = k + self._len()
        if not (k < self._len()):
            raise IndexError('range object index out of range')
        return self.start + k * self.step

    def __contains__(self, v):
        return r_bool((v - self.start) % self.step == 0) and (
            r_bool((self.start <= v)) and r_bool(v < self.stop) if r_bool(self.step > 0)
            else r_bool(v <= self.start) and r_bool(v > self.stop))


def s_round(x, n=None):
    if n is None:
        return builtins.round(x)
    return builtins.round(x, n)


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if r_len(a) == 1 else list(a)
        if not any(is_sym(x) for x in xs) or not all(
                values.as_num(x) is not None and values.as_num(x)[0] != 'special' for x in xs):
            return real(xs) if xs else real(*a)
        r = xs[0]
        for x in xs[1:]:
            r = ite((x < r) if name == 'min' else (x > r), x, r)
        return r
    return f


s_min = _minmax('min')
s_max = _minmax('max')


def s_abs(x):
    return builtins.abs(x)


class SMath:
    """math module proxy"""

    def __getattr__(self, n):
        return getattr(_math, n)

    @staticmethod
    def floor(x):
        return x.__floor__() if is_sym(x) else _math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if is_sym(x) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return values.trunc(x) if is_sym(x) else _math.trunc(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else _math.isinf(x)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else _math.isnan(x)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return abs(a - b) <= s_max(rel_tol * s_max(abs(a), abs(b)), abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fabs(x):
        return abs(SFloat(x))

    @staticmethod
    def fsum(xs):
        return sum(xs)

    @staticmethod
    def gcd(*xs):
        return _math.gcd(*[x.__index__() for x in xs])

    @staticmethod
    def sqrt(x):
        if is_sym(x):
            raise core.Inconclusive('sqrt')
        return _math.sqrt(x)


smath = SMath()

GLOBALS = {
    'int': SInt, 'float': SFloat, 'str': SStr, 'bool': SBool, 'type': SType,
    'isinstance': s_isinstance, 'len': s_len, 'range': s_range, 'round': s_round,
    'min': s_min, 'max': s_max,
}
