"""The two faces of a harness: symbolic exploration and concrete replay."""
import random
from fractions import Fraction

import z3

from . import core, values, strings
from .values import SymInt, SymReal, SymBool, bterm, ite, real_const, is_sym


class AssumeFailed(BaseException):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, engine):
        from . import sympybridge
        sympybridge.reset()
        strings.TOKENS.clear()
        self.e = engine

    def _reg(self, name, kind, t):
        assert name not in self.e.inputs, name
        self.e.inputs[name] = (kind, t)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._reg(name, 'int', v)
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        if lo is not None and lo == hi:
            return lo
        return SymInt(v)

    def real(self, name, lo=None, hi=None, lo_open=False):
        v = z3.Real(name)
        self._reg(name, 'real', v)
        if lo is not None:
            self.e.add(v > real_const(lo) if lo_open else v >= real_const(lo))
        if hi is not None:
            self.e.add(v <= real_const(hi))
        return SymReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, 'bool', v)
        return SymBool(v)

    def str(self, name, length, alphabet):
        cs = []
        codes = sorted(set(ord(c) for c in alphabet))
        for i in range(length):
            c = z3.Int('%s[%d]' % (name, i))
            self.e.add(z3.Or([c == k for k in codes]))
            cs.append(c)
        self._reg(name, 'str', cs)
        return strings.SymStr(cs) if cs else ''

    def choice(self, name, options):
        options = list(options)
        i = self.e.choose(len(options))
        self._reg(name, 'const', i)
        return options[i]

    def assume(self, cond):
        t = z3.simplify(bterm(cond)) if isinstance(cond, SymBool) else None
        if t is None:
            if not cond:
                raise core.PathAbort()
            return
        if z3.is_true(t):
            return
        self.e.add(t)
        if self.e._check() == z3.unsat:
            raise core.PathAbort()

    def check(self, cond, label, msg=''):
        if isinstance(cond, SymBool):
            t = cond.t
        else:
            t = z3.BoolVal(bool(cond))
        if not self.e.check(t, label, str(msg)[:300]):
            self._go_on(t, label)

    def _go_on(self, t, label):
        # keep exploring the inputs of this path that do satisfy the assertion
        self.e.add(t)
        if self.e._check() == z3.unsat:
            raise core.CheckFailed(label)

    def close(self, a, b, label, msg='', rel=1e-6):
        """a and b agree up to rounding"""
        self.e.stats['checks'] += 0
        ka, kb = values.as_num(a), values.as_num(b)
        if ka is None or kb is None or 'special' in (ka[0], kb[0]):
            return self.check(a == b, label, msg or '%r vs %r' % (a, b))
        x, y = values.to_real(ka), values.to_real(kb)
        e = self.e
        e.stats['checks'] += 1
        e.check_sites[label] = e.check_sites.get(label, 0) + 1
        eqt = z3.simplify(x == y)
        if z3.is_true(eqt):
            e.stats['trivial'] += 1
            e.stats['discharged'] += 1
            return
        r = e._check(z3.Not(eqt))
        if r == z3.unsat:
            e.stats['discharged'] += 1
            return
        d = z3.If(x > y, x - y, y - x)
        ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
        m = z3.If(ax > ay, ax, ay) * real_const(Fraction(rel).limit_denominator(10**12)) \
            + real_const(Fraction(1, 10**9))
        r = e._check(d > m)
        if r == z3.unsat:
            e.stats['discharged'] += 1
            return
        if r == z3.sat:
            e.candidates.append(dict(label=label, msg=str(msg)[:300], inputs=e.model_inputs(),
                                     tb=None))
            self._go_on(d <= m, label)
            return
        e.stats['unsupported'] += 1
        if len(e.unsupported) < 10:
            e.unsupported.append('unknown verdict at check %s' % label)

    def fail(self, label, msg=''):
        self.check(False, label, msg)

    # boolean combinators that do not fork
    def all(self, *cs):
        cs = _flat(cs)
        if any(isinstance(c, SymBool) for c in cs):
            return SymBool(z3.And([bterm(c) for c in cs]))
        return all(cs)

    def any(self, *cs):
        cs = _flat(cs)
        if any(isinstance(c, SymBool) for c in cs):
            return SymBool(z3.Or([bterm(c) for c in cs]))
        return any(cs)

    def not_(self, c):
        return SymBool(z3.Not(c.t)) if isinstance(c, SymBool) else not c

    def implies(self, a, b):
        return self.any(self.not_(a), b)

    def iff(self, a, b):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return SymBool(bterm(a) == bterm(b))
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def fork(self, c):
        return bool(c)

    def float_of(self, x):
        return x


def _flat(cs):
    if len(cs) == 1 and not isinstance(cs[0], (SymBool, bool)):
        return list(cs[0])
    return list(cs)


class ConcCtx:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.labels = {}

    def _get(self, name, default):
        if name not in self.inputs:
            return default
        kind, v = self.inputs[name]
        if kind == 'real':
            return float(Fraction(v[0], v[1]))
        return v

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else (hi if hi is not None else 0))

    def real(self, name, lo=None, hi=None, lo_open=False):
        return float(self._get(name, 1.0 if lo is None else lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def str(self, name, length, alphabet):
        return self._get(name, alphabet[0] * length)

    def choice(self, name, options):
        return list(options)[self._get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label, msg=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise core.CheckFailed('%s: %s' % (label, msg))

    def close(self, a, b, label, msg='', rel=1e-6):
        self.labels[label] = self.labels.get(label, 0) + 1
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            ok = a == b
        else:
            ok = fa == fb or abs(fa - fb) <= max(abs(fa), abs(fb)) * rel * 0.5 + 0.5e-9
        if not ok:
            raise core.CheckFailed('%s: got %r, expected %r %s' % (label, a, b, msg))

    def fail(self, label, msg=''):
        self.check(False, label, msg)

    def all(self, *cs):
        return all(_flat(cs))

    def any(self, *cs):
        return any(_flat(cs))

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def fork(self, c):
        return bool(c)

    def float_of(self, x):
        return x
