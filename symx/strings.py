"""Symbolic strings of concrete length: a sequence of character codes (ints or z3 Int terms)."""
import z3

from . import core, values
from .values import SymBool, SymInt, SymReal, eng, is_sym

_str, _len, _isinstance, _range, _int, _float = str, len, isinstance, range, int, float

TOKENS = {}     # token text -> (symbolic value, format spec)


def token(v, spec=''):
    """An opaque piece of text standing for the decimal rendering of a symbolic number."""
    key = '\ue000' + chr(0xf0000 + _len(TOKENS)) + \
        ''.join([chr(0xe800 + ord(c)) for c in spec]) + '\ue001'
    for k, (o, s) in TOKENS.items():
        if s == spec and type(o) is type(v) and o.t.eq(v.t):
            return k
    TOKENS[key] = (v, spec)
    return key


def _teq(a, b):
    if _isinstance(a, _int) and _isinstance(b, _int):
        return a == b
    return a == b   # z3 term


def _codes(x):
    if _isinstance(x, SymStr):
        return x.cs
    return [ord(c) for c in x]


def is_strlike(x):
    return _isinstance(x, (SymStr, _str))


def mk(cs):
    """Concrete str if every char is concrete."""
    out = []
    for c in cs:
        if not _isinstance(c, _int):
            c = z3.simplify(c)
            if z3.is_int_value(c):
                c = c.as_long()
        out.append(c)
    if all(_isinstance(c, _int) for c in out):
        return ''.join(map(chr, out))
    return SymStr(out)


def in_set(c, codes):
    """SymBool/bool: character c is one of codes."""
    if _isinstance(c, _int):
        return c in codes
    return SymBool(z3.Or([c == k for k in codes]) if codes else z3.BoolVal(False))


def char_pred(c, pred):
    """pred: python predicate over characters, decided over ASCII (and the char's alphabet)."""
    if _isinstance(c, _int):
        return pred(chr(c))
    codes = [k for k in _range(1, 128) if pred(chr(k))]
    # compress to ranges
    rs = []
    for k in codes:
        if rs and rs[-1][1] == k - 1:
            rs[-1][1] = k
        else:
            rs.append([k, k])
    return SymBool(z3.Or([z3.And(c >= a, c <= b) if a != b else c == a for a, b in rs])
                   if rs else z3.BoolVal(False))


_WS = ' \t\n\r\x0b\x0c'


class SymStr:
    __slots__ = ('cs',)
    _symx = True

    def __init__(self, cs):
        self.cs = list(cs)

    # -- basics
    def __len__(self):
        return _len(self.cs)

    def __bool__(self):
        return _len(self.cs) > 0

    def _eqterm(self, o):
        oc = _codes(o)
        if _len(oc) != _len(self.cs):
            return False
        terms = []
        for a, b in zip(self.cs, oc):
            if _isinstance(a, _int) and _isinstance(b, _int):
                if a != b:
                    return False
                continue
            terms.append(a == b)
        if not terms:
            return True
        return SymBool(z3.And(terms))

    def __eq__(self, o):
        if not is_strlike(o):
            return NotImplemented if o is not None else False
        return self._eqterm(o)

    def __ne__(self, o):
        if not is_strlike(o):
            return True
        r = self._eqterm(o)
        return (not r) if _isinstance(r, bool) else SymBool(z3.Not(r.t))

    def _lt(self, o):
        oc = _codes(o)
        for a, b in zip(self.cs, oc):
            at, bt = _as(a), _as(b)
            if eng().branch(at == bt):
                continue
            return eng().branch(at < bt)
        return _len(self.cs) < _len(oc)

    def __lt__(self, o): return self._lt(o)
    def __ge__(self, o): return not self._lt(o)

    def __gt__(self, o):
        return (o if _isinstance(o, SymStr) else SymStr(_codes(o)))._lt(self)

    def __le__(self, o):
        return not self.__gt__(o)

    def concrete(self):
        out = []
        for c in self.cs:
            if not _isinstance(c, _int):
                c = eng().concretize(c, values._conv_int)
            out.append(chr(c))
        return ''.join(out)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymStr(%r)' % ''.join(chr(c) if _isinstance(c, _int) else '\u00bf' for c in self.cs)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __fspath__(self):
        return self.concrete()

    def encode(self, *a):
        return self.concrete().encode(*a)

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(self.cs + _codes(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk(_codes(o) + self.cs)

    def __mul__(self, n):
        return mk(self.cs * n.__index__())
    __rmul__ = __mul__

    def __getitem__(self, k):
        if _isinstance(k, slice):
            f = lambda v: v if v is None else v.__index__()
            return mk(self.cs[f(k.start):f(k.stop):f(k.step)])
        return mk([self.cs[k.__index__()]])

    def __iter__(self):
        for c in self.cs:
            yield mk([c])

    def __contains__(self, sub):
        return self.find(sub) != -1

    # -- search
    def _at(self, i, sc):
        if i + _len(sc) > _len(self.cs):
            return False
        r = SymStr(self.cs[i:i + _len(sc)])._eqterm(SymStr(sc))
        return bool(r)

    def _bounds(self, start, end):
        n = _len(self.cs)
        s, e, _ = slice(None if start is None else start.__index__(),
                        None if end is None else end.__index__()).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sc = _codes(sub)
        s, e = self._bounds(start, end)
        if start is not None and start.__index__() > _len(self.cs):
            return -1
        for i in _range(s, e - _len(sc) + 1):
            if self._at(i, sc):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sc = _codes(sub)
        s, e = self._bounds(start, end)
        for i in _range(e - _len(sc), s - 1, -1):
            if self._at(i, sc):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        sc = _codes(sub)
        s, e = self._bounds(start, end)
        n = 0
        i = s
        while i + _len(sc) <= e:
            if self._at(i, sc):
                n += 1
                i += max(1, _len(sc))
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        if _isinstance(p, tuple):
            return any(SymStr(self.cs[s:e]).startswith(x) for x in p)
        pc = _codes(p)
        if s + _len(pc) > e:
            return False
        return self._at(s, pc)

    def endswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        if _isinstance(p, tuple):
            return any(SymStr(self.cs[s:e]).endswith(x) for x in p)
        pc = _codes(p)
        if e - _len(pc) < s:
            return False
        return self._at(e - _len(pc), pc)

    def _strip_set(self, chars):
        return [ord(c) for c in (chars if chars is not None else _WS + '\x1c\x1d\x1e\x1f')]

    def lstrip(self, chars=None):
        st = self._strip_set(chars)
        i = 0
        while i < _len(self.cs) and bool(in_set(self.cs[i], st)):
            i += 1
        return mk(self.cs[i:])

    def rstrip(self, chars=None):
        st = self._strip_set(chars)
        j = _len(self.cs)
        while j > 0 and bool(in_set(self.cs[j - 1], st)):
            j -= 1
        return mk(self.cs[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            st = self._strip_set(None)
            cur = None
            for i, c in enumerate(self.cs):
                if bool(in_set(c, st)):
                    if cur is not None:
                        out.append(mk(cur))
                        cur = None
                else:
                    if cur is None:
                        if maxsplit >= 0 and _len(out) >= maxsplit:
                            out.append(mk(self.cs[i:]).rstrip())
                            return out
                        cur = []
                    cur.append(c)
            if cur is not None:
                out.append(mk(cur))
            return out
        sc = _codes(sep)
        last = i = 0
        while i + _len(sc) <= _len(self.cs):
            if (maxsplit < 0 or _len(out) < maxsplit) and self._at(i, sc):
                out.append(mk(self.cs[last:i]))
                i += _len(sc)
                last = i
            else:
                i += 1
        out.append(mk(self.cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if maxsplit == 1 and sep is not None:
            i = self.rfind(sep)
            if i < 0:
                return [self]
            return [self[:i], self[i + _len(sep):]]
        raise core.Inconclusive('rsplit')

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + _len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + _len(sep):])

    def splitlines(self, keepends=False):
        out = []
        cur = []
        brk = [10, 11, 12, 13, 28, 29, 30]
        i = 0
        cs = self.cs
        while i < _len(cs):
            c = cs[i]
            if bool(in_set(c, brk)):
                nl = [c]
                if i + 1 < _len(cs) and bool(in_set(c, [13])) and bool(in_set(cs[i + 1], [10])):
                    nl.append(cs[i + 1])
                    i += 1
                out.append(mk(cur + (nl if keepends else [])))
                cur = []
                ended = True
            else:
                cur.append(c)
                ended = False
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def replace(self, old, new, count=-1):
        oc, nc = _codes(old), _codes(new)
        if not oc:
            raise core.Inconclusive('replace of empty string')
        out = []
        i = n = 0
        while i < _len(self.cs):
            if (count < 0 or n < count) and self._at(i, oc):
                out += nc
                i += _len(oc)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def join(self, parts):
        return join(self, parts)

    def _all(self, pred):
        if not self.cs:
            return False
        return all(bool(char_pred(c, pred)) for c in self.cs)

    def isdigit(self): return self._all(_str.isdigit)
    def isdecimal(self): return self._all(_str.isdecimal)
    def isnumeric(self): return self._all(_str.isnumeric)
    def isalpha(self): return self._all(_str.isalpha)
    def isalnum(self): return self._all(_str.isalnum)
    def isspace(self): return self._all(_str.isspace)

    def _map(self, f):
        out = []
        for c in self.cs:
            if _isinstance(c, _int):
                out += [ord(x) for x in f(chr(c))]
            else:
                t = c
                for k in _range(1, 128):
                    r = ord(f(chr(k)))
                    if r != k:
                        t = z3.If(c == k, z3.IntVal(r), t)
                out.append(z3.simplify(t))
        return mk(out)

    def lower(self): return self._map(_str.lower)
    def upper(self): return self._map(_str.upper)
    def casefold(self): return self._map(_str.lower)

    def removeprefix(self, p):
        return self[_len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:_len(self) - _len(p)] if p and self.endswith(p) else self

    def ljust(self, n, c=' '):
        return mk(self.cs + [ord(c)] * (n - _len(self.cs)))

    def rjust(self, n, c=' '):
        return mk([ord(c)] * (n - _len(self.cs)) + self.cs)

    def zfill(self, n):
        return self.rjust(n, '0')

    def expandtabs(self, n=8):
        raise core.Inconclusive('expandtabs')

    # -- numbers
    def _digits(self, cs):
        """value of a digit sequence (already known to be digits)"""
        v = 0
        for c in cs:
            d = (c - 48) if _isinstance(c, _int) else SymInt(c - 48)
            v = v * 10 + d
        return v

    def to_int(self):
        cs = self.strip()
        cs = _codes(cs)
        sign = 1
        if cs and bool(in_set(cs[0], [43, 45])):
            if bool(in_set(cs[0], [45])):
                sign = -1
            cs = cs[1:]
        if not cs or not all(bool(char_pred(c, _str.isdigit)) for c in cs):
            if cs and any(bool(in_set(c, [95])) for c in cs):
                return _int(self.concrete())
            raise ValueError('invalid literal for int() with base 10: %r' % self)
        return sign * self._digits(cs)

    def to_float(self):
        cs = _codes(self.strip())
        sign = 1
        if cs and bool(in_set(cs[0], [43, 45])):
            if bool(in_set(cs[0], [45])):
                sign = -1
            cs = cs[1:]
        ip, fp = [], []
        i = 0
        while i < _len(cs) and bool(char_pred(cs[i], _str.isdigit)):
            ip.append(cs[i])
            i += 1
        if i < _len(cs) and bool(in_set(cs[i], [46])):
            i += 1
            while i < _len(cs) and bool(char_pred(cs[i], _str.isdigit)):
                fp.append(cs[i])
                i += 1
        if i < _len(cs) or not (ip or fp):
            # exponent, inf, nan, underscores: concretise
            return _float(self.concrete())
        v = self._digits(ip + fp)
        from fractions import Fraction
        r = v * Fraction(sign, 10 ** _len(fp)) if is_sym(v) else None
        if r is None:
            return _float(self.concrete())
        if _isinstance(r, SymInt):
            return SymReal(z3.ToReal(r.t))
        return r


def _as(c):
    return z3.IntVal(c) if _isinstance(c, _int) else c


def join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if not is_strlike(p):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (i, type(p).__name__))
        if i:
            out += _codes(sep)
        out += _codes(p)
    return mk(out)


def dispatch(obj, name, args, kwargs):
    """obj.name(*args): route str methods with symbolic arguments to SymStr."""
    if _isinstance(obj, _str) and type(obj) is _str:
        if name == 'join':
            parts = list(args[0])
            if any(_isinstance(p, SymStr) for p in parts):
                return join(obj, parts)
            return obj.join(parts)
        if name == 'format':
            if any(_isinstance(a, SymStr) for a in list(args) + list(kwargs.values())):
                return fmt(obj, args, kwargs)
        elif any(_isinstance(a, SymStr) for a in args):
            return getattr(SymStr([ord(c) for c in obj]), name)(*args, **kwargs)
    elif _isinstance(obj, dict) and name in ('get', 'pop', 'setdefault') and args and \
            _isinstance(args[0], SymStr):
        for k in list(obj.keys()):
            if is_strlike(k) and bool(args[0] == k):
                return getattr(obj, name)(k, *args[1:])
    elif name == 'Integer' and _len(args) == 1 and not kwargs:
        v = args[0] if _isinstance(args[0], SymInt) else token_value(args[0])
        if v is not None:
            from . import sympybridge
            return sympybridge.symbol_for(v)
    return getattr(obj, name)(*args, **kwargs)


def token_value(x):
    """the symbolic number a piece of text stands for, if any"""
    if _isinstance(x, _str) and '\ue000' in x:
        t = TOKENS.get(x.strip())
        if t is not None and t[1] in ('', 'd'):
            return t[0]
    return None


def fmt(f, args, kwargs):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        else:
            v, _ = string.Formatter().get_field(field, args, kwargs)
        if _isinstance(v, SymStr) and not spec and conv in (None, 's'):
            out = out + v
        else:
            if conv == 'r':
                v = repr(v)
            elif conv == 's' and not _isinstance(v, SymStr):
                v = _str(v)
            out = out + format(v, spec)
    return out


def contains(item, cont):
    """item in cont"""
    if _isinstance(item, SymStr):
        if _isinstance(cont, _str):
            return SymStr([ord(c) for c in cont]).find(item) != -1
        if _isinstance(cont, (dict, set, frozenset)) or type(cont).__name__ in (
                'dict_keys', 'mappingproxy'):
            return any(is_strlike(k) and bool(item == k) for k in cont)
    elif is_sym(item) and (_isinstance(cont, (dict, set, frozenset))
                           or type(cont).__name__ == 'dict_keys'):
        return any(values.as_num(k) is not None and bool(item == k) for k in cont)
    return item in cont


def getitem(obj, k):
    if _isinstance(obj, dict):
        if _isinstance(k, SymStr):
            for x in obj:
                if is_strlike(x) and bool(k == x):
                    return obj[x]
            raise KeyError(repr(k))
        if is_sym(k):
            for x in obj:
                if values.as_num(x) is not None and bool(k == x):
                    return obj[x]
            raise KeyError(repr(k))
    return obj[k]


def modformat(a, b):
    """a % b where a may be a format string"""
    if _isinstance(a, _str):
        args = b if _isinstance(b, tuple) else (b,)
        if any(_isinstance(x, SymStr) for x in args):
            import re
            out = ''
            pos = 0
            it = iter(args)
            for m in re.finditer(r'%(%|[-#0-9.]*[sdrfgi])', a):
                out = out + a[pos:m.start()]
                pos = m.end()
                if m.group(1) == '%':
                    out = out + '%'
                    continue
                v = next(it)
                if _isinstance(v, SymStr) and m.group(1) == 's':
                    out = out + v
                else:
                    out = out + (m.group(0) % (v,))
            return out + a[pos:]
    return a % b


def fstring(parts):
    out = ''
    for v, conv, spec in parts:
        if conv is None and spec is None:
            out = out + v
            continue
        if _isinstance(v, SymStr) and not spec and conv in (-1, 115):
            out = out + v
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = _str(v)
        out = out + format(v, spec or '')
    return out
