"""A backtracking regular expression matcher over symbolic strings (python re semantics)."""
import re as _re
from re import _parser, _constants as C

from . import core
from . import values
from .strings import SymStr, TOKENS, char_pred, in_set, mk, is_strlike, _codes

_CATS = {
    C.CATEGORY_DIGIT: str.isdigit,
    C.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    C.CATEGORY_SPACE: str.isspace,
    C.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    C.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
    C.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


class Digits:
    """one or more digits: a number in text"""


DIGITS = Digits()


def cells(s):
    """characters of text with numbers in it, and where they begin in it (None: inside)"""
    cs, at, i = [], [], 0
    while i < len(s):
        if s[i] != '\ue000':
            cs.append(ord(s[i]))
            at.append(i)
            i += 1
            continue
        end = s.index('\ue001', i) + 1
        v, spec = TOKENS[s[i:end]]
        at.append(i)
        if bool(v < 0):
            cs.append(ord('-'))
            at.append(None)
        if isinstance(v, values.SymInt) and spec in ('', 'd'):
            cs.append(DIGITS)
        elif isinstance(v, values.SymReal) and (
                spec == '' or spec[:1] == '.' and spec[1:-1].isdigit() and spec[-1] == 'f'):
            if spec == '':
                a = values.ite(v < 0, -v, v)
                if not bool((v == 0) | ((a >= 0.0001) & (a < 10 ** 16))):
                    raise core.Inconclusive('matching a number with an exponent')
            cs += [DIGITS] if spec == '.0f' else [DIGITS, ord('.'), DIGITS]
            at += [] if spec == '.0f' else [None, None]
        else:
            raise core.Inconclusive('matching a number formatted as %r' % spec)
        i = end
    return cs, at + [len(s)]


class Matcher:
    def __init__(self, s, flags):
        if isinstance(s, SymStr):
            self.cs, self.at = _codes(s), None
        else:
            self.cs, self.at = cells(s)
        self.n = len(self.cs)
        self.flags = flags

    def test(self, i, pred, many=False):
        c = self.cs[i]
        if c is DIGITS:
            r = [bool(pred(d)) for d in '0123456789']
            if not any(r):
                return False
            if not all(r) or not many:
                raise core.Inconclusive('matching digits of a number')
            return True
        if isinstance(c, int) and self.at is not None:
            return bool(pred(chr(c)))
        return bool(char_pred(c, pred))

    def offset(self, i):
        if self.at is None:
            return i
        if self.at[i] is None:
            raise core.Inconclusive('match ends inside a number')
        return self.at[i]

    def node_pred(self, op, av):
        ic = self.flags & _re.IGNORECASE
        if op is C.LITERAL:
            if ic:
                return lambda c: c.lower() == chr(av).lower()
            return lambda c: ord(c) == av
        if op is C.NOT_LITERAL:
            return lambda c: ord(c) != av
        if op is C.ANY:
            if self.flags & _re.DOTALL:
                return lambda c: True
            return lambda c: c != '\n'
        if op is C.IN:
            items = list(av)
            neg = False
            if items and items[0][0] is C.NEGATE:
                neg = True
                items = items[1:]
            preds = []
            for o, a in items:
                if o is C.LITERAL:
                    preds.append(lambda c, a=a: ord(c) == a)
                elif o is C.RANGE:
                    preds.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
                elif o is C.CATEGORY:
                    preds.append(_CATS[a])
                else:
                    raise core.Inconclusive('regex set item %r' % (o,))
            if ic:
                return lambda c: any(p(c.lower()) or p(c.upper()) for p in preds) != neg
            return lambda c: any(p(c) for p in preds) != neg
        return None

    def run(self, nodes, i, g, k, many=False):
        """match nodes from position i with groups g, continue with k(i, g); returns result or
        None"""
        if not nodes:
            return k(i, g)
        (op, av), rest = nodes[0], nodes[1:]
        pred = self.node_pred(op, av) if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN) else None
        if pred is not None:
            if i < self.n and self.test(i, pred, many):
                return self.run(rest, i + 1, g, k)
            return None
        if op is C.SUBPATTERN:
            gid, _, _, sub = av

            def k2(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                return self.run(rest, j, g2, k)
            return self.run(list(sub), i, g, k2, many and len(sub) == 1)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, g, lambda j, g2: self.run(rest, j, g2, k),
                             many and len(alt) == 1)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(cnt, j, g2):
                def more():
                    if hi is not C.MAXREPEAT and cnt >= hi:
                        return None

                    def k3(j2, g3):
                        if j2 == j and cnt >= lo:
                            return None     # no empty iterations
                        return rep(cnt + 1, j2, g3)
                    return self.run(sub, j, g2, k3, hi is C.MAXREPEAT and lo <= 1
                                    and len(sub) == 1)

                def done():
                    if cnt < lo:
                        return None
                    return self.run(rest, j, g2, k)
                order = (more, done) if op is C.MAX_REPEAT else (done, more)
                for f in order:
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, i, g)
        if op is C.AT:
            ok = None
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av is C.AT_BEGINNING and bool(self.flags & _re.MULTILINE)
                                and self.test(i - 1, lambda c: c == '\n'))
            elif av is C.AT_END_STRING:
                ok = i == self.n
            elif av is C.AT_END:
                ok = i == self.n or (i == self.n - 1 and self.test(i, lambda c: c == '\n')) or (
                    bool(self.flags & _re.MULTILINE) and self.test(i, lambda c: c == '\n'))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = lambda c: c.isalnum() or c == '_'
                a = i > 0 and self.test(i - 1, w, True)
                b = i < self.n and self.test(i, w, True)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            if ok is None:
                raise core.Inconclusive('regex anchor %r' % (av,))
            return self.run(rest, i, g, k) if ok else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + (b - a) > self.n:
                return None
            if self.at is not None:
                raise core.Inconclusive('regex group reference with numbers')
            if not bool(SymStr(self.cs[a:b])._eqterm(SymStr(self.cs[i:i + b - a]))):
                return None
            return self.run(rest, i + b - a, g, k)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction != 1:
                raise core.Inconclusive('regex lookbehind')
            r = self.run(list(sub), i, g, lambda j, g2: (j, g2))
            if (r is not None) == (op is C.ASSERT):
                return self.run(rest, i, r[1] if r is not None else g, k)
            return None
        raise core.Inconclusive('regex op %r' % (op,))


class SMatch:
    def __init__(self, pat, s, start, end, g):
        self.re, self.string = pat, s
        self.g = dict(g)
        self.g[0] = (start, end)

    def _gid(self, k):
        return self.re.groupindex[k] if isinstance(k, str) else k

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def _one(self, k, default=None):
        k = self._gid(k)
        if k > self.re.groups:
            raise IndexError('no such group')
        if k not in self.g:
            return default
        a, b = self.g[k]
        if not isinstance(self.string, SymStr):
            return self.string[a:b]
        return mk(_codes(self.string)[a:b])

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def start(self, k=0):
        return self.g.get(self._gid(k), (-1, -1))[0]

    def end(self, k=0):
        return self.g.get(self._gid(k), (-1, -1))[1]

    def span(self, k=0):
        return self.g.get(self._gid(k), (-1, -1))

    def __bool__(self):
        return True


class SPattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SPattern):
            pattern = pattern._real
        self._real = _re.compile(pattern, flags) if not isinstance(pattern, _re.Pattern) \
            else pattern
        self._nodes = None

    def __getattr__(self, n):
        return getattr(self._real, n)

    def _sym(self, s):
        return isinstance(s, SymStr) or isinstance(s, str) and '\ue000' in s and \
            '\ue000' not in self._real.pattern

    def _parse(self):
        if self._nodes is None:
            self._nodes = list(_parser.parse(self._real.pattern, self._real.flags & ~_re.UNICODE
                                             if isinstance(self._real.pattern, bytes)
                                             else self._real.flags))
        return self._nodes

    def _match_at(self, s, i, full=False, m=None):
        m = m or Matcher(s, self._real.flags)
        if m.at is not None:
            i = m.at.index(i)
        return self._match_cell(s, m, i, full)

    def _match_cell(self, s, m, i, full=False):
        end = (lambda j, g: (j, g) if j == m.n else None) if full else (lambda j, g: (j, g))
        r = m.run(self._parse(), i, {}, end)
        if r is None:
            return None
        return SMatch(self._real, s, m.offset(i), m.offset(r[0]),
                      {k: (m.offset(a), m.offset(b)) for k, (a, b) in r[1].items()})

    def match(self, s, *a):
        if not self._sym(s):
            return self._real.match(s, *a)
        return self._match_at(s, *(a or (0,)))

    def fullmatch(self, s):
        if not self._sym(s):
            return self._real.fullmatch(s)
        return self._match_at(s, 0, True)

    def search(self, s, pos=0):
        if not self._sym(s):
            return self._real.search(s, pos)
        m = Matcher(s, self._real.flags)
        for i in range(pos if m.at is None else m.at.index(pos), m.n + 1):
            r = self._match_cell(s, m, i)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0):
        if not self._sym(s):
            yield from self._real.finditer(s, pos)
            return
        i = pos
        last_empty = None
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s):
        if not self._sym(s):
            return self._real.findall(s)
        out = []
        for m in self.finditer(s):
            n = self._real.groups
            out.append(m.group() if n == 0 else (m._one(1, '') if n == 1 else m.groups('')))
        return out

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self._real.split(s, maxsplit)
        out = []
        last = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(s[last:])
        return out

    def sub(self, repl, s, count=0):
        if not self._sym(s):
            return self._real.sub(repl, s, count)
        out = ''
        last = n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            n += 1
            out = out + s[last:m.start()]
            if callable(repl):
                out = out + repl(m)
            else:
                out = out + _expand(repl, m)
            last = m.end()
        return out + s[last:]


def _expand(repl, m):
    if '\\' not in repl:
        return repl
    out = ''
    i = 0
    while i < len(repl):
        if repl[i] == '\\' and i + 1 < len(repl):
            if repl[i + 1].isdigit():
                out = out + m._one(int(repl[i + 1]), '')
                i += 2
                continue
            if repl[i + 1] == 'g':
                j = repl.index('>', i)
                k = repl[i + 3:j]
                out = out + m._one(int(k) if k.isdigit() else k, '')
                i = j + 1
                continue
            if repl[i + 1] == 'n':
                out = out + '\n'
                i += 2
                continue
            if repl[i + 1] == '\\':
                out = out + '\\'
                i += 2
                continue
            raise core.Inconclusive('regex template')
        out = out + repl[i]
        i += 1
    return out


class SRe:
    """re module proxy"""

    def __getattr__(self, n):
        return getattr(_re, n)

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, SPattern) else SPattern(p, flags)

    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return self.compile(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)
    def finditer(self, p, s, flags=0): return self.compile(p, flags).finditer(s)
    def findall(self, p, s, flags=0): return self.compile(p, flags).findall(s)
    def split(self, p, s, maxsplit=0, flags=0): return self.compile(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)


sre = SRe()
