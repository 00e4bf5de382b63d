"""Loop kernels as data, with their meaning computed independently of kerncraft."""
import re

SIZE = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}
_REF = re.compile(r'([A-Za-z_]\w*)((?:\s*\[[^\]]*\])+)')
_ID = re.compile(r'[A-Za-z_]\w*')


def refs_of(text):
    """array references in a piece of C text as (name, (index text, ...))"""
    return [(m.group(1), tuple(x.strip() for x in re.findall(r'\[([^\]]*)\]', m.group(2))))
            for m in _REF.finditer(text)]


def value(text, env):
    """value of a C integer expression of + - * ( )"""
    return eval(text, {'__builtins__': {}}, dict(env))


class T:
    """decls: [(type, name, (dim text, ...))], loops: outer to inner (var, start, stop, increment),
    stmts: assignments of the innermost loop"""

    def __init__(self, decls, loops, stmts, scalars=()):
        self.decls, self.loops, self.stmts, self.scalars = decls, loops, stmts, scalars
        self.arrays = {n: (t, d) for t, n, d in decls}
        self.reads, self.writes = [], []
        for s in stmts:
            m = re.match(r'(.*?)([-+*/]?=)(.*)$', s)
            lhs, op, rhs = m.groups()
            for r in refs_of(lhs):
                if r not in self.writes:
                    self.writes.append(r)
                if op != '=' and r not in self.reads:
                    self.reads.append(r)
            for r in refs_of(rhs):
                if r not in self.reads:
                    self.reads.append(r)
        self.vars = [l[0] for l in loops]
        names = []
        for text in [d for _, _, ds in decls for d in ds] + [x for l in loops for x in l[1:3]] + \
                [i for _, idx in self.reads + self.writes for i in idx]:
            for n in _ID.findall(text):
                if n not in names and n not in self.vars:
                    names.append(n)
        self.consts = sorted(names)

    def code(self):
        out = []
        for t, n, ds in self.decls:
            out.append('%s %s%s;' % (t, n, ''.join('[%s]' % d for d in ds)))
        for t, n in self.scalars:
            out.append('%s %s;' % (t, n))
        ind = ''
        for v, start, stop, incr in self.loops:
            out.append('%sfor(int %s=%s; %s<%s; %s)' % (
                ind, v, start, v, stop, '++' + v if incr == 1 else '%s+=%d' % (v, incr)))
            ind += '  '
        out.append(ind + '{')
        out += [ind + s + ';' for s in self.stmts]
        out.append(ind + '}')
        return '\n'.join(out) + '\n'

    def bounds(self, env):
        """[(var, start, stop, increment)] with values"""
        return [(v, value(a, env), value(b, env), c) for v, a, b, c in self.loops]

    def elements(self, name, env):
        n = 1
        for d in self.arrays[name][1]:
            n = n * value(d, env)
        return n

    def esize(self, name):
        return SIZE[self.arrays[name][0]]

    def flat(self, ref, env):
        """row major element index of a reference"""
        name, idx = ref
        dims = [value(d, env) for d in self.arrays[name][1]]
        r = 0
        for k, text in enumerate(idx):
            r = r * dims[k] + value(text, env)
        return r

    def trips(self, env):
        return [-((-(stop - start)) // incr) for _, start, stop, incr in self.bounds(env)]

    def indices_at(self, g, env):
        """loop indices of global iteration g"""
        res = dict(env)
        inner = 1
        for (v, start, stop, incr), n in reversed(list(zip(self.bounds(env), self.trips(env)))):
            res[v] = start + ((g // inner) % n) * incr
            inner = inner * n
        return res

    def total(self, env):
        r = 1
        for n in self.trips(env):
            r = r * n
        return r


D = 'double'
LIB = {
    'triad': T([(D, 'a', ('N',)), (D, 'b', ('N',)), (D, 'c', ('N',))], [('i', '0', 'N', 1)],
               ['a[i] = b[i] + s * c[i]'], [(D, 's')]),
    'order': T([(D, 'zz', ('N',)), (D, 'B', ('N', )), (D, 'aa', ('N+1',))], [('i', '0', 'N', 1)],
               ['B[i] = zz[i] + aa[i+1] + aa[i]']),
    'float': T([('float', 'x', ('N',)), ('float', 'y', ('N',))], [('i', '1', 'N-1', 1)],
               ['y[i] = x[i-1] + x[i+1]']),
    'complex': T([('double _Complex', 'x', ('N',)), ('double _Complex', 'y', ('N',))],
                 [('i', '0', 'N', 1)], ['y[i] += x[i]']),
    '1d-step': T([(D, 'a', ('N+3',)), (D, 'b', ('N+3',))], [('i', '1', 'N', 3)],
                 ['a[i] = b[i+2] + b[i+1] + b[i]', 'a[i+1] = b[i]']),
    'rowsum': T([(D, 'a', ('M', 'N')), (D, 'v', ('M',))],
                [('j', '0', 'M', 1), ('i', '0', 'N', 1)], ['v[j] += a[j][i]']),
    '2d5pt': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
               [('j', '1', 'M-1', 1), ('i', '1', 'N-1', 1)],
               ['b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s'], [(D, 's')]),
    '2d-swap': T([(D, 'a', ('N', 'M')), (D, 'b', ('M', 'N'))],
                 [('j', '0', 'M', 1), ('i', '0', 'N', 1)], ['b[j][i] = a[i][j]']),
    '2d-flat': T([(D, 'a', ('M*N',)), (D, 'b', ('M*N',))],
                 [('j', '1', 'M', 1), ('i', '0', 'N', 1)],
                 ['b[j*N+i] = a[(j-1)*N+i] + a[j*N+i]']),
    '2d-step': T([('float', 'a', ('M+2', 'N+2')), ('float', 'b', ('M+2', 'N+2'))],
                 [('j', '1', 'M', 2), ('i', '2', 'N', 2)],
                 ['b[j][i] = a[j-1][i+1] + a[j+1][i]']),
    '3d7pt': T([(D, 'a', ('L', 'M', 'N')), (D, 'b', ('L', 'M', 'N'))],
               [('k', '1', 'L-1', 1), ('j', '1', 'M-1', 1), ('i', '1', 'N-1', 1)],
               ['b[k][j][i] = a[k][j][i-1] + a[k][j][i+1] + a[k][j-1][i] + a[k][j+1][i] '
                '+ a[k-1][j][i] + a[k+1][j][i]']),
    '3d-matmul': T([(D, 'A', ('M', 'K')), (D, 'B', ('K', 'N')), (D, 'C', ('M', 'N'))],
                   [('i', '0', 'M', 1), ('k', '0', 'K', 1), ('j', '0', 'N', 1)],
                   ['C[i][j] += A[i][k] * B[k][j]']),
}
