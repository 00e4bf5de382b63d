"""C07: layer conditions against their definition on the actual sizes."""
from symx.runner import Case
from checks.util import mk_kernel, evaluate
from checks.templates import LIB, T
from kerncraft import kernel as kmod
from kerncraft.cacheprediction import LayerConditionPredictor

ASSUMPTIONS = ['reuse distances have the order of their degree in the sizes (sizes above 40)',
               'the simulator of the machine reports the cache sizes',
               'caches are given from smallest to largest']

D = 'double'
OWN = {
    '1d-far': T([(D, 'a', ('N',)), (D, 'b', ('N',))], [('i', '9', 'N-9', 1)],
                ['b[i] = a[i-9] + a[i-2] + a[i] + a[i+1] + a[i+9]']),
    '2d-wide': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
                 [('j', '3', 'M-3', 1), ('i', '3', 'N-3', 1)],
                 ['b[j][i] = a[j-3][i] + a[j-1][i+2] + a[j][i-3] + a[j][i+3] + a[j+2][i]']),
    '2d-update': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
                   [('j', '1', 'M-1', 1), ('i', '1', 'N-1', 1)],
                   ['a[j][i] += b[j-1][i] + b[j+1][i]', 'b[j][i] = a[j][i-1]']),
    '2d-const': T([('float', 'A', ('M', 'N')), ('float', 'x', ('N',)), ('float', 'B', ('9', 'N'))],
                  [('j', '1', 'M', 1), ('i', '0', 'N', 1)],
                  ['A[j][i] = x[i] * B[3][i] + B[5][i] + A[j-1][i]']),
    '2d-row': T([(D, 'A', ('M', 'N')), (D, 'x', ('M',)), (D, 'y', ('9',))],
                [('j', '0', 'M', 1), ('i', '0', 'N-1', 1)],
                ['A[j][i] = A[j][i+1] * y[2] + y[4]']),
    '2d-two': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N')), (D, 'c', ('M', 'N'))],
                [('j', '2', 'M-2', 1), ('i', '2', 'N-2', 1)],
                ['c[j][i] = a[j-1][i] + a[j+1][i] + b[j-2][i] + b[j][i-1] + b[j][i+2]',
                 'a[j][i] = c[j][i] * 2.0']),
    '2d-stores': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
                   [('j', '1', 'M-1', 1), ('i', '1', 'N-1', 1)],
                   ['a[j][i] = b[j][i]', 'a[j-1][i] = 2.0', 'b[j][i-1] = 3.0']),
    '3d-long': T([(D, 'a', ('L', 'M', 'N')), (D, 'b', ('L', 'M', 'N')), (D, 'r', ('L', 'M', 'N'))],
                 [('k', '4', 'L-4', 1), ('j', '4', 'M-4', 1), ('i', '4', 'N-4', 1)],
                 ['b[k][j][i] = 2.0 * a[k][j][i] - b[k][j][i] + r[k][j][i] * (a[k][j][i+4] '
                  '+ a[k][j][i-4] + a[k][j+4][i] + a[k][j-4][i] + a[k+4][j][i] + a[k-4][j][i])']),
    '3d-coeff': T([('float', 'W', ('2', 'L', 'M', 'N')), ('float', 'a', ('L', 'M', 'N'))],
                  [('k', '1', 'L', 1), ('j', '1', 'M', 1), ('i', '1', 'N', 1)],
                  ['a[k][j][i] = W[0][k][j][i] * a[k-1][j][i] + W[1][k][j][i] * a[k][j][i-1]']),
}
KERNELS = {n: LIB[n] for n in ('triad', 'order', 'float', 'complex', '2d5pt',
                               '3d7pt')}
KERNELS.update(OWN)
REFUSED = {
    'matmul': LIB['3d-matmul'], 'swap': LIB['2d-swap'], 'step': LIB['1d-step'],
    'step2': LIB['2d-step'],
    'outer-step': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
                    [('j', '1', 'M', 2), ('i', '0', 'N', 1)], ['b[j][i] = a[j][i] + a[j-1][i]']),
    'inner-step': T([(D, 'a', ('M', 'N')), (D, 'b', ('M', 'N'))],
                    [('j', '1', 'M', 1), ('i', '0', 'N', 2)], ['b[j][i] = a[j][i] + a[j-1][i]']),
    'middle-step': T([(D, 'a', ('L', 'M', 'N')), (D, 'b', ('L', 'M', 'N'))],
                     [('k', '0', 'L', 1), ('j', '0', 'M', 4), ('i', '0', 'N', 1)],
                     ['b[k][j][i] = a[k][j][i]']),
    'stride-write': T([(D, 'a', ('3*N',)), (D, 'b', ('N',))], [('i', '0', 'N', 1)],
                      ['a[3*i] = b[i]']),
    'swap-one': T([(D, 'a', ('N', 'N')), (D, 'b', ('N', 'N'))],
                  [('j', '0', 'N', 1), ('i', '0', 'N', 1)], ['b[j][i] = a[i][j]']),
    'swap-write': T([(D, 'a', ('N', 'N')), (D, 'b', ('N', 'N'))],
                    [('j', '0', 'N', 1), ('i', '0', 'N', 1)], ['b[i][j] = a[j][i]']),
    'swap-outer': T([(D, 'a', ('L', 'M', 'N')), (D, 'b', ('L', 'M', 'N'))],
                    [('k', '0', 'L', 1), ('j', '0', 'M', 1), ('i', '0', 'N', 1)],
                    ['b[k][j][i] = a[j][k][i]']),
    'stride': T([(D, 'a', ('2*N',)), (D, 'b', ('N',))], [('i', '0', 'N', 1)], ['b[i] = a[2*i]']),
    'diagonal': T([(D, 'a', ('N', 'N')), (D, 'b', ('N',))], [('i', '0', 'N', 1)],
                  ['b[i] = a[i][i]']),
    'backwards': T([(D, 'a', ('N',)), (D, 'b', ('N',))], [('i', '0', 'N', 1)], ['b[i] = a[N-i]']),
}


class Level:
    def __init__(self, size):
        self._size = size

    def size(self):
        return self._size


class Sim:
    def __init__(self, sizes):
        self.sizes = sizes

    def levels(self, with_mem=True):
        return [Level(s) for s in self.sizes] + ([Level(None)] if with_mem else [])


class Machine(dict):
    def __init__(self, sizes):
        dict.__init__(self)
        self.sizes = sizes

    def get_cachesim(self, cores):
        # shared caches are divided between cores
        return Sim([s // cores if n == len(self.sizes) - 1 else s
                    for n, s in enumerate(self.sizes)])


def plain(k):
    """the kernel without the source file (results are not stored)"""
    p = kmod.Kernel(machine=k._machine, loop_stack=k._loop_stack, variables=k.variables,
                    sources=k.sources, destinations=k.destinations, datatype=k.datatype)
    p.constants = k.constants
    return p


def distances(ctx, t, env):
    """reuse distances in bytes of all arrays that move with the innermost loop, and the number
    of arrays (first access: infinite)"""
    at = dict(env)
    for v, start, stop, _ in t.bounds(env):
        at[v] = start
    nxt = dict(at)
    nxt[t.vars[-1]] = at[t.vars[-1]] + 1
    found, arrays = [], 0
    for a in sorted(t.arrays):
        refs = [r for r in t.reads if r[0] == a] + [r for r in t.writes if r[0] == a]
        if not any(t.vars[-1] in ' '.join(r[1]) for r in refs):
            continue
        arrays += 1
        pos = [t.flat(r, at) for r in refs]
        # positions in order; which order that is does not depend on the sizes
        pos.sort()
        found += [(pos[n + 1] - pos[n]) * t.esize(a) for n in range(len(pos) - 1)]
    return found, arrays


def h_lc(ctx, tpl, hi, symbolic):
    t = KERNELS[tpl]
    env = {n: ctx.int(n, 41, hi) for n in t.consts}
    sizes = ctx.choice('caches', [[32 * 1024, 256 * 1024], [1000, 20480 * 1024],
                                  [8, 4096], [48 * 1024 + 8, 1234567]])
    cores = ctx.choice('cores', [1, 3])
    machine = Machine(sizes)
    k = plain(mk_kernel(t.code(), env, machine=machine))
    p = LayerConditionPredictor(k, machine, cores=cores, symbolic=symbolic)
    dist, arrays = distances(ctx, t, env)
    total = 0
    for a in t.arrays:
        total = total + t.elements(a, env) * t.esize(a)
    n = len(dist) + arrays
    stores = len([r for r in t.writes if t.vars[-1] in ' '.join(
        ' '.join(x[1]) for x in t.reads + t.writes if x[0] == r[0])])
    expected = []
    for size in machine.get_cachesim(cores).sizes:
        hits, evicts = 0, stores
        # the largest reuse distance that still fits determines what is served from this cache
        best = 0
        for d in dist:
            need = 0
            count = 0
            for e in dist:
                need = need + ctx.ite(e <= d, e, d)
                count = count + ctx.ite(e <= d, 1, 0)
            need = need + arrays * d
            hits = ctx.ite(ctx.all([need <= size, count > hits]), count, hits)
        hits = ctx.ite(size > total, n, hits)
        evicts = ctx.ite(size > total, 0, stores)
        expected.append((hits, n - hits, evicts))
    if symbolic:
        options = p.results['cache']
        ctx.check(len(options) == len(sizes), 'one list of options for each cache')
        names = dict(env)
        for opts, (hits, misses, evicts) in zip(options, expected):
            taken = False
            for o in opts:
                c = o['condition']
                here = holds(ctx, c, names)
                first = ctx.all([here, ctx.not_(taken)])
                ctx.check(ctx.implies(first, ctx.all([hits == o['hits'], misses == o['misses'],
                                                      evicts == o['evicts']])),
                          'layer condition', '%s' % (o,))
                taken = ctx.any([taken, here])
            ctx.check(taken, 'a condition applies')
        return
    ctx.check(len(p.get_hits()) == len(sizes) + 1, 'levels')
    for level, (hits, misses, evicts) in enumerate(expected):
        ctx.check(p.get_hits()[level] == hits, 'hits', 'level %d' % level)
        ctx.check(p.get_misses()[level] == misses, 'misses', 'level %d' % level)
        ctx.check(p.get_evicts()[level] == evicts, 'evicts', 'level %d' % level)
        ctx.check(p.get_loads()[level + 1] == misses, 'loads', 'level %d' % level)
        ctx.check(p.get_stores()[level + 1] == evicts, 'stores', 'level %d' % level)
    ctx.check(p.get_hits()[-1] == expected[-1][1], 'memory serves what the last cache misses')
    ctx.check(p.get_misses()[-1] == 0, 'memory has no misses')
    ctx.check(p.get_evicts()[-1] == 0, 'memory has no evicts')


def holds(ctx, c, env):
    """truth of a relation between polynomials"""
    if c is True or c is False:
        return c
    name = type(c).__name__
    if name in ('BooleanTrue', 'BooleanFalse'):
        return name == 'BooleanTrue'
    a, b = evaluate(c.lhs, env), evaluate(c.rhs, env)
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
            '>=': lambda: a >= b}[c.rel_op]()


def h_refuse(ctx, tpl):
    t = REFUSED[tpl]
    env = {n: ctx.int(n, 41, 1000) for n in t.consts}
    machine = Machine([32 * 1024])
    k = plain(mk_kernel(t.code(), env, machine=machine))
    try:
        LayerConditionPredictor(k, machine)
    except ValueError:
        ctx.check(True, 'refused')
        return
    ctx.fail('layer conditions do not apply, but were evaluated', t.code())


def cases(tier):
    cs = []
    quick = tier == 'quick'
    for n, t in KERNELS.items():
        hi = {1: 10 ** 7, 2: 10 ** 5, 3: 2000}[len(t.loops)]
        if not quick:
            hi *= 10
        cs.append(Case('sizes-' + n, h_lc, tpl=n, hi=hi, symbolic=False, time=100 if quick else 900,
                       bounds='sizes 41 to %d' % hi))
        cs.append(Case('symbolic-' + n, h_lc, tpl=n, hi=hi, symbolic=True,
                       time=100 if quick else 900, bounds='sizes 41 to %d' % hi))
    for n in REFUSED:
        cs.append(Case('refuse-' + n, h_refuse, tpl=n))
    return cs
