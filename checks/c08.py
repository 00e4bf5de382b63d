"""C08: the iterations given to the cache simulator, and the results drawn from it."""
from symx.runner import Case
from checks.util import mk_kernel
from checks.templates import LIB, T
from checks.c07 import plain
from kerncraft import cacheprediction
from kerncraft.cacheprediction import CacheSimulationPredictor

ASSUMPTIONS = ['the simulator is a stand-in: caches are full after an arbitrary number of runs, '
               'statistics arbitrary', 'loops are long enough for several cachelines',
               'array accesses stay within their array']

D = 'double'
KERNELS = {
    'triad': LIB['triad'], 'float': LIB['float'], 'complex': LIB['complex'],
    'order': LIB['order'],
    'read': T([(D, 'x', ('N',)), (D, 'y', ('N',))], [('i', '3', 'N', 1)], ['s += x[i] * y[i-3]'],
              [(D, 's')]),
    'step2': T([(D, 'x', ('N+2',)), (D, 'y', ('N+2',))], [('i', '0', 'N', 2)],
               ['x[i] = y[i] + y[i+1]']),
    '2d5pt': LIB['2d5pt'],
    '2d-update': T([('float', 'x', ('M', 'N')), ('float', 'y', ('M', 'N'))],
                   [('j', '1', 'M', 1), ('i', '0', 'N', 1)], ['x[j][i] += y[j-1][i]']),
}


class Level:
    cl_bits = 6

    def __init__(self, size=None):
        self._size = size

    def size(self):
        return self._size


class Machine(dict):
    sim = None

    def get_cachesim(self, cores):
        self.cores = cores
        return self.sim


class Sim:
    """stand-in for the simulator"""

    def __init__(self, ctx, sizes, trace, full):
        self.ctx, self.sizes, self.trace = ctx, sizes, trace
        self.first_level = Level()
        # the caches are full after some number of runs
        self.full = ctx.int('full', *full)
        self.calls = 0

    def levels(self, with_mem=True):
        return [Level(s) for s in self.sizes] + ([Level(None)] if with_mem else [])

    def count_invalid_entries(self):
        self.calls += 1
        return 17 if self.calls <= self.full else 0

    def loadstore(self, offsets, length=1):
        self.trace.append(('run', offsets, length))

    def reset_stats(self):
        self.trace.append(('reset',))

    def stats(self):
        for n in range(len(self.sizes) + 1):
            yield {k: self.ctx.real('%s%d' % (k, n), 0, 10 ** 9)
                   for k in ('LOAD_count', 'HIT_count', 'MISS_count', 'STORE_count',
                             'EVICT_count', 'LOAD_byte', 'HIT_byte', 'MISS_byte',
                             'STORE_byte', 'EVICT_byte')}

    def print_stats(self, file=None):
        file.write('stats')


def build(ctx, tpl, lo, hi, sizes, full, row=None):
    t = KERNELS[tpl]
    env = {n: ctx.int(n, lo, hi) for n in t.consts}
    if len(t.loops) == 2:
        env['N'] = ctx.choice('row', row)
    total = t.total(env)
    machine = Machine({'cacheline size': 64, 'memory hierarchy': [
        {'level': n} for n in ['L1', 'L2', 'L3'][:len(sizes)] + ['MEM']]})
    k = plain(mk_kernel(t.code(), env, machine=machine))
    real = k.compile_global_offsets

    def offsets(iteration=0, spacing=0):
        if hasattr(iteration, 'start'):
            return ('range', iteration.start, iteration.stop)
        return real(iteration=iteration, spacing=spacing)
    k.compile_global_offsets = offsets
    trace = []
    machine.sim = Sim(ctx, sizes, trace, full)
    return t, env, total, machine, k, real, trace


def first_store(ctx, t, env, k, real, g):
    row = real(iteration=g)[0]
    return list(row['store'] if t.writes else row['load'])


def h_phases(ctx, tpl, lo, hi, sizes, full, row=None):
    t, env, total, machine, k, real, trace = build(ctx, tpl, lo, hi, sizes, full, row)
    step = t.loops[-1][3]
    esize = t.esize(sorted(t.arrays)[0])
    ctx.assume(total >= 100)
    cores = ctx.choice('cores', [1, 4])
    p = CacheSimulationPredictor(k, machine, cores=cores)
    ctx.check(machine.cores == cores, 'simulator for the number of cores')
    resets = [n for n, e in enumerate(trace) if e[0] == 'reset']
    ctx.check(len(resets) == 1, 'statistics are reset once')
    ctx.check(resets[0] == len(trace) - 2, 'statistics cover the benchmark only')
    runs = [e for e in trace if e[0] == 'run']
    at = 0
    ok = []
    for n, (_, (_, a, b), length) in enumerate(runs):
        ok.append((a < b, 'empty range of iterations'))
        ok.append((b <= total, 'iterations exist'))
        ok.append((ctx.any([a == at, ctx.all([a == 0, at == total])]), 'consecutive iterations'))
        ok.append((length == esize, 'bytes of each access'))
        at = b
    for what in ('empty range of iterations', 'iterations exist', 'consecutive iterations',
                 'bytes of each access'):
        ctx.check(ctx.all([c for c, w in ok if w == what]), what, str(runs))
    _, (_, warm, end), _ = runs[-1]
    ctx.check(end - warm <= 100000, 'length of the benchmark')
    ctx.check(end < total, 'benchmark stays away from the end')
    per_cl = 64 // (esize * step) if (64 // esize) % step == 0 else None
    if per_cl is not None:
        n = (end - warm) / per_cl
        ctx.check(p.first_dim_factor == n, 'number of cachelines', str(p.first_dim_factor))
        # from cacheline boundary to cacheline boundary, as long as that is in the same row
        trip = t.trips(env)[-1]
        last_warm = runs[-2][1][2] if len(runs) > 1 else 0
        before = runs[-2][1][1] if len(runs) > 1 else 0
        # the handover is at most one cacheline long
        for what, g in (('begin', warm), ('end', end)):
            if len(t.loops) == 2:
                inside = g % trip + per_cl <= trip if what == 'end' else g % trip >= per_cl
                inside = ctx.any([inside, g < trip]) if what == 'begin' else inside
            else:
                inside = True
            offs = first_store(ctx, t, env, k, real, g)
            aligned = ctx.any([o % 64 < esize * step for o in offs])
            ctx.check(ctx.implies(inside, aligned), 'benchmark %ss at a cacheline boundary' % what)


def h_results(ctx, tpl):
    t, env, total, machine, k, real, trace = build(ctx, tpl, 1000, 1100, [64, 6400, 64000], (0, 0))
    sizes = machine.sim.sizes
    p = CacheSimulationPredictor(k, machine)
    stats = p.stats
    for name, got in (('LOAD', p.get_loads()), ('HIT', p.get_hits()), ('MISS', p.get_misses()),
                      ('STORE', p.get_stores()), ('EVICT', p.get_evicts())):
        ctx.check(len(got) == len(sizes) + 1, 'levels')
        for lvl, v in enumerate(got):
            ctx.close(v * p.first_dim_factor, stats[lvl][name + '_count'],
                      'results per cacheline', name)


def cases(tier):
    quick = tier == 'quick'
    cs = []
    for n, t in KERNELS.items():
        esize = t.esize(sorted(t.arrays)[0])
        if len(t.loops) == 1:
            sizes = [32 * 1024, 256 * 1024]
            inc = -(-(sum(sizes) // esize) // 50)
            step = t.loops[0][3]
            ranges = [(1, inc * step * (12 if quick else 60), (0, 150)),
                      # number of warm-up runs is limited to 100
                      (99 * inc * step, 10 ** 7, (99, 102))]
        else:
            sizes = [1500, 1500]
            inc = -(-(sum(sizes) // esize) // 50)
            ranges = [(1, 10 if quick else 40, (0, 150)), (1000, 1200 if quick else 5000, (0, 2))]
        for lo, hi, full in ranges:
            cs.append(Case('phases-%s-%d' % (n, lo), h_phases, tpl=n, lo=lo, hi=hi, sizes=sizes,
                           full=full, row=[10, 57], time=140 if quick else 1500,
                           query_ms=8000 if quick else 120000,
                           bounds='sizes %d to %d, caches %s, full after %d to %d warm-up runs'
                           % (lo, hi, sizes, full[0], full[1])))
        cs.append(Case('results-' + n, h_results, tpl=n, bounds='three caches')) if \
            len(t.loops) == 1 else None
    return cs
