"""C24: benchmarks of a machine fit the levels they stand for and are kept only as long."""
import re
import subprocess

from symx.runner import Case
from kerncraft import machinemodel
from kerncraft.prefixedunit import PrefixedUnit
from checks import models
from checks.c23 import Bytes

ASSUMPTIONS = ['likwid-bench measures what it is asked for', 'floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)']
KERNELS = ['copy', 'daxpy', 'load', 'triad', 'update']
UNITS = {'kB': 1000, 'MB': 10 ** 6}


class Bench:
    """likwid-bench"""

    def __init__(self, ctx, available=None, symbolic=None):
        self.ctx = ctx
        self.available = available or {k: 1 for k in KERNELS}
        self.symbolic = symbolic
        self.calls = []

    def install(self):
        machinemodel.subprocess = type('S', (), {
            'check_output': staticmethod(self.run), 'STDOUT': -2, 'PIPE': -1,
            'CalledProcessError': subprocess.CalledProcessError})

    def run(self, cmd, *a, **kw):
        ctx = self.ctx
        if list(cmd) == ['likwid-bench', '-a']:
            return Bytes('\n'.join('%s - Double-precision %s' % (k, k)
                                   for k in self.available) + '\n')
        if cmd[0] != 'likwid-bench' or '-t' not in cmd or '-W' not in cmd:
            raise AssertionError('unexpected command %s' % (cmd,))
        kernel, group = cmd[cmd.index('-t') + 1], cmd[cmd.index('-W') + 1]
        domain, size, threads, chunk, stride = group.split(':')
        ctx.check(size[-2:] == 'kB' and chunk == '1', 'workgroup')
        n = len([c for c in self.calls if c['kernel'] == kernel])
        bw = self.bandwidth(kernel, n)
        self.calls.append({'kernel': kernel, 'size': int(size[:-2]), 'threads': int(threads),
                           'stride': int(stride), 'domain': domain, 'bw': bw})
        if bw is None:
            raise subprocess.CalledProcessError(1, cmd)
        return Bytes('Cycles:\t\t\t1000\nTime:\t\t\t1.5e-01 sec\nMByte/s:\t\t%s\n'
                     'Cycles per update:\t2.5\n' % bw)

    def bandwidth(self, kernel, n):
        v = self.available[kernel]
        if v is None or not isinstance(v, int):
            return v
        if self.symbolic == (kernel, n):
            return self.ctx.real('bandwidth', 1, 10 ** 6)
        return 1000.0 * v + 7 * ((n * 5) % 11) + n // 11


class Machine(machinemodel.MachineModel):
    dumped = 0

    def dump(self, f=None):
        self.dumped += 1
        return ''


def machine(ctx, cores, threads, caches, measurements=None, args=None):
    hierarchy = [{'level': 'L%d' % (n + 1), 'size per group': PrefixedUnit(s, '', 'B'),
                  'cores per group': c} for n, (s, c) in enumerate(caches)]
    hierarchy.append({'level': 'MEM', 'size per group': None, 'cores per group': cores})
    return Machine(machine_yaml={
        'kerncraft version': machinemodel.__version__, 'cores per socket': cores,
        'threads per core': threads, 'memory hierarchy': hierarchy,
        'benchmarks': measurements or 'INFORMATION_REQUIRED'}, args=args)


def update(m):
    m.update(readouts=False, memory_hierarchy=False, benchmarks=True, machine_state=False)


def larger(ctx, a, b):
    return ctx.ite(a >= b, a, b)


def working_set(ctx, caches, level, c):
    def capacity(n):
        if n < 0:
            return 0
        s, group = caches[n]
        return s if c <= group else s * c / group
    if level == len(caches):
        return caches[-1][0] * 15
    return larger(ctx, capacity(level) * 0.66, capacity(level - 1) * 1.2)


def fits(ctx, call, want):
    """size in kB is rounded down"""
    ctx.check(ctx.all([call['size'] * 1000 <= want * 1.000001,
                       want * 0.999999 < (call['size'] + 1) * 1000]), 'size measured')


def h_fresh(ctx, cores, threads, groups, verbose=0):
    """all is measured"""
    models.plain_units(ctx)
    caches = [(ctx.int('size%d' % n, 10 ** 4, 10 ** 8), g) for n, g in enumerate(groups)]
    where = None
    if ctx.choice('symbolic bandwidth', [False, True]):
        where = ctx.choice('which', [('copy', 4), ('load', 5 if cores > 1 else 3)])
    bench = Bench(ctx, symbolic=where)
    bench.install()
    m = machine(ctx, cores, threads, caches, args=models.Args(verbose=verbose))
    update(m)
    b = m['benchmarks']
    ctx.check(sorted(b['kernels']) == KERNELS, 'kernels')
    for k in KERNELS:
        i = b['kernels'][k]
        ctx.check(i['fastest bench kernel'] == k, 'benchmark of kernel')
    levels = ['L%d' % (n + 1) for n in range(len(caches))] + ['MEM']
    ctx.check(sorted(b['measurements']) == sorted(levels), 'levels')
    calls = {k: [c for c in bench.calls if c['kernel'] == k] for k in KERNELS}
    used = {k: 1 for k in KERNELS}
    for n, l in enumerate(levels):
        ctx.check(sorted(b['measurements'][l]) == list(range(1, threads + 1)), 'threads')
        for t in range(1, threads + 1):
            d = b['measurements'][l][t]
            ctx.check(d['threads per core'] == t and d['cores'] == list(range(1, cores + 1)) and
                      d['threads'] == [c * t for c in range(1, cores + 1)], 'threads measured')
            for c in range(1, cores + 1):
                want = working_set(ctx, caches, n, c)
                ctx.close(d['total size'][c - 1].base_value(), want, 'working set')
                ctx.close(d['size per core'][c - 1].base_value(), want / c, 'per core')
                ctx.close(d['size per thread'][c - 1].base_value(), want / (c * t), 'per thread')
                for k in KERNELS:
                    mine = calls[k][used[k]:used[k] + 10]
                    used[k] += 10
                    best = mine[0]['bw']
                    for call in mine:
                        best = larger(ctx, best, call['bw'])
                        if call is mine[0]:
                            fits(ctx, call, want)
                        ctx.check(call['size'] == mine[0]['size'], 'repetitions')
                        ctx.check(call['threads'] == t * c and call['domain'] == 'S0' and
                                  call['stride'] == threads // t, 'workgroup')
                    ctx.close(d['results'][k][c - 1].base_value(), best * 10 ** 6, 'result')
                    ctx.check(d['results'][k][c - 1].unit == 'B/s', 'unit')
                    ctx.check(len(d['stats'][k][c - 1]) == 10, 'stats')
                    for call, s in zip(mine, d['stats'][k][c - 1]):
                        ctx.close(s.base_value(), call['bw'] * 10 ** 6, 'stat')
            for k in KERNELS:
                ctx.check(len(d['results'][k]) == cores and len(d['stats'][k]) == cores, 'lengths')
    for k in KERNELS:
        ctx.check(len(calls[k]) == used[k], 'nothing else is measured')
    ctx.check(m.dumped >= 1, 'saved')
    # a second run has nothing to do
    before = len(bench.calls)
    update(m)
    ctx.check(len(bench.calls) == before, 'measurements are kept')


def h_kept(ctx, flaw):
    """measurements of earlier runs"""
    models.plain_units(ctx)
    cores = 2
    size = ctx.int('size', 10 ** 4, 10 ** 7)
    old = ctx.real('old size', 10 ** 3, 10 ** 8)
    caches = [(size, 2)]
    bench = Bench(ctx)
    bench.install()
    new = size * 0.66
    other = ctx.choice('other', ['same', 'same ratio']) if flaw is None else 'same'
    totals = [old, new if other == 'same' else old]

    def entry(totals, value):
        n = len(totals)
        return {'threads per core': 1, 'cores': list(range(1, n + 1)),
                'threads': list(range(1, n + 1)),
                'total size': [PrefixedUnit(t, '', 'B') for t in totals],
                'size per core': [PrefixedUnit(t / (i + 1), '', 'B')
                                  for i, t in enumerate(totals)],
                'size per thread': [PrefixedUnit(t / (i + 1), '', 'B')
                                    for i, t in enumerate(totals)],
                'results': {k: [PrefixedUnit(value, 'M', 'B/s')] * n for k in KERNELS},
                'stats': {k: [[PrefixedUnit(value, 'M', 'B/s')]] * n for k in KERNELS}}
    l1 = entry(totals, 5.0)
    if flaw == 'fewer cores':
        ctx.assume(old == new)
        l1 = entry(totals[:1], 5.0)
    elif flaw == 'more cores':
        ctx.assume(old == new)
        l1 = entry(totals + [new], 5.0)
    elif flaw in ('results', 'stats', 'total size', 'cores'):
        ctx.assume(old == new)
        del l1[flaw]
    elif flaw in ('one result', 'one stat'):
        ctx.assume(old == new)
        del l1['results' if flaw == 'one result' else 'stats']['load']
    elif flaw == 'short results':
        ctx.assume(old == new)
        l1['results']['load'] = l1['results']['load'][:1]
    elif flaw == 'threads':
        ctx.assume(old == new)
        l1['threads'] = [2, 4]
    mem = entry([size * 15, size * 15], 6.0)
    m = machine(ctx, cores, 1, caches, {
        'kernels': {'load': {'fastest bench kernel': 'load', 'read streams': {},
                             'write streams': {}, 'read+write streams': {},
                             'FLOPs per iteration': 0}},
        'measurements': {'L1': {1: l1}, 'MEM': {1: mem}}})
    update(m)
    d = m['benchmarks']['measurements']['L1'][1]
    got = {k: [v.base_value() for v in d['results'][k]] for k in KERNELS}
    keep = {k: got[k] == [5.0e6] * 2 for k in KERNELS}
    fresh = {k: len(got[k]) == 2 and all(v >= 1e9 for v in got[k]) for k in KERNELS}
    ctx.check(all(keep[k] or fresh[k] for k in KERNELS), 'results are old or new')
    diff = ctx.ite(old >= new, old - new, new - old)
    low = ctx.ite(old >= new, new, old)
    if flaw is None:
        ctx.check(ctx.implies(diff * 100.1 < low, keep['load']), 'measurements which fit are kept')
        ctx.check(ctx.implies(diff * 99.9 > low, ctx.not_(keep['load'])),
                  'measurements which do not fit are repeated')
        ctx.check(all(keep.values()) or all(fresh.values()), 'for all kernels')
    elif flaw in ('one result', 'one stat', 'short results'):
        ctx.check(fresh['load'] and keep['copy'], 'incomplete measurements are repeated')
    else:
        ctx.check(all(fresh.values()), 'measurements of another kind are repeated', flaw)
    if not keep['load'] and flaw not in ('one result', 'one stat', 'short results'):
        for i in range(2):
            ctx.close(d['total size'][i].base_value(), new, 'working set')
        ctx.check(d['cores'] == [1, 2] and d['threads'] == [1, 2], 'cores')
    ctx.check(m['benchmarks']['measurements']['MEM'][1]['results']['load'][0].base_value() == 6e6,
              'other levels are kept')


def h_fastest(ctx):
    """benchmark kernels are chosen by bandwidth"""
    models.plain_units(ctx)
    names = ['load', 'load_avx', 'load_sse', 'load_mem', 'load_sp', 'load_avx512_nt', 'copy',
             'copy_avx', 'copy_mem_avx', 'daxpy', 'daxpy_sp_avx', 'triad_split', 'triad', 'update',
             'sum', 'noload']
    avail = {k: 1 for k in names}
    works = ctx.choice('works', ['all', 'one', 'odd'])
    avail['load'] = ctx.real('bw load', 1, 10 ** 5)
    avail['load_avx'] = ctx.real('bw load_avx', 1, 10 ** 5) if works == 'all' else None
    avail['load_sse'] = {'all': ctx.real('bw load_sse', 1, 10 ** 5), 'one': None,
                         'odd': 'nonsense'}[works]
    for k in ('load_mem', 'load_sp', 'load_avx512_nt', 'copy_mem_avx', 'daxpy_sp_avx'):
        avail[k] = 9 * 10 ** 5 + 0.5
    avail['copy_avx'] = 2
    bench = Bench(ctx, avail)
    bench.install()
    size = ctx.int('size', 10 ** 4, 10 ** 7)
    m = machine(ctx, 1, ctx.choice('threads', [1, 2]), [(size, 1)],
                args=models.Args(verbose=ctx.choice('verbose', [0, 2])))
    update(m)
    k = m['benchmarks']['kernels']
    best = k['load']['fastest bench kernel']
    ctx.check(best in ('load', 'load_avx', 'load_sse') and isinstance(avail[best], object) and
              avail[best] is not None and avail[best] != 'nonsense', 'kernel that works', best)
    for other in ('load', 'load_avx', 'load_sse'):
        if avail[other] is not None and not isinstance(avail[other], str):
            ctx.check(avail[best] >= avail[other], 'fastest kernel', '%s %s' % (best, other))
    ctx.check(k['copy']['fastest bench kernel'] == 'copy_avx', 'fastest copy')
    ctx.check(k['daxpy']['fastest bench kernel'] == 'daxpy', 'excluded kernels')
    ctx.check(k['triad']['fastest bench kernel'] in ('triad', 'triad_split'), 'triad')
    first = bench.calls[0]
    want = size * 0.66
    for c in bench.calls:
        ctx.check(not [e for e in ('_mem', '_sp', '_nt') if e in c['kernel']], 'measured kernels')
    fits(ctx, first, want)
    ctx.check(first['threads'] == 1, 'measured with one thread')


FLAWS = ['fewer cores', 'more cores', 'results', 'stats', 'total size', 'cores', 'one result',
         'one stat', 'short results', 'threads']


def cases(tier):
    res = [
        Case('one core, one cache', h_fresh, 'cache of 10 kB to 100 MB', time=300,
             cores=1, threads=1, groups=[1]),
        Case('three cores', h_fresh, 'two caches of 10 kB to 100 MB, 2 threads per core', time=600,
             cores=3, threads=2, groups=[1, 3]),
        Case('fastest', h_fastest, 'any bandwidths and sizes of 10 kB to 10 MB', time=300),
        Case('kept', h_kept, 'sizes of 10 kB to 10 MB', time=300, flaw=None)]
    res += [Case('kept despite ' + f, h_kept, 'sizes of 10 kB to 10 MB', time=300, flaw=f)
            for f in FLAWS]
    if tier != 'quick':
        res += [Case('verbose', h_fresh, 'caches of 10 kB to 100 MB', time=600,
                     cores=2, threads=1, groups=[1, 1], verbose=2),
                Case('three caches', h_fresh, 'caches of 10 kB to 100 MB', time=1200,
                     cores=4, threads=1, groups=[1, 2, 4]),
                Case('four threads', h_fresh, 'caches of 10 kB to 100 MB', time=1200,
                     cores=2, threads=4, groups=[2, 2])]
    return res
