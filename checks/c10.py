"""C10: measured bandwidths that fit an access pattern."""
from symx.runner import Case
from kerncraft import machinemodel
from kerncraft.machinemodel import MachineModel
from kerncraft.prefixedunit import PrefixedUnit

ASSUMPTIONS = ['floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)']
KERNELS = ['copy', 'daxpy', 'load', 'triad', 'update']


def build(ctx, nk, ncores):
    if ctx.symbolic:
        PrefixedUnit.good_prefix = lambda self, *a, **k: ''
    names = ['load'] + [n for n in KERNELS if n != 'load'][:nk - 1]
    kernels, results = {}, {}
    spec = {}
    for n in names:
        if n == 'load':
            r, rw, w = 1, 0, 0
        else:
            w = ctx.choice(n + '_w', [0, 1, 2])
            rw = ctx.choice(n + '_rw', [0, 1]) if w else 0
            r = ctx.int(n + '_r', rw, 6)
        size = PrefixedUnit(8, '', 'B')
        b = ctx.real(n + '_bytes', 1, 16)
        spec[n] = (r, rw, w)
        kernels[n] = {'FLOPs per iteration': 0}
        for key, v in (('read streams', r), ('read+write streams', rw), ('write streams', w)):
            kernels[n][key] = {'streams': v, 'bytes': PrefixedUnit(v * b, '', 'B')}
    for lvl in ('L1', 'L2', 'MEM'):
        results[lvl] = {}
        for tpc in (1, 2):
            results[lvl][tpc] = {
                'threads per core': tpc, 'cores': list(range(1, ncores + 1)),
                'results': {n: [PrefixedUnit(ctx.real('bw_%s_%s%d_%d' % (n, lvl, tpc, c), 1, 1000)
                                             if lvl != 'L2' or tpc == 1 else 1 + c, 'G', 'B/s')
                                for c in range(ncores)] for n in names}}
    group = ctx.int('group', 1, ncores + 1)
    numa = ctx.int('numa', 1, ncores + 1)
    data = {'kerncraft version': machinemodel.__version__, 'cores per NUMA domain': numa,
            'memory hierarchy': [{'level': 'L1', 'cores per group': 1},
                                 {'level': 'L2', 'cores per group': group},
                                 {'level': 'MEM', 'cores per group': group}],
            'benchmarks': {'kernels': kernels, 'measurements': results}}
    return spec, data, MachineModel(machine_yaml=data), group, numa


def h_bandwidth(ctx, nk, ncores):
    spec, data, m, group, numa = build(ctx, nk, ncores)
    reads = ctx.real('reads', 0, 100)
    writes = ctx.choice('no_writes', [True, False])
    writes = 0 if writes else ctx.real('writes', 0, 100, lo_open=True)
    level = ctx.choice('level', [0, 1, 2])
    tpc = ctx.choice('threads', [1, 2])
    cores = ctx.choice('cores', [None] + list(range(1, ncores + 1)))
    got, kernel = m.get_bandwidth(level, reads, writes, tpc, cores=cores)

    # reads (including write-allocates) per write
    def distance(n):
        r, rw, w = spec[n]
        if not w:
            return None
        d = (r + w - rw) / w - reads / writes
        return ctx.ite(d < 0, -d, d)
    ctx.check(kernel in spec, 'kernel exists')
    if isinstance(writes, int):
        ctx.check(spec[kernel][2] == 0, 'reads only: a kernel without writes', kernel)
    elif all(s[2] == 0 for s in spec.values()):
        pass
    else:
        ctx.check(spec[kernel][2] > 0, 'a kernel with writes', kernel)
        d = distance(kernel)
        for n in spec:
            if spec[n][2]:
                ctx.check(d <= distance(n), 'closest ratio of reads and writes',
                          '%s instead of %s' % (kernel, n))
    lvl = data['memory hierarchy'][level]['level']
    entries = data['benchmarks']['measurements'][lvl][tpc]['results'][kernel]
    if cores is not None:
        bw = entries[cores - 1].value
    else:
        g = data['memory hierarchy'][level]['cores per group']
        bw = None
        for n, e in enumerate(entries):
            if bw is None:
                bw = e.value
            else:
                bw = ctx.ite(ctx.all([g > n, numa > n, e.value > bw]), e.value, bw)
    r, rw, w = spec[kernel]
    # a write also reads the cacheline, unless that was read anyway
    ctx.check(got.unit == 'B/s', 'unit', got.unit)
    if level == 0 or not w:
        ctx.close(float(got), bw * 10 ** 9, 'measured bandwidth')
    else:
        ctx.close(float(got) * (r + w), bw * 10 ** 9 * (r + w + w - rw),
                  'bandwidth including write-allocates')


def h_refused(ctx):
    """no measurement for the number of cores or threads"""
    spec, data, m, group, numa = build(ctx, 2, 2)
    cores = ctx.choice('cores', [0, 3, 7])
    try:
        m.get_bandwidth(2, ctx.real('reads', 0, 100), 1, 1, cores=cores)
    except (ValueError, IndexError, KeyError):
        refused = True
    else:
        refused = False
    ctx.check(refused, 'number of cores that was not measured')


def cases(tier):
    quick = tier == 'quick'
    cs = [Case('kernels-%d-cores-%d' % (nk, nc), h_bandwidth, nk=nk, ncores=nc,
               time=120 if quick else 1500,
               bounds='%d benchmark kernels with up to 6 streams, %d measurements' % (nk, nc))
          for nk, nc in ([(1, 2), (2, 3), (3, 1)] if quick else [(1, 2), (2, 3), (3, 2), (4, 1)])]
    cs.append(Case('refused', h_refused, bounds='numbers of cores not measured'))
    return cs
