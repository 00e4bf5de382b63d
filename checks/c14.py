"""C14: ceilings and bottleneck of the roofline models."""
import io

from symx.runner import Case
from kerncraft.models import roofline
from kerncraft.prefixedunit import PrefixedUnit
from checks import models
from checks.util import mk_kernel

ASSUMPTIONS = ['floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)',
               'in-core analysis, cache prediction and bandwidths are arbitrary results']

# code, bytes per element, increment, FLOPs, elements read and written by n iterations
KERNELS = {
    'triad': ('double a[400], b[400], c[400], s;\nfor(int i=0; i<300; ++i)\n'
              ' a[i] = b[i] + s * c[i];\n', 8, 1, 2, lambda n: (2 * n, n)),
    'copy': ('float a[400], b[400];\nfor(int i=0; i<300; ++i)\n a[i] = b[i];\n', 4, 1, 0,
             lambda n: (n, n)),
    'stencil': ('double a[400], b[400];\nfor(int i=1; i<300; ++i)\n'
                ' a[i] = b[i-1] + b[i] + b[i+1];\n', 8, 1, 2, lambda n: (n + 2, n)),
    'step': ('float a[400], b[400];\nfor(int i=0; i<300; i+=2)\n a[i] = b[i] * 2.0 + b[i+1];\n',
             4, 2, 2, lambda n: (2 * n, n)),
    'sum': ('float a[400], s;\nfor(int i=0; i<300; ++i)\n s += a[i];\n', 4, 1, 1,
            lambda n: (n, 0)),
    'complex': ('double _Complex a[400], b[400];\nfor(int i=0; i<300; ++i)\n'
                ' a[i] = b[i] * b[i];\n', 16, 1, 1, lambda n: (n, n)),
    'fcomplex': ('float _Complex a[400], b[400];\nfor(int i=0; i<300; ++i)\n'
                 ' a[i] = b[i] + 1.0;\n', 8, 1, 1, lambda n: (n, n)),
}


LEVELS = ['L1', 'L2', 'L3', 'L4']


def build(ctx, names, levels, line=64):
    models.plain_units(ctx)
    code, esize, step, flops, elements = KERNELS[ctx.choice('kernel', names)]
    k = mk_kernel(code)
    clock = ctx.real('clock', 10 ** 6, 10 ** 10)
    bw = {n: PrefixedUnit(ctx.real('bw%d' % n, 1, 10 ** 12), '', 'B/s') for n in range(levels + 1)}
    peak = {p: {'total': ctx.int('flops_' + p, 1, 64)} for p in ('SP', 'DP')}
    m = models.Machine({'cacheline size': PrefixedUnit(float(line), '', 'B'),
                        'clock': PrefixedUnit(clock, '', 'Hz'), 'FLOPs per cycle': peak,
                        'in-core model': {'A': ''},
                        'memory hierarchy': [{'level': LEVELS[n]} for n in range(levels)] +
                                            [{'level': 'MEM'}]}, bw)
    loads = [ctx.real('load%d' % n, 0, 100) if n else 4.0 for n in range(levels + 1)]
    stores = [ctx.real('store%d' % n, 0, 100) if n else 2.0 for n in range(levels + 1)]
    cores = ctx.choice('cores', [1, 3])
    P = models.predictor(loads, stores)
    return k, m, P, loads, stores, cores, clock, bw, peak, (esize, step, flops, elements)


def level_checks(ctx, r, m, k, loads, stores, cores, bw, clock, its, flops, first, line=64):
    """ceilings of levels first.. and their minimum"""
    limits = {}
    for n, b in enumerate(r['mem bottlenecks']):
        if n < 1:
            continue
        ctx.check(b['level'] == ('MEM' if n == len(loads) - 1 else LEVELS[n]) and b['bw kernel'] == 'bench%d' % n, 'level')
        rd, wr, threads, c = m.asked[n]
        ctx.check(ctx.all([rd == loads[n], wr == stores[n], threads == 1, c == cores]),
                  'bandwidth for the streams of the level')
        ctx.check(b['bandwidth'] is bw[n] or b['bandwidth'] == bw[n], 'bandwidth')
        lines = loads[n] + stores[n]
        ctx.close(b['bytes transfered'], lines * line, 'bytes transferred')
        perf = b['performance']
        if ctx.fork(lines == 0):
            ctx.check(float(perf['It/s']) == float('inf'), 'level without transfers')
            ctx.check(float(perf['cy/CL']) == 0, 'level without transfers')
            ctx.check(b['arithmetic intensity'] == float('inf'), 'level without transfers')
            limits[n] = None
        else:
            ctx.close(b['arithmetic intensity'] * lines * line, its, 'arithmetic intensity')
            limits[n] = float(bw[n]) * its / (lines * line)
            models.conversions(ctx, perf, clock * its / limits[n], clock, its, flops, 'level ')
    return limits


def lowest(ctx, r, limits):
    low = float(r['min performance']['It/s'])
    finite = {n: v for n, v in limits.items() if v is not None}
    if not finite:
        ctx.check(low == float('inf'), 'nothing limits')
        return None
    n = r['bottleneck level']
    ctx.check(n in finite, 'bottleneck exists')
    ctx.close(low, finite[n], 'performance is that of the bottleneck')
    for v in finite.values():
        ctx.check(low <= v * 1.000001, 'bottleneck is the slowest level')
    return low


def h_flop(ctx, names, levels):
    k, m, P, loads, stores, cores, clock, bw, peak, (esize, step, flops, elements) = \
        build(ctx, names, levels)
    args = models.Args(cores=cores, cache_predictor='SIM', unit='FLOP/s')
    if ctx.choice('args', [True, False]):
        roofline.CacheSimulationPredictor = P
        model = roofline.RooflineFLOP(k, m, args)
    else:
        model = roofline.RooflineFLOP(k, m, cores=cores, cache_predictor=P)
    model.analyze()
    r = model.results
    its = 64 / (esize * step)
    ctx.check(len(r['mem bottlenecks']) == levels + 1, 'levels')
    limits = level_checks(ctx, r, m, k, loads, stores, cores, bw, clock, its, flops, 1)
    # registers: data of as many iterations as elements fit into a cacheline
    n = 64 // esize
    rd, wr = elements(n)
    b = r['mem bottlenecks'][0]
    ctx.check(m.asked[0][1] == 0 and m.asked[0][3] == cores, 'bandwidth of the first level')
    ctx.close(b['arithmetic intensity'] * (rd + wr) * esize, n, 'intensity of the first level')
    limits[0] = float(bw[0]) * n / ((rd + wr) * esize)
    models.conversions(ctx, b['performance'], clock * its / limits[0], clock, its, flops, 'L1 ')
    low = lowest(ctx, r, limits)
    # peak
    p = 'DP' if esize == 8 and 'float' not in k.datatype or esize == 16 else 'SP'
    top = clock * cores * peak[p]['total']
    if flops:
        ctx.close(float(r['max_perf']['FLOP/s']), top, 'peak performance')
        ctx.close(float(r['max_perf']['It/s']) * flops, top, 'peak performance')
    model._args = args
    out = io.StringIO()
    model.report(output_file=out)
    text = out.getvalue()
    bound = ctx.any([flops > 0, False]) and low * flops > top
    # not asserted where both limits agree
    if not flops or not ctx.fork(low * flops == top):
        ctx.check(ctx.iff('CPU bound' in text, bound), 'kind of bottleneck', text)


def h_asm(ctx, names, levels):
    k, m, P, loads, stores, cores, clock, bw, peak, (esize, step, flops, elements) = \
        build(ctx, names, levels)
    tp = ctx.real('throughput', 0, 400, lo_open=True)
    k.incore_analysis = lambda **kw: (
        {'throughput': tp, 'port cycles': {}, 'output': '', 'uops': 1}, 64)
    model = roofline.RooflineASM(k, m, cores=cores, predictor=P)
    model.analyze()
    r = model.results
    its = 64 / (esize * step)
    ctx.check(len(r['mem bottlenecks']) == levels + 1, 'levels')
    limits = level_checks(ctx, r, m, k, loads, stores, cores, bw, clock, its, flops, 1)
    low = lowest(ctx, r, limits)
    model._args = models.Args(cores=cores, unit='It/s')
    out = io.StringIO()
    model.report(output_file=out)
    top = clock / tp * its * cores
    if low is None:
        ctx.check('CPU bound' in out.getvalue(), 'kind of bottleneck')
    elif not ctx.fork(low == top):
        ctx.check(ctx.iff('CPU bound' in out.getvalue(), low > top), 'kind of bottleneck')


def cases(tier):
    quick = tier == 'quick'
    t = 200 if quick else 1500
    cs = []
    for n in KERNELS:
        cs.append(Case('flop-' + n, h_flop, names=[n], levels=1 if quick else 2, time=t,
                       bounds='one level below L1'))
    cs.append(Case('flop-levels', h_flop, names=['triad'], levels=2 if quick else 3, time=t,
                   bounds='two levels below L1'))
    cs.append(Case('asm-levels', h_asm, names=['step'], levels=2 if quick else 3, time=t,
                   bounds='two levels below L1'))
    cs.append(Case('asm', h_asm, names=['triad', 'copy', 'complex', 'sum'], levels=1, time=t,
                   bounds='one level below L1'))
    return cs
