"""C11: cycles of data transfers in the ECM model."""
from symx.runner import Case
from kerncraft.models import ecm
from kerncraft.prefixedunit import PrefixedUnit
from checks import models

ASSUMPTIONS = ['floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)',
               'cache predictions and measured bandwidths are arbitrary values']

HALF, FULL = 'half-duplex', 'full-duplex'
MEMBW = 'full socket memory bandwidth'


def h_cycles(ctx, levels, membw, byargs):
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx, steps=(1, 2), types=('double', 'float'), flops=(1,))
    line = ctx.choice('line', [64, 128])
    clock = ctx.real('clock', 10 ** 6, 10 ** 10)
    loads = [ctx.real('load%d' % n, 0, 100) for n in range(levels + 1)]
    stores = [ctx.real('store%d' % n, 0, 100) for n in range(levels + 1)]
    hierarchy = [{'level': 'L1', 'upstream throughput': ['architecture code analyzer', ['0']],
                  'transfers overlap': False}]
    bw, spec = {}, []
    penalties = 0
    for n in range(1, levels + 1):
        name = 'MEM' if n == levels else 'L%d' % (n + 1)
        duplex = ctx.choice('duplex%d' % n, [HALF, FULL])
        rate = ctx.real('rate%d' % n, 1, 10 ** 12)
        h = {'level': name}
        if n in membw:
            bw[n] = PrefixedUnit(rate, '', 'B/s')
            h['upstream throughput'] = [MEMBW, duplex]
            p = ctx.choice('penalty%d' % n, [0, 1, 2, 3])
            if p & 1:
                v = h['penalty cycles per cacheline load'] = ctx.real('penalty_l%d' % n, 0, 100)
                penalties = penalties + v * loads[n]
            if p & 2:
                v = h['penalty cycles per cacheline store'] = ctx.real('penalty_s%d' % n, 0, 100)
                penalties = penalties + v * stores[n]
        else:
            h['upstream throughput'] = [PrefixedUnit(rate, '', 'B/cy'), duplex]
        spec.append((n, name, duplex, rate))
        hierarchy.append(h)
    m = models.Machine({'cacheline size': PrefixedUnit(float(line), '', 'B'),
                        'clock': PrefixedUnit(clock, '', 'Hz'),
                        'memory hierarchy': hierarchy}, bw)
    P = models.predictor(loads, stores)
    cores = ctx.choice('cores', [1, 4])
    if byargs:
        ecm.CacheSimulationPredictor = P
        ecm.LayerConditionPredictor = None
        d = ecm.ECMData(k, m, models.Args(cores=cores, cache_predictor='SIM'))
    else:
        d = ecm.ECMData(k, m, cores=cores, cache_predictor=P)
    ctx.check(P.used.cores == cores and P.used.machine is m and P.used.kernel is k,
              'predictor asked')
    res = d.analyze()
    if res is None:
        res = d.results
    ctx.check([c[0] for c in res['cycles']] == [s[1] for s in spec], 'levels')
    for (n, name, duplex, rate), (_, cycles) in zip(spec, res['cycles']):
        both = loads[n] + stores[n]
        larger = ctx.ite(loads[n] < stores[n], stores[n], loads[n])
        lines = both if duplex == HALF else larger
        if n in membw:
            ctx.close(cycles * rate, lines * line * clock, 'cycles from bandwidth', name)
            rd, wr, threads, c = m.asked[n]
            ctx.check(ctx.all([rd == loads[n], wr == stores[n], threads == 1]),
                      'bandwidth for the streams of the level')
            ctx.check(c is None, 'saturated bandwidth')
        else:
            ctx.close(cycles * rate, lines * line, 'cycles from throughput', name)
        ctx.close(res[name], cycles, 'cycles by name')
    ctx.close(res['penalty'], penalties, 'penalty cycles')
    ctx.close(float(res['iterations per cacheline']) * esize * step, line,
              'iterations per cacheline')
    ctx.check(res['flops per iteration'] == flops, 'FLOPs per iteration')


def h_duplex(ctx):
    """other duplexness of caches is refused"""
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx, steps=(1,), types=('double',), flops=(1,))
    word = ctx.choice('word', ['simplex', '', 'half'])
    m = models.Machine({'cacheline size': PrefixedUnit(64.0, '', 'B'),
                        'clock': PrefixedUnit(1.0, '', 'Hz'),
                        'memory hierarchy': [
                            {'level': 'L1', 'upstream throughput': None},
                            {'level': 'L2', 'upstream throughput': [PrefixedUnit('64 B/cy'), word]}]})
    d = ecm.ECMData(k, m, cache_predictor=models.predictor([ctx.real('l0', 0, 9), 2], [0, 0]))
    try:
        d.analyze()
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused, 'duplexness refused')


def h_units(ctx, which):
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx)
    line = ctx.choice('line', [64, 128, 256])
    clock = ctx.real('clock', 10 ** 6, 10 ** 10)
    cy = ctx.real('cy', 0, 10 ** 4)
    m = models.Machine({'cacheline size': PrefixedUnit(float(line), '', 'B'),
                        'clock': PrefixedUnit(clock, '', 'Hz'), 'memory hierarchy': []})
    if which == 'data':
        model = ecm.ECMData(k, m, cache_predictor=models.predictor([], []))
    else:
        model = ecm.ECMCPU(k, m)
    given = PrefixedUnit(cy, '', 'cy/CL') if ctx.choice('quantity', [True, False]) else cy
    models.conversions(ctx, model.conv_cy(given), cy, clock, line / (esize * step), flops)


def cases(tier):
    quick = tier == 'quick'
    t = 150 if quick else 1000
    cs = []
    for levels, membw in [(2, [2]), (3, [3])] + ([] if quick else [(4, [4]), (4, [3, 4])]):
        for byargs in (True, False):
            cs.append(Case('cycles-%d-%s%s' % (levels, ''.join(map(str, membw)),
                                               '-args' if byargs else ''), h_cycles,
                           levels=levels, membw=membw, byargs=byargs, time=t,
                           bounds='%d levels, from bandwidth: %s' % (levels, membw)))
    cs.append(Case('cycles-1', h_cycles, levels=1, membw=[1], byargs=True, bounds='memory only'))
    cs.append(Case('cycles-no-bw', h_cycles, levels=2, membw=[], byargs=False,
                   bounds='memory has a throughput'))
    cs.append(Case('duplexness', h_duplex, bounds='words other than half- and full-duplex'))
    for w in ('data', 'cpu'):
        cs.append(Case('units-' + w, h_units, which=w, time=t,
                       bounds='increments 1, 2, 4, three types, 0 to 3 FLOPs'))
    return cs
