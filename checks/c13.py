"""C13: composition of the ECM model and its multi-core scaling."""
from symx.runner import Case
from kerncraft.models import ecm
from kerncraft.prefixedunit import PrefixedUnit
from checks import models

ASSUMPTIONS = ['floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)',
               'in-core analysis and cache prediction are arbitrary results']


def build(ctx, levels, overlap, numa, socket, cores, penalty=True, simple=False):
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx, steps=(1,) if simple else (2,),
                                          types=('double',), flops=(3,))
    comp = ctx.real('comp', 0, 1000)
    reg = 0.0 if simple else ctx.real('reg', 0, 1000)
    tp = comp if simple else ctx.real('throughput', 0, 1000)

    def incore(**kw):
        return {'throughput': tp, 'port cycles': {'0': comp, '2D': reg}, 'output': '',
                'uops': None}, 64
    k.incore_analysis = incore
    cy = [0.0] + [0.0 if simple and n < levels else ctx.real('cycles%d' % n, 0, 1000)
                  for n in range(1, levels + 1)]
    hierarchy = [{'level': 'L1', 'transfers overlap': overlap[0]}]
    for n in range(1, levels + 1):
        hierarchy.append({'level': 'MEM' if n == levels else 'L%d' % (n + 1),
                          'transfers overlap': overlap[n],
                          'upstream throughput': [PrefixedUnit(64.0, '', 'B/cy'), 'half-duplex']})
    if penalty:
        # memory is given by its bandwidth, with penalty cycles
        hierarchy[-1]['upstream throughput'] = ['full socket memory bandwidth', 'half-duplex']
        hierarchy[-1]['penalty cycles per cacheline load'] = ctx.real('penalty', 0, 10)
    clock = 1.0 if simple else ctx.real('clock', 1, 10 ** 10)
    m = models.Machine({'cacheline size': PrefixedUnit(64.0, '', 'B'),
                        'clock': PrefixedUnit(clock, '', 'Hz'),
                        'in-core model': {'A': ''}, 'cores per NUMA domain': numa,
                        'cores per socket': socket, 'sockets': 1,
                        'overlapping model': {'ports': {'A': ['0']}},
                        'non-overlapping model': {'ports': {'A': ['2D']}},
                        'memory hierarchy': hierarchy},
                       {levels: PrefixedUnit(64 * clock, '', 'B/s')})
    P = models.predictor(cy, [0.0] * (levels + 1))
    if not simple and ctx.choice('args', [True, False]):
        ecm.CacheSimulationPredictor = P
        e = ecm.ECM(k, m, models.Args(cores=cores))
    else:
        e = ecm.ECM(k, m, cores=cores, cache_predictor=P)
    return e, comp, reg, tp, cy, hierarchy, clock, 8 // (2 if not simple else 1), flops


def h_compose(ctx, levels):
    overlap = [ctx.choice('overlap%d' % n, [False, True]) for n in range(levels + 1)]
    penalty = ctx.choice('membw', [True, False])
    e, comp, reg, tp, cy, hierarchy, clock, its, flops = build(
        ctx, levels, overlap, 1, 1, 1, penalty)
    accepted = all(a or not b for a, b in zip(overlap, overlap[1:]))
    try:
        e.analyze()
    except ValueError:
        ctx.check(not accepted, 'model refused')
        return
    ctx.check(accepted, 'overlap that begins after transfers that do not')
    r = e.results
    names = ['T_RegL1'] + ['T_' + a['level'] + b['level'] for a, b in
                           zip(hierarchy, hierarchy[1:])]
    times = [reg] + cy[1:]
    pen = cy[levels] * hierarchy[-1]['penalty cycles per cacheline load'] if penalty else 0
    t_comp = ctx.ite(tp > reg, tp, comp)
    ctx.check(r['ECM Model Construction'][0] == 'T_comp', 'computation overlaps')
    ol = [n for n, o in zip(names, overlap) if o]
    nol = [n for n, o in zip(names, overlap) if not o]
    got_nol = list(r['ECM Model Construction'][-1])
    ctx.check(list(r['ECM Model Construction'][1:-1]) == ol, 'overlapping parts')
    ctx.check([n for n in got_nol if n != 'T_penalty'] == nol, 'other parts')
    if penalty:
        ctx.check(ctx.any(['T_penalty' in got_nol, pen == 0]), 'penalty')
    else:
        ctx.check('T_penalty' not in got_nol, 'penalty')
    value = dict(zip(names, times), T_comp=t_comp, T_penalty=pen)
    for n, v in list(zip(r['ECM Model Construction'][:-1], r['ECM'][:-1])) + \
            list(zip(got_nol, r['ECM'][-1])):
        ctx.close(v, value[n], 'cycles of ' + n)
    ctx.check(len(r['ECM']) == len(r['ECM Model Construction']) and
              len(r['ECM'][-1]) == len(got_nol), 'values of all parts')
    total = pen
    for t, o in zip(times, overlap):
        total = total if o else total + t
    for t in [t_comp] + [t for t, o in zip(times, overlap) if o]:
        total = ctx.ite(t > total, t, total)
    models.conversions(ctx, r['total cycles'], total, clock, its, flops, 'total ')


def h_scaling(ctx, levels, numa, socket):
    cores = ctx.choice('cores', [1, socket])
    overlap = [True] * (levels + 1)
    e, comp, reg, tp, cy, hierarchy, clock, its, flops = build(
        ctx, levels, overlap, numa, socket, cores, False, simple=True)
    e.analyze()
    r = e.results
    mem, total = cy[levels], ctx.ite(comp > cy[levels], comp, cy[levels])
    pred = r['scaling prediction']
    ctx.check([s['cores'] for s in pred] == list(range(1, socket + 1)), 'numbers of cores')
    ctx.check(r['multi-core']['cores'] == cores, 'prediction for the cores asked for')
    if ctx.fork(mem == 0):
        ctx.check(r['scaling cores'] == float('inf'), 'never saturates')
        for c, s in enumerate(pred, 1):
            ctx.close(float(s['performance']['cy/CL']) * c, total, 'perfect scaling')
        return
    # utilization of the memory interface
    u, saturated = [], None
    for c in range(1, numa + 1):
        queue = total + (u[-1] * (c - 1) * mem / 2 if u else 0)
        if ctx.fork(c * mem > queue):
            u.append(1)
            saturated = saturated or c
        else:
            u.append(c * mem / queue)
    ctx.check(r['scaling cores'] == (saturated or float('inf')), 'cores that saturate')
    last = None
    for c, s in enumerate(pred, 1):
        got = float(s['performance']['cy/CL'])
        if c <= numa:
            ctx.close(got * u[c - 1], mem, 'cycles within a NUMA domain', rel=1e-5)
            # no faster than the memory, nor than c cores without interference
            ctx.check(ctx.all([got * 1.00001 >= mem, got * c * 1.00001 >= total]), 'limits')
            if saturated and c >= saturated:
                ctx.close(got, mem, 'saturated')
        else:
            ctx.close(got * u[numa - 1] * c, mem * numa, 'cycles of several NUMA domains',
                      rel=1e-5)
        ctx.close(float(s['performance']['It/s']) * got, its, 'iterations per second')
        if last is not None:
            ctx.check(got <= last * 1.00001, 'more cores are not slower')
        last = got
    ctx.close(float(pred[0]['performance']['cy/CL']), total, 'single core')


def cases(tier):
    quick = tier == 'quick'
    t = 200 if quick else 1500
    cs = [Case('compose-%d' % n, h_compose, levels=n, time=t, bounds='%d levels below L1' % n)
          for n in ((1, 2, 3) if quick else (1, 2, 3, 4))]
    cs += [Case('scaling-%d-%d' % (n, s), h_scaling, levels=2, numa=n, socket=s, time=t,
                bounds='%d cores per NUMA domain, %d per socket' % (n, s))
           for n, s in ([(1, 2), (2, 4), (3, 3)] if quick else [(1, 4), (2, 6), (3, 6), (4, 4)])]
    return cs
