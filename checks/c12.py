"""C12: in-core cycles of the ECM and Roofline models."""
from symx.runner import Case
from kerncraft.models import ecm, roofline
from kerncraft.prefixedunit import PrefixedUnit
from checks import models

ASSUMPTIONS = ['floats are exact reals',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)',
               'the in-core analysis is an arbitrary result',
               'pointer increments are multiples of the element size']

PORTS = ['0', '1', '2D', '3D']


def setup(ctx, uops, ports=True):
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx, steps=(1, 2) if uops is None else (2,),
                                          types=('double', 'float') if ports else ('double',),
                                          flops=(0, 3) if uops is None else (1,))
    elements = ctx.int('elements', 1, 64)
    sign = ctx.choice('sign', [1, -1])
    port = {p: ctx.real('port' + p, 0, 100) for p in PORTS}
    tp = ctx.real('throughput', 0, 400, lo_open=True)
    calls = []

    def incore(asm_block='auto', pointer_increment='auto', model=None, verbose=False, **kw):
        calls.append((asm_block, pointer_increment, model))
        return {'throughput': tp, 'port cycles': dict(port), 'output': 'text',
                'uops': uops}, elements * esize * sign
    k.incore_analysis = incore
    ol, nol = {'A': ['0', '9'], 'B': ['2D']}, {'A': ['2D', '3D'], 'B': ['0', '1', '3D']}
    if ports:
        ol['A'], nol['A'] = ctx.choice('ports', [(['0', '1'], ['2D', '3D']), (['3D'], []),
                                                 ([], ['0', '1', '2D'])])
    clock = ctx.real('clock', 10 ** 6, 10 ** 10)
    line = ctx.choice('line', [64, 128]) if ports else 64
    data = {'cacheline size': PrefixedUnit(float(line), '', 'B'),
            'clock': PrefixedUnit(clock, '', 'Hz'),
            'in-core model': {'A': '', 'B': ''},
            'overlapping model': {'ports': ol}, 'non-overlapping model': {'ports': nol},
            'memory hierarchy': [{'level': 'L1'}, {'level': 'MEM'}]}
    return k, esize, step, flops, elements, port, tp, calls, ol, nol, clock, line, data


def largest(ctx, xs):
    r = 0
    for x in xs:
        r = ctx.ite(x > r, x, r)
    return r


def h_ecm(ctx, has_uops):
    uops = ctx.real('uops', 0, 1000) if has_uops else None
    k, esize, step, flops, elements, port, tp, calls, ol, nol, clock, line, data = setup(ctx, uops)
    m = models.Machine(data)
    way = ctx.choice('way', ['plain', 'plain numbers', 'args', 'numbers'])
    name = 'A'
    if way == 'plain':
        c = ecm.ECMCPU(k, m, asm_block='manual', pointer_increment='auto_with_manual_fallback')
        want = ('manual', 'auto_with_manual_fallback', None)
    elif way == 'plain numbers':
        inc = ctx.choice('increment', [-16, 8])
        c = ecm.ECMCPU(k, m, asm_block=1, pointer_increment=inc)
        want = (1, inc, None)
    elif way == 'args':
        name = ctx.choice('model', ['A', 'B'])
        c = ecm.ECMCPU(k, m, models.Args(incore_model=name, pointer_increment='manual'))
        want = ('auto', 'manual', name)
    else:
        c = ecm.ECMCPU(k, m, models.Args(asm_block='2', pointer_increment='32'))
        want = (2, 32, None)
    res = c.analyze()
    ctx.check(calls == [want], 'analysis asked for', str(calls))
    per = line / (elements * esize)
    for p in PORTS:
        ctx.close(res['port cycles'][p], port[p] * per, 'port cycles per cacheline')
    ctx.check(sorted(res['port cycles']) == sorted(PORTS), 'ports')
    if has_uops:
        ctx.close(res['uops'], uops * per, 'uops per cacheline')
    else:
        ctx.check(res['uops'] is None, 'no uops')
    t_reg = largest(ctx, [port[p] * per for p in PORTS if p in nol[name]])
    t_ol = largest(ctx, [port[p] * per for p in PORTS if p in ol[name]])
    cl = tp * per
    ctx.close(res['T_RegL1'], t_reg, 'non-overlapping cycles')
    ctx.close(res['T_comp'], ctx.ite(cl > t_reg, cl, t_ol), 'overlapping cycles')
    models.conversions(ctx, res['cl throughput'], cl, clock, line / (esize * step), flops,
                       'throughput ')
    ctx.check(res['flops per iteration'] == flops, 'FLOPs per iteration')
    ctx.check(abs(res['pointer_increment']) == elements * esize, 'pointer increment')
    ctx.check(res['elements_per_block'] == elements, 'elements per block')


def h_roofline(ctx, has_uops):
    uops = ctx.real('uops', 0, 1000) if has_uops else None
    k, esize, step, flops, elements, port, tp, calls, ol, nol, clock, line, data = setup(
        ctx, uops, ports=False)
    bw = ctx.real('bw', 1, 10 ** 12)
    m = models.Machine(data, {0: PrefixedUnit(1.0, '', 'B/s'), 1: PrefixedUnit(bw, '', 'B/s')})
    cores = ctx.choice('cores', [1, 2, 7])
    loads, stores = [1.0, ctx.real('loads', 0, 10)], [1.0, ctx.real('stores', 0, 10)]
    P = models.predictor(loads, stores)
    if ctx.choice('args', [True, False]):
        roofline.LayerConditionPredictor = P
        r = roofline.RooflineASM(k, m, models.Args(cores=cores, cache_predictor='LC',
                                                   asm_block='1', incore_model='B'))
        want = (1, 'auto', 'B')
    else:
        block, inc = ctx.choice('block', [('auto', 'manual'), (2, -32)])
        r = roofline.RooflineASM(k, m, asm_block=block, pointer_increment=inc, cores=cores,
                                 predictor=P)
        want = (block, inc, None)
    r.analyze()
    ctx.check(calls == [want], 'analysis asked for', str(calls))
    cpu = r.results['cpu bottleneck']
    per = line / (elements * esize)
    for p in PORTS:
        ctx.close(cpu['port cycles'][p], port[p] * per, 'port cycles per cacheline')
    if has_uops:
        ctx.close(cpu['uops'], uops * per, 'uops per cacheline')
    else:
        ctx.check(cpu['uops'] is None, 'no uops')
    ctx.close(cpu['cl throughput'], tp * per, 'throughput per cacheline')
    # all cores together
    models.conversions(ctx, cpu['performance throughput'], tp * per / cores, clock,
                       line / (esize * step), flops, 'cpu ')
    # the slowest memory level, L1 is part of the in-core model
    b = r.results['mem bottlenecks']
    ctx.check(b[0] is None and len(b) == 2, 'levels')
    total = loads[1] + stores[1]
    low = r.results['min performance']['It/s']
    if ctx.fork(total == 0):
        ctx.check(float(low) == float('inf'), 'no transfers, no limit')
    else:
        ctx.check(r.results['bottleneck level'] == 1, 'bottleneck')
        ctx.close(float(low) * total * line, bw * line / (esize * step), 'memory performance')


def cases(tier):
    t = 300 if tier == 'quick' else 1500
    return [Case('%s%s' % (n, '-uops' if u else ''), f, has_uops=u, time=t,
                 bounds='blocks of 1 to 64 elements, 4 ports')
            for n, f in (('ecm', h_ecm), ('roofline', h_roofline)) for u in (True, False)]
