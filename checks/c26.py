"""C26: reports state the results of the models."""
import io
import re

import sympy

from symx import strings
from symx.runner import Case
from kerncraft.models import benchmark, ecm, layer_condition, roofline
from kerncraft.prefixedunit import PrefixedUnit
from checks import c12, c13, c14, models
from checks.util import mk_kernel

ASSUMPTIONS = ['the results are those decided by C07, C11 to C14 and C19',
               'numbers are printed rounded to the digits shown',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)']
UNITS = ['cy/CL', 'cy/It', 'It/s', 'FLOP/s']
PREFIX = {'': 1, 'k': 10 ** 3, 'M': 10 ** 6, 'G': 10 ** 9, 'T': 10 ** 12, 'P': 10 ** 15,
          'E': 10 ** 18, 'Z': 10 ** 21, 'Y': 10 ** 24, 'm': 1e-3, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12}
NUM = r'(?:-?[0-9]+(?:\.[0-9]*)?(?:e[+-]?[0-9]+)?|-?inf|nan|\ue000[^\ue001]*\ue001)'


def shown(ctx, text, want, scale=1, places=2, what='number', significant=None):
    """the number printed is the value expected"""
    text = text.strip()
    t = strings.TOKENS.get(text)
    if t is not None:
        ctx.close(t[0] * scale, want, what)
        return
    got = float(text)
    if got in (float('inf'), float('-inf')):
        ctx.check(float(want) == got, what, text)
        return
    tol = 0.51 * 10 ** -places
    if significant is not None:
        tol = abs(got) * 0.51 * 10 ** (1 - significant)
    d = got * scale - want
    slack = tol * scale + abs(got * scale) * 1e-6
    ctx.check(ctx.all([d <= slack, -d <= slack]), what, '%s shown' % text)


def quantity(ctx, text, unit, want, what):
    """value with prefix and unit"""
    m = re.fullmatch(r'\s*(%s) ([a-zA-Z]?)%s\s*' % (NUM, re.escape(unit)), text)
    ctx.check(m is not None and m.group(2) in PREFIX, what + ' in ' + unit, text)
    shown(ctx, m.group(1), want, PREFIX[m.group(2)], 2, what)


def text_of(ctx, model):
    """all that is reported goes to the file given"""
    import sys
    out, other = io.StringIO(), io.StringIO()
    old = sys.stdout
    sys.stdout = other
    try:
        model.report(output_file=out)
    finally:
        sys.stdout = old
    ctx.check(other.getvalue() == '', 'all is written to the file', other.getvalue())
    return out.getvalue().split('\n')


def line(ctx, lines, start):
    found = [l for l in lines if l.startswith(start)]
    ctx.check(len(found) == 1, 'line ' + start.strip(), '\n'.join(lines))
    return found[0][len(start):]


def speed(cy_cl, unit, clock, its, flops):
    """cycles per cacheline in unit"""
    if unit == 'cy/CL':
        return cy_cl
    if unit == 'cy/It':
        return cy_cl / its
    return clock * its / cy_cl * (flops if unit == 'FLOP/s' else 1)


# ------------------------------------------------------------------ ECM
def h_data(ctx):
    """cycles of every level, data transfers if verbose"""
    models.plain_units(ctx)
    k, esize, step, flops = models.kernel(ctx, steps=(1, 2), types=('double',), flops=(1,))
    unit = ctx.choice('unit', UNITS)
    verbose = ctx.choice('verbose', [0, 2])
    clock = ctx.real('clock', 10 ** 6, 10 ** 10)
    n = 3
    loads = [ctx.real('load%d' % i, 0.01, 100) for i in range(n)]
    stores = [ctx.real('store%d' % i, 0.01, 100) for i in range(n)]
    rate = [None] + [ctx.real('rate%d' % i, 0.1, 1000) for i in range(1, n)]
    penalty = ctx.choice('penalty', [0, 3])
    names = ['L1', 'L2', 'MEM']
    hierarchy = [{'level': l} for l in names]
    hierarchy[1]['upstream throughput'] = [PrefixedUnit(rate[1], '', 'B/cy'), 'half-duplex']
    hierarchy[2]['upstream throughput'] = [c11_membw, 'half-duplex']
    hierarchy[2]['penalty cycles per cacheline load'] = penalty
    m = models.Machine({'cacheline size': PrefixedUnit(64.0, '', 'B'),
                        'clock': PrefixedUnit(clock, '', 'Hz'), 'memory hierarchy': hierarchy},
                       {2: PrefixedUnit(rate[2] * clock, '', 'B/s')})
    ecm.CacheSimulationPredictor = models.predictor(loads, stores)
    model = ecm.ECMData(k, m, models.Args(unit=unit, verbose=verbose))
    model.analyze()
    lines = text_of(ctx, model)
    its = 64 / (esize * step)
    for i in (1, 2):
        cy = (loads[i] + stores[i]) * 64 / rate[i]
        quantity(ctx, line(ctx, lines, names[i] + ' = '), unit,
                 speed(cy, unit, clock, its, flops), 'cycles of ' + names[i])
    if penalty:
        t = line(ctx, lines, 'penalty cycles: ')
        ctx.check(t.endswith(' cy/CL'), 'unit')
        shown(ctx, t[:-len(' cy/CL')], 3 * loads[2], what='penalty cycles')
    else:
        ctx.check(not [l for l in lines if 'penalty' in l], 'no penalty')
    if verbose:
        for i in (1, 2):
            t = line(ctx, lines, '%7s | ' % (names[i - 1] + '-' + names[i])).split('|')
            for got, want, what in ((t[0], loads[i], 'loads'), (t[1], stores[i], 'stores')):
                ctx.check(got.strip().endswith(' B/CL'), 'unit')
                shown(ctx, got.replace('B/CL', ''), want * 64, places=0, what=what)
        t = line(ctx, lines, 'memory cycles based on bench2 kernel with ')
        quantity(ctx, t, 'B/s', rate[2] * clock, 'memory bandwidth')


c11_membw = 'full socket memory bandwidth'


def h_cpu(ctx):
    uops = ctx.real('uops', 0, 1000)
    k, esize, step, flops, elements, port, tp, calls, ol, nol, clock, size, data = c12.setup(
        ctx, uops)
    m = models.Machine(data)
    unit = ctx.choice('unit', UNITS)
    verbose = ctx.choice('verbose', [0, 2, 3])
    model = ecm.ECMCPU(k, m, models.Args(unit=unit, verbose=verbose))
    r = model.analyze()
    lines = text_of(ctx, model)
    for name in ('T_comp', 'T_RegL1'):
        t = line(ctx, lines, name + ' = ')
        ctx.check(t.endswith(' cy/CL'), 'unit')
        shown(ctx, t[:-len(' cy/CL')], r[name], places=1, what=name)
    ctx.check(('text' in lines) == (verbose > 2), 'output of the in-core model')
    if verbose > 1:
        per = size / (elements * esize)
        shown(ctx, line(ctx, lines, 'Detected pointer increment: '), r['pointer_increment'],
              what='increment')
        shown(ctx, line(ctx, lines, 'Derived elements stored to per asm block iteration: '),
              elements, what='elements')
        quantity(ctx, line(ctx, lines, 'Throughput: '), unit,
                 speed(tp * per, unit, clock, size / (esize * step), flops), 'throughput')
        shown(ctx, line(ctx, lines, 'Uops: '), uops * per, what='uops')


def h_ecm(ctx, levels):
    """composition, total, saturation and scaling"""
    cores = ctx.choice('cores', [1, 2])
    numa, socket = 2, ctx.choice('socket', [2, 4])
    overlap = [True] + [ctx.choice('overlap', [False, True])] + [False] * (levels - 1)
    e, comp, reg, tp, cy, hierarchy, clock, its, flops = c13.build(
        ctx, levels, overlap, numa, socket, cores, simple=levels == 1)
    unit = ctx.choice('unit', UNITS if levels == 1 else UNITS[1:3])
    e._args = models.Args(unit=unit, cores=cores)
    e.analyze()
    r = e.results
    e._CPU._args = e._data._args = e._args
    verbose = e.verbose = e._CPU.verbose = ctx.choice('verbose', [0, 2]) if levels == 2 else 0
    lines = text_of(ctx, e)
    if verbose:
        line(ctx, lines, 'T_comp = ')
        line(ctx, lines, 'T_RegL1 = ')
        line(ctx, lines, 'MEM = ')
    at = [n for n, l in enumerate(lines) if l.startswith('T_ECM = ')]
    ctx.check(len(at) == 1, 'model')
    names, values, total = lines[at[0]:at[0] + 3]
    form = r'\s*(?:T_ECM)?\s*= max\((.*), sum\((.*)\)\) cy/CL'
    a, b = re.fullmatch(form, names), re.fullmatch(form, values)
    ctx.check(a is not None and b is not None, 'composition', names + values)
    for part in (1, 2):
        want = r['ECM Model Construction'][:-1] if part == 1 else r['ECM Model Construction'][-1]
        cyc = r['ECM'][:-1] if part == 1 else r['ECM'][-1]
        ctx.check([x for x in a.group(part).split(', ') if x] == list(want), 'parts')
        got = [x for x in b.group(part).split(', ') if x]
        ctx.check(len(got) == len(cyc), 'cycles of all parts')
        for g, w in zip(got, cyc):
            shown(ctx, g, w, places=1, what='cycles of part')
    t = float(r['total cycles'][unit])
    total = total.strip()
    ctx.check(total.startswith('= '), 'total')
    single = ' (single core)'
    ctx.check(total.endswith(single) == (cores > 1), 'single core')
    if cores > 1:
        total = total[:-len(single)]
    quantity(ctx, total[2:], unit, t, 'total')
    s = re.fullmatch('(%s) cores' % NUM, line(ctx, lines, 'saturating at '))
    shown(ctx, s.group(1), r['scaling cores'], places=0, what='saturation')
    s = line(ctx, lines, 'prediction for %d cores, assuming static scheduling: ' % cores)
    quantity(ctx, s.split(' (')[0], unit, float(r['multi-core']['performance'][unit]),
             'performance of all cores')
    row = line(ctx, lines, 'cores ').split('||')[1].split('|')
    ctx.check([int(x) for x in row] == list(range(1, socket + 1)), 'numbers of cores')
    row = line(ctx, lines, 'perf. (%s) || ' % unit).split('|')
    ctx.check(len(row) == socket, 'performance of all numbers of cores')
    for x, p in zip(row, r['scaling prediction']):
        shown(ctx, x, float(p['performance'][unit]), places=1, what='performance')
    ctx.check(bool([l for l in lines if l.startswith('1st NUMA dom.')]) == (socket > numa),
              'NUMA domain')


# ------------------------------------------------------------------ Roofline
def h_roofline(ctx, asm):
    k, m, P, loads, stores, cores, clock, bw, peak, (esize, step, flops, elements) = \
        c14.build(ctx, ['triad'] if asm else ['triad', 'step'], 2)
    unit = ctx.choice('unit', UNITS)
    verbose = ctx.choice('verbose', [0, 1])
    args = models.Args(cores=cores, unit=unit, verbose=verbose)
    roofline.CacheSimulationPredictor = P
    if asm:
        tp = ctx.real('throughput', 0.01, 400)
        k.incore_analysis = lambda **kw: (
            {'throughput': tp, 'port cycles': {}, 'output': '', 'uops': 1}, 64)
        model = roofline.RooflineASM(k, m, args)
    else:
        model = roofline.RooflineFLOP(k, m, args)
    model.analyze()
    r = model.results
    lines = text_of(ctx, model)
    top = r['cpu bottleneck']['performance throughput'] if asm else r['max_perf']
    bounds = [l for l in lines if l.startswith('CPU bound.')]
    mem = [l for l in lines if l.startswith('Cache or mem bound.')]
    ctx.check(len(bounds) + len(mem) == 1, 'kind of bottleneck')
    if bounds:
        value, why = bounds[0][len('CPU bound. '):].split(' due to ')
        ctx.check(why == ('CPU bottleneck' if asm else 'CPU max. FLOP/s'), 'cause')
        quantity(ctx, value, unit, float(top[unit]), 'performance')
    else:
        found = [l for l in lines if ' transfer bottleneck ' in l]
        ctx.check(len(found) == 1, 'bottleneck')
        value, why = found[0].split(' due to ')
        n = r['bottleneck level']
        b = r['mem bottlenecks'][n]
        ctx.check(why == '%s transfer bottleneck (with bw from bench%d benchmark)' % (
            ['L1', 'L2', 'MEM'][n], n),
                  'cause', why)
        quantity(ctx, value, unit, float(r['min performance'][unit]), 'performance')
        t = line(ctx, lines, 'Arithmetic Intensity: ')
        ctx.check(t.endswith(' It/B'), 'unit')
        shown(ctx, t[:-len(' It/B')], b['arithmetic intensity'], what='intensity')
    rows = [l.split('|') for l in lines if l.count('|') == 4 and 'a. intensity' not in l]
    if not verbose:
        ctx.check(not rows, 'no table')
        return
    ctx.check([x[0].strip() for x in rows] == ['CPU'] + ['L1', 'L2', 'MEM'][bool(asm):],
              'rows', '\n'.join(lines))
    quantity(ctx, rows[0][2], unit, float(top[unit]), 'performance of the CPU')
    for x, (n, b) in zip(rows[1:], list(enumerate(r['mem bottlenecks']))[bool(asm):]):
        quantity(ctx, x[2], unit, float(b['performance'][unit]), 'performance of a level')
        quantity(ctx, x[3], 'B/s', float(bw[n]), 'bandwidth')
        ctx.check(x[4].strip() == 'bench%d' % n, 'benchmark')
        ctx.check(x[1].strip().endswith(' It/B'), 'unit')
        shown(ctx, x[1].replace('It/B', ''), b['arithmetic intensity'], significant=2,
              what='intensity of a level')


# ------------------------------------------------------------------ others
class Level:
    def __init__(self, name, size):
        self.name, self.bytes = name, size

    def size(self):
        return self.bytes


def h_lc(ctx):
    """conditions of every cache"""
    sizes = [ctx.int('size%d' % n, 1024, 10 ** 8) for n in range(2)]
    counts = [[(ctx.int('misses%d%d' % (n, i), 0, 100), ctx.int('hits%d%d' % (n, i), 0, 100))
               for i in range(2)] for n in range(2)]
    N = sympy.Symbol('N', positive=True, integer=True)
    conditions = [[sympy.Le(N, 1000 + n), True] for n in range(2)]
    cores = ctx.choice('cores', [1, 3])
    asked = []

    class Sim:
        def levels(self, with_mem=True):
            asked.append(with_mem)
            return iter([Level('L%d' % (n + 1), s) for n, s in enumerate(sizes)])

    class M(dict):
        def get_cachesim(self, c=1):
            asked.append(c)
            return Sim()

    class P:
        def __init__(self, kernel, machine, cores=1, symbolic=False):
            self.results = {'cache': [
                [{'condition': c, 'misses': a, 'hits': b} for c, (a, b) in zip(cs, v)]
                for cs, v in zip(conditions, counts)], 'dimensions': {}}
    layer_condition.LayerConditionPredictor = P
    model = layer_condition.LC(None, M(), models.Args(cores=cores))
    model.analyze()
    lines = [l for l in text_of(ctx, model) if l]
    ctx.check(asked[0] == cores, 'caches of the cores asked for')
    ctx.check(len(lines) == 8, 'lines', '\n'.join(lines))
    for n in range(2):
        part = lines[4 * n:4 * n + 4]
        h = re.fullmatch(r'Layer conditions for L%d cache with (%s) KB:' % (n + 1, NUM), part[0])
        ctx.check(h is not None, 'cache', part[0])
        kb = strings.TOKENS[h.group(1)][0] if h.group(1) in strings.TOKENS else int(h.group(1))
        ctx.check(ctx.all([kb * 1024 <= sizes[n], sizes[n] < (kb + 1) * 1024]), 'size')
        for i in range(2):
            t = part[2 + i].split()
            ctx.check(' '.join(t[:-2]) == repr(conditions[n][i]), 'condition', part[2 + i])
            shown(ctx, t[-2], counts[n][i][0], what='misses')
            shown(ctx, t[-1], counts[n][i][1], what='hits')


def h_benchmark(ctx):
    verbose = ctx.choice('verbose', [0, 1])
    pheno = ctx.choice('phenoecm', [True, False])

    def num(name, lo=0.01):
        return ctx.real(name, lo, 10 ** 6)
    k = mk_kernel('double a[100], b[100];\nfor(int i=0; i<100; ++i)\n  a[i] = b[i];\n')
    m = models.Machine({'overlapping model': {'performance counter metric': 'A:PMC0'},
                        'non-overlapping model': {'performance counter metric': 'A:PMC0'}})
    m.current_system = lambda print_diff=False: True
    b = benchmark.Benchmark(k, m, no_phenoecm=not pheno, verbose=verbose)
    moves = {'L1': {'loads': num('l1l'), 'stores': num('l1s')},
             'L2': {'loads': num('l2l'), 'misses': num('l2m'), 'stores': num('l2s'),
                    'evicts': num('l2e')}}
    parts = {n: num(n) for n in ('T_OL', 'T_nOL', 'T_L1L2', 'T_L2L3', 'T_MEM')}
    r = b.results = {
        'Runtime (per repetition) [s]': num('runtime'), 'Iterations per repetition': 1234,
        'Iterations per cacheline': 8.0, 'Runtime (per cacheline update) [cy/CL]': num('cy'),
        'MEM volume (per repetition) [B]': num('volume', 1),
        'Performance [MFLOP/s]': num('flops'), 'Performance [MLUP/s]': num('lups'),
        'Performance [MIt/s]': num('its'), 'MEM BW [MByte/s]': num('bw'),
        'ECM': parts if pheno else None, 'data transfers': moves if pheno else None}
    lines = text_of(ctx, b)

    def entry(start, unit, key, **kw):
        t = [l[len(start):] for l in lines if l.startswith(start) and l.endswith(' ' + unit)]
        ctx.check(len(t) == 1, 'line ' + start + unit)
        shown(ctx, t[0][:-len(unit)], r[key], what=key, **kw)
    entry('Runtime (per cacheline update): ', 'cy/CL', 'Runtime (per cacheline update) [cy/CL]')
    entry('MEM volume (per repetition): ', 'Byte', 'MEM volume (per repetition) [B]', places=0)
    for u in ('MFLOP/s', 'MLUP/s', 'MIt/s'):
        entry('Performance: ', u, 'Performance [%s]' % u)
    if verbose:
        entry('Runtime (per repetition): ', 's', 'Runtime (per repetition) [s]', significant=2)
        entry('MEM bandwidth: ', 'MByte/s', 'MEM BW [MByte/s]')
        ctx.check(line(ctx, lines, 'Iterations per repetition: ') == '1234', 'iterations')
    text = '\n'.join(lines)
    if not pheno:
        ctx.check('ECM' not in text and 'Data Transfers' not in text, 'no ECM model')
        return
    head = [l for l in lines if l.strip().startswith('cache ')]
    ctx.check(len(head) == 1, 'table')
    names = head[0].split('|')[1].split()
    ctx.check(sorted(names) == ['evicts', 'loads', 'misses', 'stores'], 'columns')
    for level, d in moves.items():
        rows = [l.split('|')[1].split() for l in lines if l.strip().startswith(level + ' ')]
        ctx.check(len(rows) == 1 and len(rows[0]) == 4, 'row')
        for n, x in zip(names, rows[0]):
            if n in d:
                shown(ctx, x, d[n], places=6, what='transfers')
            else:
                ctx.check(x == '-', 'no counter')
    t = line(ctx, lines, 'Phenomenological ECM model: { ')
    ctx.check(t.endswith(' } cy/CL'), 'unit')
    got = re.split(r' \|\|? ', t[:-len(' } cy/CL')])
    ctx.check(len(got) == 5 and ' || ' in t and t.index(' || ') < t.index(' | '), 'parts')
    for x, (n, v) in zip(got, parts.items()):
        shown(ctx, x, v, places=1, what=n)


def cases(tier):
    q = tier == 'quick'
    t = 300 if q else 1500
    res = [Case('ECMData', h_data, 'any transfers and bandwidths, 3 levels', time=t),
           Case('ECMCPU', h_cpu, 'blocks of 1 to 64 elements, 4 ports', time=t),
           Case('ECM-1', h_ecm, 'one level below L1, 2 or 4 cores', time=t, levels=1),
           Case('RooflineFLOP', h_roofline, 'any transfers and bandwidths, 3 levels', time=t,
                asm=False),
           Case('RooflineASM', h_roofline, 'any transfers and bandwidths, 3 levels', time=t,
                asm=True),
           Case('LC', h_lc, 'any sizes, misses and hits of 2 caches', time=t),
           Case('benchmark', h_benchmark, 'any results', time=t)]
    res.insert(3, Case('ECM-2', h_ecm, 'two levels below L1, 2 or 4 cores', time=t, levels=2))
    return res
