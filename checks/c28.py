"""C28: kc-pheno measures existing binaries as described and derives metrics of their regions."""
import argparse
import io
import os
import re
from collections import OrderedDict

import sympy
from sympy.core.sympify import converter as sympy_converter

from symx.runner import Case
from kerncraft import standalone_pheno
from kerncraft.kernel import BinaryDescription
from kerncraft.models import standalone_benchmark, benchmark
from kerncraft.prefixedunit import PrefixedUnit
from checks import models
from checks.c19 import METRICS, Bytes, evaluate

ASSUMPTIONS = ['floats are exact reals',
               'likwid-perfctr counts what it is asked for, prints the clock and all regions, and '
               'measurements with the same arguments take long enough alike',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)']


# ------------------------------------------------------------------------------ arguments
def parse(action, dest, values, namespace):
    a = getattr(standalone_pheno, action)(option_strings=['--x'], dest=dest)
    try:
        a(None, namespace, values, '--x')
    except argparse.ArgumentError:
        return False
    return True


REGIONS = {'': [''], 'a:': ['a'], 'a,b:': ['a', 'b'], 'tri_1:': ['tri_1']}
NUMBERS = {'5': 5, '0': 0, '1000': 1000, '.5': 0.5, '2.25': 2.25, '1e3': 1e3, '4E-1': 0.4,
           '1.': None, 'x': None, '': None, '-3': None, '1e': None}


def h_define(ctx):
    """-D NAME [regions:]start[:stop[:scale]]"""
    region = ctx.choice('region', sorted(REGIONS))
    start = ctx.choice('start', sorted(NUMBERS))
    stop = ctx.choice('stop', [None] + sorted(NUMBERS))
    scale = ctx.choice('scale', [None, 'lin', 'log', 'li', 'linx', '']) if stop else None
    before = ctx.choice('before', [False, True])
    text = region + ':'.join(x for x in (start, stop, scale) if x is not None)
    # this is another region
    ctx.assume(stop is None or start[:1] in list('0123456789.'))
    ns = argparse.Namespace()
    if before:
        ns.define = OrderedDict(first={'value': 1})
    ok = parse('AppendStringRange', 'define', ['N', text], ns)
    good = NUMBERS[start] is not None and (stop is None or NUMBERS[stop] is not None) and \
        scale in (None, 'lin', 'log')
    ctx.check(ok == good, 'malformed definitions are rejected', text)
    if not good or not ok:
        return
    ctx.check(list(ns.define) == ['first', 'N'][not before:], 'definitions in order')
    d = ns.define['N']
    v = NUMBERS[start]
    ctx.check(d['region'] == REGIONS[region], 'regions of a definition', repr(d))
    ctx.check(d['value'] == v and str(d['value']) == str(v), 'value', repr(d))
    ctx.check(d['adjustable'] == (stop is not None), 'adjustable', repr(d))
    if stop is not None:
        ctx.check(d['stop'] == NUMBERS[stop], 'last value', repr(d))
        ctx.check(d['scale'] == (scale or ('lin' if NUMBERS[stop] > v else 'log')), 'scale',
                  repr(d))


def numeric(t):
    return re.fullmatch('[0-9]+', t) is not None


def h_text(ctx, action, length, alphabet):
    """any text: accepted exactly if it is of the form documented"""
    text = ctx.str('text', length, alphabet)
    ns = argparse.Namespace(x={})
    values = ['N', text] if action == 'AppendStringRange' else text
    ok = parse(action, 'x', values, ns)
    t = ctx.concretize(text) if hasattr(ctx, 'concretize') else str(text)
    parts = t.split(':')
    regions = ['']
    if parts[0][:1] == '.' and len(parts) > 1:
        return
    if len(parts) > 1 and parts[0][:1] != '' and not parts[0][0].isdigit() and \
            parts[0][0] != '.' and action != 'never':
        regions = parts[0].split(',')
        if not all(r and not r[0].isdigit() and re.fullmatch(r'\w+', r) for r in regions):
            return      # names of regions are not specified further
        parts = parts[1:]
    if any(p[:1] == '' for p in parts[:-1]):
        return
    if action == 'AppendFlops':
        good = len(parts) == 1 and numeric(parts[0])
        want = {r: int(parts[0]) for r in regions} if good else None
        good = good and len(set(regions)) == len(regions)
    elif action == 'AppendRepetitionDefines':
        good = len(parts) == 1 and re.fullmatch(r'\w+', parts[0]) is not None
        want = {r: parts[0] for r in regions} if good else None
    else:
        variable = None
        if len(parts) > 2 and parts[-1] and not parts[-1][0].isdigit():
            variable = parts.pop()
        good = len(parts) in (2, 3) and all(numeric(p) for p in parts) and \
            (len(parts) == 2 or int(parts[1]) > 0)
        want = None
        if good:
            n = [int(p) for p in parts]
            want = (n[0], n[-1], 1 if len(n) == 2 else n[1], variable)
    ctx.check(ok == good, 'malformed arguments are rejected', t)
    if not ok or not good:
        return
    if action == 'AppendLoopRange':
        ctx.check(set(ns.x) == set(regions), 'regions of a loop')
        for r in set(regions):
            ctx.check(len(ns.x[r]) == regions.count(r), 'loops')
            for l in ns.x[r]:
                ctx.check((l['start'], l['end'], l['step'], l['variable']) == want, 'loop', repr(l))
    else:
        ctx.check(ns.x == want, 'value for regions', repr(ns.x))


def h_command(ctx):
    """the command line as a whole"""
    argv = ['-m', os.devnull]
    names = ['N', 'M', 'zz']
    count = ctx.choice('definitions', [0, 1, 3])
    for n in range(count):
        argv += ['-D', names[n], str(10 ** (n + 1))]
    loops = ctx.choice('loops', [['0:100'], ['0:10', '1:2:20:N'], ['a:0:10', 'a,b:5:7', '1:9']])
    for l in loops:
        argv += ['-L', l]
    flops = ctx.choice('flops', [['3'], ['a:1', 'b:2'], ['a:1', 'a:2'], []])
    for f in flops:
        argv += ['--flops', f]
    marker = ctx.choice('marker', [None, [], ['a'], ['a,b']])
    if marker is not None:
        argv += ['--marker'] + marker
    reps = ctx.choice('repetitions', [[], ['5'], ['a:N', 'b:marker']])
    for r in reps:
        argv += ['-R', r]
    datatype = ctx.choice('datatype', [None, 'float'])
    if datatype:
        argv += ['--datatype', datatype]
    cores = ctx.choice('cores', [None, '4'])
    if cores:
        argv += ['-c', cores]
    argv += ['--', './binary']
    parser = standalone_pheno.create_parser()
    err = io.StringIO()
    import sys
    old = sys.stderr
    sys.stderr = err
    try:
        try:
            args = parser.parse_args(argv)
        except SystemExit as e:
            ctx.check(e.code == 2 and (flops == [] or flops == ['a:1', 'a:2']),
                      'command line is accepted', repr(argv))
            return
    finally:
        sys.stderr = old
    ctx.check(flops not in ([], ['a:1', 'a:2']), 'flops are given once per region')
    ctx.check([(k, v['value']) for k, v in args.define.items()] ==
              [(n, 10 ** (i + 1)) for i, n in enumerate(names[:count])], 'definitions')
    got = {r: [(l['start'], l['end'], l['step'], l['variable']) for l in ls]
           for r, ls in args.loop.items()}
    want = {'0:100': {'': [(0, 100, 1, None)]},
            '0:10': {'': [(0, 10, 1, None), (1, 20, 2, 'N')]},
            'a:0:10': {'a': [(0, 10, 1, None), (5, 7, 1, None)], 'b': [(5, 7, 1, None)],
                       '': [(1, 9, 1, None)]}}[loops[0]]
    ctx.check(got == want, 'loops, outermost first', repr(got))
    ctx.check(args.flops == ({'': 3} if flops == ['3'] else {'a': 1, 'b': 2}), 'flops')
    ctx.check(args.marker == {'use_marker': marker is not None,
                              'region': [''] if marker is None else
                              marker[0].split(',') if marker else []}, 'markers')
    r = dict(args.repetitions)
    if reps == ['5']:
        ctx.check(r == {'': '5'}, 'repetitions')
    elif reps:
        r.pop('', None)
        ctx.check(r == {'a': 'N', 'b': 'marker'}, 'repetitions')
    else:
        ctx.check(r == {'': '1'}, 'once by default')
    ctx.check(args.datatype == (datatype or 'double'), 'type')
    ctx.check(args.cores == int(cores or 1), 'cores')
    ctx.check(args.binary == './binary', 'binary')


# ------------------------------------------------------------------------------ description
class Args:
    verbose, cores, no_phenoecm, ignore_warnings = 0, 1, True, False
    binary, datatype = '/x/bin', 'double'

    def __init__(self, **k):
        self.__dict__.update(k)


def h_iterations(ctx, depth):
    """loops count as they run"""
    loops, want = [], 1
    for n in range(depth):
        start, end = ctx.int('start%d' % n, 0, 50), ctx.int('end%d' % n, 0, 200)
        step = ctx.int('step%d' % n, 1, 16) if n == depth - 1 else ctx.choice('s%d' % n, [1, 3])
        loops.append({'start': start, 'end': end, 'step': step, 'variable': None, 'offset': None})
        want = want * ctx.ite(end > start, -((start - end) // step), 0)
    t = ctx.choice('type', ['double', 'float'])
    default = ctx.choice('default', [False, True])
    args = Args(loop={'' if default else 'a': loops}, define=OrderedDict(), datatype=t,
                marker={'use_marker': True, 'region': ['a']}, repetitions={'': '1'},
                flops={'': 2})
    b = BinaryDescription(args=args, machine=None)
    ctx.check(b.region__iterations_per_repetition('a') == want, 'iterations')
    ctx.check(b.region__bytes_per_iteration('a') == loops[-1]['step'] * (8 if t == 'double' else 4),
              'bytes per iteration')


# ------------------------------------------------------------------------------ measurement
GROUPS = '\n'.join(['Group name\tDescription', '-' * 20, '     L2\tL2 data volume',
                    '     MEM\tMemory bandwidth', '  FLOPS_DP\tflops', ''])


class Likwid:
    shortest = 0

    def __init__(self, ctx, names, limit, counters, setup):
        self.ctx, self.names, self.limit, self.counters = ctx, names, limit, counters
        self.calls, self.runtimes, self.counts, self.values, self.env = [], [], [], {}, []
        self.volumes, self.bws = [], []
        self.bandwidth = ctx.choice('bandwidth shown', [
            'Memory bandwidth [MBytes/s]', 'Memory BW [MBytes/s]', None][:3 if setup else 1])
        self.clock = ctx.real('measured clock', 1, 5)

    def value(self, region, event, register, options):
        m = re.fullmatch(r'(MBOX\d)C\d', register)
        key = (region, event, m.group(1) if m else 'core', tuple(options))
        if key not in self.values:
            self.values[key] = self.ctx.int('count %s' % ':'.join(key[:3] + key[3]), 0, 10 ** 9)
        return self.values[key]

    def view(self, region):
        class V:
            @staticmethod
            def value(event, register, options):
                return self.value(region, event, register, options)
        return V

    def run(self, cmd, *a, **kw):
        ctx = self.ctx
        if cmd == ['likwid-perfctr', '-a']:
            return Bytes(GROUPS)
        self.env.append(os.environ.get('OMP_NUM_THREADS'))
        self.calls.append(list(cmd))
        n = len(self.calls)
        group = cmd[cmd.index('-g') + 1]
        base = ':' not in group
        out = ['CPU name:,Some CPU,', 'CPU clock:,%s GHz,' % self.clock]
        rts, cts, vols, bws = {}, {}, {}, {}
        for r in self.names:
            if base:
                rts[r] = ctx.real('runtime%d%s' % (n, r), self.shortest, 100)
                if n >= self.limit:
                    ctx.assume(rts[r] >= 1.5)
            else:
                rts[r] = self.runtimes[-1][r]
            if r:
                out += ['TABLE,Region %s,Group 1 Raw,%s,2' % (r, 'MEM' if base else 'Custom'),
                        'Region Info,Core 0,', 'RDTSC Runtime [s],77.5,']
                cts[r] = ctx.int('calls%d%s' % (n, r), 1, 1000) if base else \
                    1
                out.append('call count,%s,' % cts[r])
            if not base:
                used = []
                for e in group.split(','):
                    event, register, *options = e.split(':')
                    ctx.check(register not in used and '[' not in register and
                              '|' not in register, 'events can be counted together', group)
                    used.append(register)
                    out.append(','.join([event, ':'.join([register] + options),
                                         str(self.value(r, event, register, options))]))
            if r:
                out.append('TABLE,Region %s,Group 1 Metric,MEM,4' % r)
            out.append('Runtime (RDTSC) [s],%s' % rts[r])
            if base:
                vols[r] = ctx.real('volume%d%s' % (n, r), 0, 1000)
                out.append('Memory data volume [GBytes],%s' % vols[r])
                if self.bandwidth:
                    bws[r] = ctx.real('bw%d%s' % (n, r), 0, 10 ** 6)
                    out.append('%s,%s' % (self.bandwidth, bws[r]))
        if base:
            self.runtimes.append(rts)
            self.counts.append(cts)
            self.volumes.append(vols)
            self.bws.append(bws)
        return Bytes('\n'.join(out) + '\n')


def install(ctx, likwid):
    S = type('S', (), {'check_output': staticmethod(likwid.run),
                       'CalledProcessError': benchmark.subprocess.CalledProcessError})
    standalone_benchmark.subprocess = benchmark.subprocess = S
    standalone_benchmark.find_executable = benchmark.find_executable = lambda p: '/usr/bin/' + p


def h_measure(ctx, kind, how, metrics=None, limit=2, setup=False, full=False):
    models.plain_units(ctx)
    sympy_converter[PrefixedUnit] = lambda u: sympy.sympify(u.__float__())
    pheno = metrics is not None
    names = [''] if kind == 'plain' else ['a', 'b']
    shown = names if kind != 'one' else ['b']
    marker = {'plain': {'use_marker': False, 'region': ['']},
              'named': {'use_marker': True, 'region': ['a', 'b']},
              'one': {'use_marker': True, 'region': ['b']},
              'found': {'use_marker': True, 'region': []}}[kind]
    # definitions
    n0 = ctx.choice('start', [100, 0]) if not pheno and not setup and how != 'variable' and \
        (full or len(shown) == 1) else 100
    n1 = ctx.choice('stop', [100, 250, 5000] if full or len(shown) == 1 else [250]) if not pheno and not setup else 250
    where = ctx.choice('adjusted in', [[''], [shown[0]]]) \
        if kind != 'plain' and not setup else ['']
    scale = 'lin'
    define = OrderedDict([('S', dict(region=[''], start=5, value=5, adjustable=False)),
                          ('N', dict(region=list(where), start=n0, value=n0, adjustable=True,
                                     stop=n1, scale=scale))])
    second = not pheno and not setup and (full or len(shown) == 1) and \
        ctx.choice('second', [False, True] + ['log'] * (full or kind == 'plain'))
    if second == 'log':
        define['M'] = dict(region=list(where), start=0.5, value=0.5, adjustable=True, stop=1e-5,
                           scale='log')
    elif second:
        define['M'] = dict(region=list(where), start=10, value=10, adjustable=True, stop=40,
                           scale='lin')
    step = ctx.choice('step', [1, 7]) if full else 4 if pheno else 7
    end = ctx.choice('end', [98, 120]) if full else 98

    def loop(e, s, v):
        return {'start': 1, 'end': e, 'step': s, 'variable': v, 'offset': None}
    per_region = kind != 'plain' and not setup and (full or kind == 'one' or how == 'mixed') and ctx.choice('own loops', [False, True])
    if per_region:
        loops = {'a': [loop(end, step, 'N')], 'b': [loop(11, 1, None), loop(end + 5, step, 'N')]}
    else:
        loops = {'': [loop(11, 1, 'M' if second is True else None), loop(end, step, 'N')]}
    spec = {r: [tuple(sorted((k, v) for k, v in l.items() if k != 'offset')) for l in
                loops.get(r, loops.get(''))] for r in names}
    reps = {'number': {'': '7'}, 'variable': {'': 'N'}, 'fixed variable': {'': 'S'},
            'marker': {'': 'marker'}, 'mixed': {'a': '3', 'b': 'marker'}}[how]
    flops = {'a': 2, 'b': 5} if per_region else {'': 3}
    cores = ctx.choice('cores', [1, 4]) if setup else 1
    ignore = ctx.choice('ignore warnings', [False, True]) if setup else True
    args = Args(define=define, loop=loops, repetitions=dict(reps), marker=marker, flops=dict(flops),
                no_phenoecm=not pheno, cores=cores, ignore_warnings=ignore)
    m = METRICS[metrics or 0]
    clock = ctx.real('clock', 1, 5)
    throughput = [ctx.real('throughput%d' % n, 1, 100) for n in (1, 2)] if pheno else [8, 8]
    line = 64
    counters = [{'loads': m['l1l'], 'stores': m['l1s']}, {'loads': m['l2l'], 'stores': m['l2s']},
                {'loads': m['l2s'], 'stores': m['l1s'], 'misses': m['l3m'], 'evicts': m['l3e']},
                {'loads': m['l3m'], 'stores': m['l3e']}]
    data = {'clock': PrefixedUnit(clock * 10 ** 9, '', 'Hz'),
            'cacheline size': PrefixedUnit(float(line), '', 'B'),
            'overlapping model': {'performance counter metric': m['OL']},
            'non-overlapping model': {'performance counter metric': 'T_nOL + T_L1L2'},
            'memory hierarchy': [
                {'level': l, 'performance counter metrics': c, 'upstream throughput': [u]}
                for l, c, u in zip(['L1', 'L2', 'L3', 'MEM'], counters,
                                   ['x'] + [PrefixedUnit(x, '', 'B/cy') for x in throughput] +
                                   ['full'])]}
    bw = ctx.real('bandwidth', 1, 10 ** 12) if pheno else 1
    machine = models.Machine(data, {-1: PrefixedUnit(bw, '', 'B/s')})
    machine.current_system = lambda print_diff=False: True
    likwid = Likwid(ctx, names, limit + 1, pheno, setup)
    if second == 'log':
        # factors are powers of ten
        likwid.shortest = 0.25
    # what differs by exactly 1 % depends on rounding
    off = abs(likwid.clock - clock)
    ctx.assume(ctx.any([off > clock * 0.011, off < clock * 0.009]))
    off = off > clock * 0.01
    install(ctx, likwid)
    kernel = BinaryDescription(args=args, machine=machine)
    kernel.clear_state()
    for k, v in define.items():
        kernel.set_constant(k, v['value'])
    out = io.StringIO()
    old = os.environ.get('OMP_NUM_THREADS')
    env = ctx.choice('OMP_NUM_THREADS', [None, '3']) if cores > 1 else '4'
    try:
        os.environ.pop('OMP_NUM_THREADS', None)
        if env is not None:
            os.environ['OMP_NUM_THREADS'] = env
        b = standalone_benchmark.StandaloneBenchmark(kernel, machine, args)
        failed = False
        try:
            b.analyze(out)
        except SystemExit:
            failed = True
        except ZeroDivisionError:
            # nothing can be told from a binary that takes no time
            ctx.assume(ctx.all([likwid.runtimes[-1][r] > 0 for r in shown]))
            raise
        ctx.check(os.environ.get('OMP_NUM_THREADS') == env, 'environment is restored')
    finally:
        os.environ.pop('OMP_NUM_THREADS', None)
        if old is not None:
            os.environ['OMP_NUM_THREADS'] = old
    ctx.check(ctx.iff(failed, ctx.all([not ignore, off])), 'wrong frequency is refused')
    ctx.check(all(e is None for e in likwid.env), 'number of threads is not preset')
    if failed:
        return
    # how the binary is run
    rows = []
    for call in likwid.calls:
        at = call.index('/x/bin')
        opts = call[:at]
        ctx.check(call[0] == 'likwid-perfctr' and '-f' in opts and '-O' in opts and
                  ('-m' in opts) == (kind != 'plain'), 'measurement command', repr(call))
        ctx.check(opts[opts.index('-C') + 1] == ('S0:0' if cores == 1 else 'S0:0-3'), 'cores used')
        ctx.check(len(call) - at - 1 == len(define), 'arguments')
        ctx.check(call[at + 1] == '5', 'definitions in order', repr(call))
        values = {'S': 5, 'N': as_number(ctx, call[at + 2])}
        if second:
            values['M'] = as_number(ctx, call[at + 3])
        if ':' in opts[opts.index('-g') + 1]:
            ctx.check(rows and ctx.all([values[v] == rows[-1][v] for v in values]),
                      'counters of the same run')
        else:
            ctx.check(opts[opts.index('-g') + 1] == 'MEM', 'group of counters')
            rows.append(values)
    ctx.check(len(rows) == len(likwid.runtimes), 'runs')
    ctx.check(rows[0]['N'] == n0, 'starts with the first value')
    limits = [('N', n0, n1)] + ([('M', 10, 40)] if second is True else [])
    affected = [r for r in shown if where == [''] or r in where]
    for a, z, rts in zip(rows, rows[1:], likwid.runtimes):
        ctx.check(ctx.any([rts[r] < 1.5 for r in shown]), 'not repeated if long enough')
        for v, lo, hi in limits:
            ctx.check(ctx.all([z[v] >= a[v], z[v] <= hi]), 'stays within limits')
        if second == 'log':
            ctx.check(ctx.all([z['M'] <= a['M'], z['M'] >= 1e-5]), 'stays within limits')
            ctx.check(ctx.any([z['M'] == a['M'], z['M'] <= a['M'] * 0.1, z['M'] == 1e-5]),
                      'shrinks by orders of magnitude')
            if len(shown) == 1:
                ctx.check(ctx.any([z[v] == a[v], ctx.all([
                    z[v] * rts[shown[0]] <= a[v] * (2 + rts[shown[0]])]), rts[shown[0]] == 0]),
                          'not prolonged more than needed')
        ctx.check(ctx.any([z[v] > a[v] for v, _, _ in limits] +
                          ([z['M'] < a['M']] if second == 'log' else [])), 'prolonged')
        if len(shown) == 1 and not second:
            ctx.check(ctx.any([z['N'] == n1, z['N'] * rts[shown[0]] >= a['N'] * 1.5,
                               rts[shown[0]] == 0]), 'prolonged as much as needed')
        if second:
            ctx.check(ctx.implies(ctx.all([z['M'] != a['M'], len(shown) == 1]),
                                  ctx.any([a['N'] >= n1, a['N'] == 0])),
                      'first definition is adjusted first')
    last, final = likwid.runtimes[-1], rows[-1]
    long = ctx.all([last[r] >= 1.5 for r in shown])
    stuck = ctx.all([ctx.any([last[r] >= 1.5] + [False] * (r not in affected) + [
        ctx.all([ctx.any([final[v] >= hi, final[v] == 0]) for v, _, hi in limits] +
                ([final['M'] <= 1e-5] if second == 'log' else []))])
        if r in affected else True for r in shown])
    ctx.check(ctx.any([long, stuck]), 'long enough')
    ctx.check(ctx.iff('WARNING: Could not extrapolate' in out.getvalue(), ctx.not_(long)),
              'short measurements are noted', repr(out.getvalue()))
    n = len(rows) - 1
    ctx.check(set(b.results) == set(shown), 'results of regions', repr(list(b.results)))
    for r in shown:
        res = b.results[r]
        its, inner = 1, 1
        for l in spec[r]:
            l = dict(l)
            e = l['end']
            if l['variable']:
                e = e + final[l['variable']] - define_start(l['variable'], n0)
            its = its * ctx.ite(e > 1, -((1 - e) // l['step']), 0)
            inner = l['step']
        count = {'number': 7, 'variable': final['N'], 'fixed variable': 5,
                 'marker': likwid.counts[n].get(r),
                 'mixed': 3 if r == 'a' else likwid.counts[n].get(r)}[how]
        per_line = line / (8 * inner)
        fl = flops.get(r, flops.get(''))
        # products instead of quotients
        ctx.close(res['Runtime (per repetition) [s]'] * count, last[r], 'runtime')
        ctx.check(res['Iterations per repetition'] == its, 'iterations')
        ctx.close(res['Iterations per cacheline'], per_line, 'iterations per cacheline')
        ctx.close(float(res['Runtime (per cacheline update) [cy/CL]']) * its * count,
                  last[r] * clock * 10 ** 9 * per_line, 'cycles per cacheline')
        ctx.close(float(res['Performance [MFLOP/s]']) * last[r], its * fl * count / 10 ** 6,
                  'MFLOP/s')
        for u in ('MLUP', 'MIt'):
            ctx.close(float(res['Performance [%s/s]' % u]) * last[r], its * count / 10 ** 6,
                      u + '/s')
        ctx.close(res['MEM volume (per repetition) [B]'] * count, likwid.volumes[n][r] * 10 ** 9,
                  'memory volume')
        if likwid.bandwidth:
            ctx.check(res['MEM BW [MByte/s]'] == likwid.bws[n][r], 'memory bandwidth')
        else:
            ctx.check(res['MEM BW [MByte/s]'] != res['MEM BW [MByte/s]'], 'no bandwidth')
        if not pheno:
            ctx.check(res['ECM'] is None and res['data transfers'] is None, 'no model')
            continue
        view = likwid.view(r)
        cls = its * count / per_line

        def value(name):
            return evaluate(ctx, m[name], view)
        for level, c in zip(['L1', 'L2', 'L3', 'MEM'], counters):
            for what, metric in c.items():
                ctx.close(float(res['data transfers'][level][what]) * cls,
                          evaluate(ctx, metric, view), 'transfers per cacheline')
        e = res['ECM']
        ctx.close(float(e['T_OL']) * cls, value('OL'), 'overlapping cycles')
        ctx.close(float(e['T_nOL']) * cls, value('l1l') / 2, 'load cycles')
        ctx.close(float(e['T_L1L2']) * cls * throughput[0], (value('l2l') + value('l2s')) * line,
                  'L1-L2 cycles')
        ctx.close(float(e['T_L2L3']) * cls * throughput[1], (value('l2s') + value('l1s')) * line,
                  'L2-L3 cycles')
        ctx.close(float(e['T_L3MEM']) * cls * bw,
                  (value('l3m') + value('l3e')) * line * clock * 10 ** 9, 'memory cycles')


def define_start(name, n0):
    return {'N': n0, 'M': 10, 'S': 5}[name]


def as_number(ctx, text):
    from symx import strings
    t = str(text)
    if ctx.symbolic and t[:1] == '\ue000':
        return strings.TOKENS[t][0]
    f = float(t)
    return int(f) if f == int(f) else f


# ------------------------------------------------------------------------------ run
def h_run(ctx):
    """results are reported with the constants measured and added to those stored"""
    value = ctx.real('result', 0, 100)
    longer = ctx.choice('prolonged', [False, True])
    verbose = ctx.choice('verbose', [0, 1, 2])
    define = OrderedDict([('S', dict(region=[''], start=5, value=5, adjustable=False)),
                          ('N', dict(region=[''], start=10, value=10, adjustable=True, stop=40,
                                     scale='lin'))])
    name = ctx.choice('binary', ['/x/bin', './bin', 'bin'])
    where = ctx.choice('stored', [None, 'nothing', 'other binary', 'other constants',
                                  'other model', 'same'])
    final = 20 if longer else 10
    key = (('S', 5), ('N', final))
    before = {'other binary': {'nib': {key: {'stand-alone benchmark': 'A'}}},
              'other constants': {'bin': {(('S', 5), ('N', 30)): {'stand-alone benchmark': 'B'}}},
              'other model': {'bin': {key: {'ECM': 'C'}}},
              'same': {'bin': {key: {'stand-alone benchmark': 'D'}}}}.get(where)
    calls, moved, dumped = [], [], []

    class Model:
        name = 'stand-alone benchmark'

        def __init__(self, kernel, machine, args, parser):
            calls.append('new')
            ctx.check(machine == 'the machine', 'machine')
            self.kernel = kernel

        def analyze(self, *a, **k):
            calls.append('analyze')
            ctx.check({str(k): v for k, v in self.kernel.constants.items()} ==
                      {'S': 5, 'N': 10}, 'constants of definitions')
            if longer:
                define['N']['value'] = 20
                self.kernel.set_constant('N', 20)
            self.results = {'': {'Runtime (per repetition) [s]': value}}

        def report(self, output_file=None):
            calls.append('report')
            print('the report %s' % value, file=output_file)

    class Store:
        name = '/scratch/results.pickle'
        at, open = 7, True

        def seek(self, n):
            self.at = n

        def close(self):
            self.open = False

    class Pickle:
        @staticmethod
        def load(f):
            ctx.check(f.at == 0 and f.open, 'stored results are read')
            if before is None:
                raise EOFError()
            return {b: {tuple((sympy.Symbol(n, positive=True, integer=True), v) for n, v in k):
                        dict(m) for k, m in d.items()} for b, d in before.items()}

        @staticmethod
        def dump(obj, f):
            ctx.check(not moved, 'moved when complete')
            dumped.append(obj)

    class Written:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    opened = []

    def open_(path, mode='r'):
        opened.append((path, mode))
        return Written()
    standalone_pheno.StandaloneBenchmark = Model
    standalone_pheno.pickle = Pickle
    standalone_pheno.open = open_
    standalone_pheno.shutil = type('S', (), {'move': staticmethod(
        lambda a, b: moved.append((a, b, len(dumped))))})
    standalone_pheno.MachineModel = lambda path, args=None: \
        'the machine' if path == '/x/machine.yml' else path
    args = Args(define=define, loop={'': [{'start': 0, 'end': 10, 'step': 1, 'variable': 'N',
                                           'offset': None}]},
                repetitions={'': '3'}, flops={'': 1}, binary=name, verbose=verbose,
                marker={'use_marker': False, 'region': ['']},
                machine=argparse.Namespace(name='/x/machine.yml'),
                store=Store() if where else None)
    out = io.StringIO()
    standalone_pheno.run(None, args, out)
    ctx.check(calls == ['new', 'analyze', 'report'], 'steps', str(calls))
    text = out.getvalue()
    ctx.check('-D S 5 -D N %d\n' % final in text and name in text and
              '-m /x/machine.yml' in text, 'header', text)
    ctx.check(text.index('-D S') < text.index('the report'), 'header first')
    ctx.check(text.count('the report %s\n' % value) == 1, 'report is in the output')
    if not where:
        ctx.check(not dumped and not moved and not opened, 'nothing stored')
        return
    ctx.check(len(dumped) == 1 and len(moved) == 1 and moved[0][1:] == (Store.name, 1) and
              opened[0][0] == moved[0][0] != Store.name, 'stored as a whole',
              '%s %s' % (moved, opened))
    got = {b: {tuple((str(n), v) for n, v in k): m for k, m in d.items()}
           for b, d in dumped[0].items()}
    want = before or {}
    want.setdefault('bin', {}).setdefault(key, {})['stand-alone benchmark'] = \
        {'': {'Runtime (per repetition) [s]': value}}
    ctx.check({b: {k: set(m) for k, m in d.items()} for b, d in got.items()} ==
              {b: {k: set(m) for k, m in d.items()} for b, d in want.items()},
              'results stored', repr(got))
    for b in want:
        for k in want[b]:
            for m in want[b][k]:
                x, y = got[b][k][m], want[b][k][m]
                ctx.check(x == y if isinstance(y, str) else
                          x['']['Runtime (per repetition) [s]'] == value, 'result stored')


# ------------------------------------------------------------------------------ report
def h_report(ctx):
    """every result is below its name, in the output asked for"""
    regions = ctx.choice('regions', [[''], ['a', 'b']])
    pheno, verbose = ctx.choice('pheno', [False, True]), ctx.choice('verbose', [0, 1, 2])
    b = object.__new__(standalone_benchmark.StandaloneBenchmark)
    b.no_phenoecm, b.verbose = not pheno, verbose
    b.kernel = type('K', (), {'regions': set(regions)})
    b.results, n = {}, [100]
    odd = ctx.choice('metrics', [{}, {'MEM': ['loads', 'stores']}, {'L1': ['stores', 'misses']}])

    def number():
        n[0] += 1
        return n[0] + 0.25
    for r in regions:
        b.results[r] = {k: number() for k in (
            'Runtime (per repetition) [s]', 'Iterations per repetition',
            'Runtime (per cacheline update) [cy/CL]', 'MEM volume (per repetition) [B]',
            'Performance [MFLOP/s]', 'Performance [MLUP/s]', 'Performance [MIt/s]',
            'MEM BW [MByte/s]')}
        b.results[r]['data transfers'] = {
            l: {k: PrefixedUnit(number(), '', 'CL/CL')
                for k in odd.get(l, ['loads', 'stores', 'misses', 'evicts'])}
            for l in ('L1', 'L2', 'L3', 'MEM')} if pheno else None
        b.results[r]['ECM'] = {k: number() for k in ('T_OL', 'T_nOL', 'T_L1L2', 'T_L2L3',
                                                     'T_L3MEM')} if pheno else None
    out, other = io.StringIO(), io.StringIO()
    import sys
    old, sys.stdout = sys.stdout, other
    try:
        b.report(out)
    finally:
        sys.stdout = old
    ctx.check(other.getvalue() == '', 'all is in the output', repr(other.getvalue()[:100]))
    parts = re.split(r"Results for region '(\w*)'", out.getvalue())
    ctx.check(sorted(parts[1::2]) == sorted(regions), 'regions')
    for r, text in zip(parts[1::2], parts[2::2]):
        res = b.results[r]
        for label, key, fmt in (
                ('Runtime (per cacheline update): ', 'Runtime (per cacheline update) [cy/CL]', '.2f'),
                ('MEM volume (per repetition): ', 'MEM volume (per repetition) [B]', '.0f'),
                ('MFLOP/s', 'Performance [MFLOP/s]', '.2f'),
                ('MLUP/s', 'Performance [MLUP/s]', '.2f'),
                ('MIt/s', 'Performance [MIt/s]', '.2f')):
            t = format(res[key], fmt)
            ctx.check((t + ' ' + label if '/' in label and ':' not in label else label + t)
                      in text, 'value reported', key)
        ctx.check(('MEM bandwidth: %.2f' % res['MEM BW [MByte/s]'] in text) == (verbose > 0),
                  'bandwidth reported')
        if not pheno:
            continue
        table = re.search(r'Data Transfers:\n(.*?)\n\n', text, re.S).group(1).split('\n')
        cols = table[0].split('|')[1].split()
        for row in table[1:]:
            level, cells = row.split('|')
            # cells are separated by two blanks or more
            cells = re.findall(r'-(?= |$)|\S+ \S+', cells)
            want = res['data transfers'][level.strip()]
            ctx.check(len(cells) == len(cols), 'table', row)
            for c, v in zip(cols, cells):
                ctx.check(v == (str(want[c]) if c in want else '-'), 'value below its name',
                          '%s %s: %s' % (level, c, v))
        e = res['ECM']
        ctx.check('{ %.1f || %.1f | %.1f | %.1f | %.1f } cy/CL' % (
            e['T_OL'], e['T_nOL'], e['T_L1L2'], e['T_L2L3'], e['T_L3MEM']) in text, 'model')


def cases(tier):
    q = tier == 'quick'
    t = 100 if q else 1500
    cs = [Case('define', h_define, max_paths=100000, time=t, reach=['scale']),
          Case('command', h_command, max_paths=100000, time=t, reach=['loops, outermost first']),
          Case('run', h_run, max_paths=10000, time=t, reach=['result stored', 'nothing stored']),
          Case('report', h_report, max_paths=10000, time=t, reach=['value below its name'])]
    for action, alphabet, n in (('AppendFlops', 'a1:,', 5), ('AppendRepetitionDefines', 'a1:, ', 5),
                                ('AppendLoopRange', 'a10:.', 6)):
        for l in range(1, n if q else n + 1):
            cs.append(Case('%s-%d' % (action, l), h_text, action=action, length=l,
                           alphabet=alphabet, max_paths=200000, time=t,
                           bounds='texts of %d characters' % l))
    for depth in (1, 2, 3):
        cs.append(Case('iterations-%d' % depth, h_iterations, depth=depth, max_paths=10000, time=t,
                       reach=['iterations']))
    for kind, how in (('plain', 'number'), ('plain', 'variable'), ('plain', 'fixed variable'),
                      ('named', 'number'), ('named', 'marker'), ('named', 'mixed'),
                      ('one', 'marker'), ('found', 'marker'), ('found', 'variable')):
        cs.append(Case('measure-%s-%s' % (kind, how), h_measure, kind=kind, how=how, full=not q,
                       limit=2 if q else 3, max_paths=50000, time=t, reach=['cycles per cacheline']))
        if q and kind != 'plain' and (kind, how) not in (('named', 'number'), ('one', 'marker')):
            continue
        cs.append(Case('setup-%s-%s' % (kind, how), h_measure, kind=kind, how=how, full=not q,
                       setup=True, limit=1, max_paths=50000, time=t,
                       reach=['wrong frequency is refused']))
    for metrics in range(len(METRICS)):
        for kind, how in (('plain', 'number'), ('named', 'marker')):
            cs.append(Case('counters-%s-%d' % (kind, metrics), h_measure, kind=kind, how=how,
                           metrics=metrics, limit=1 if q else 2, max_paths=50000, time=t,
                           reach=['memory cycles']))
    return cs
