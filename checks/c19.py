"""C19: the benchmark model measures every counter it needs and derives its metrics from them."""
import io
import os
import re

import sympy
from sympy.core.sympify import converter as sympy_converter

from symx.runner import Case
from kerncraft.models import benchmark
from kerncraft.machinemodel import MachineModel
from kerncraft.prefixedunit import PrefixedUnit
from checks import models
from checks.util import mk_kernel

ASSUMPTIONS = ['floats are exact reals',
               'likwid-perfctr counts what it is asked for and refuses two events in one register',
               'operators in metrics are surrounded by blanks',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)']

# descriptions of registers and what they stand for
REGISTERS = {
    'PMC0': ['PMC0'], 'PMC1': ['PMC1'], 'PMC[0-1]': ['PMC0', 'PMC1'],
    'PMC[0-3]': ['PMC0', 'PMC1', 'PMC2', 'PMC3'], 'PMC[13]': ['PMC1', 'PMC3'],
    'MBOX[0-1]C[01]': ['MBOX0C0', 'MBOX0C1', 'MBOX1C0', 'MBOX1C1'],
    'MBOX0C[1-1]': ['MBOX0C1'], 'PMC0|FIXC1': ['PMC0', 'FIXC1'],
    'PMC[2-3]|MBOX1C[02-3]': ['PMC2', 'PMC3', 'MBOX1C0', 'MBOX1C2', 'MBOX1C3'],
    'FIXC0': ['FIXC0'], 'CBOX[9a-b]C1': ['CBOX9C1', 'CBOXaC1', 'CBOXbC1'],
    '[PU]MC[1-2]': ['PMC1', 'PMC2', 'UMC1', 'UMC2']}
CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def h_registers(ctx, parts):
    """descriptions are spelled out completely"""
    text, want = '', ['']
    for n, kind in enumerate(parts):
        if kind == 'plain':
            text += 'PM'
            want = [w + 'PM' for w in want]
        elif kind == 'group':
            chars = ctx.choice('chars%d' % n, ['0', '01', 'aZ9', '148'])
            text += '[' + chars + ']'
            want = [w + c for w in want for c in chars]
        elif kind == 'range':
            a, b = ctx.choice('from%d' % n, '01a9AZ'), ctx.choice('to%d' % n, '07bf9BZ')
            more = ctx.choice('more%d' % n, ['', '5', 'c-d'])
            text += '[%s-%s%s]' % (a, b, more)
            span = CHARS[CHARS.index(a):CHARS.index(b) + 1] + {'c-d': 'cd'}.get(more, more)
            want = [w + c for w in want for c in span]
    if ctx.choice('or', [False, True]):
        text, want = text + '|X[2-3]', want + ['X2', 'X3']
    got = list(benchmark.register_options(text))
    ctx.check(got == want, 'registers described', '%s: %s' % (text, got))


def h_runs(ctx, count, regs):
    """events are spread over runs"""
    events = []
    for n in range(count):
        events.append((ctx.choice('event%d' % n, ['A', 'B'][:n + 1]),
                       ctx.choice('registers%d' % n, regs),
                       ctx.choice('options%d' % n, [(), ('EDGE', 'T=0x3')]) if n < 2 else ()))
    runs = benchmark.build_minimal_runs(list(events))
    ctx.check(all(len(r) for r in runs), 'no empty run')
    left = set(events)
    waiting = []
    for n, run in enumerate(runs):
        used = [r[1] for r in run]
        ctx.check(len(set(used)) == len(used), 'one event per register', str(run))
        for e, reg, opt in run:
            fit = [x for x in left if x[0] == e and x[2] == opt and reg in REGISTERS[x[1]]]
            ctx.check(fit != [], 'register is possible and event needed', '%s %s' % (e, reg))
            # several may fit: decided below over all assignments
        waiting.append((used, run))
    ways = list(assign(left, [(n, e) for n, r in enumerate(runs) for e in r]))
    ctx.check(ways != [], 'every event is counted exactly once', str(runs))
    ctx.check(not ways or any(all(r in waiting[m][0] for x, n in way.items() for m in range(n)
                                  for r in REGISTERS[x[1]]) for way in ways),
              'no run has free registers for a later event', str(runs))


def assign(left, places):
    """events to runs, one-to-one, in all possible ways"""
    if not places:
        if not left:
            yield {}
        return
    n, (e, reg, opt) = places[0]
    for x in sorted(left):
        if x[0] == e and x[2] == opt and reg in REGISTERS[x[1]]:
            for rest in assign(left - {x}, places[1:]):
                yield {**rest, x: n}


def h_names(ctx):
    """event strings and tuples"""
    e, r = ctx.choice('event', ['A', 'L2_IN']), ctx.choice('register', ['PMC0', 'PMC[0-3]'])
    o = ctx.choice('options', [None, (), ('EDGE',), ('EDGE', 'T=0x3')])
    want = ':'.join([e, r] + list(o or ()))
    ctx.check(benchmark.eventstr((e, r, o)) == want, 'event string')
    ctx.check(benchmark.eventstr(event=e, register=r, parameters=list(o or ())) == want,
              'event string from keywords')
    if not o:
        ctx.check(benchmark.eventstr((e, r)) == want, 'event string of a pair')
    ctx.check(MachineModel.parse_perfctr_event(want) == (e, r, tuple(o or ())), 'event parsed')


POOL = ['A:PMC0', 'A:PMC0:EDGE', 'A:PMC[0-1]', 'XA:PMC0', 'A:PMC0:EDGE:T=0x3', 'B_2:MBOX0C[01]',
        'B_2:MBOX1C[01]', 'A:PMC|FIXC1']


def h_metric(ctx, shape):
    """metrics are sums and the like of their counters"""
    names = [ctx.choice('counter%d' % n, POOL) for n in range(2 if shape != 'max' else 3)]
    text = {'sum': '%s + 3 * %s', 'diff': '(%s - %s) * 0.5', 'ratio': '%s / (1 + %s)',
            'max': 'Max(%s, 2 * %s, %s)'}[shape] % tuple(names)
    expr, events = MachineModel.parse_perfmetric(text)
    values = {}
    for n in sorted(set(names)):
        values[n] = ctx.int('value%d' % POOL.index(n), 0, 10 ** 12)
    got = {}
    for s, ev in events.items():
        name = ':'.join(ev[:2] + ev[2])
        ctx.check(name in values, 'counter of the metric', name)
        got[s] = values[name]
    if len(set(names)) == len(names) or shape == 'sum':
        ctx.check({':'.join(e[:2] + e[2]) for e in events.values()} == set(names),
                  'counters of the metric', str(events))
    v = [values[n] for n in names]
    res = expr.subs(got)
    if shape == 'max':
        res = ctx_value(ctx, res)
        want = ctx.ite(v[0] > 2 * v[1], v[0], 2 * v[1])
        want = ctx.ite(want > v[2], want, v[2])
    else:
        want = {'sum': lambda: v[0] + 3 * v[1], 'diff': lambda: (v[0] - v[1]) / 2,
                'ratio': lambda: v[0] / (1 + v[1])}[shape]()
    ctx.close(ctx_value(ctx, res), want, 'value of the metric')


def ctx_value(ctx, x):
    return float(x)


METRICS = [
    # one run
    dict(OL='Max(U0:PMC[0-3], U1:PMC[0-3])', l1l='LD:PMC[0-3]', l1s='ST:PMC[0-3]',
         l2l='A:FIXC0', l2s='A:FIXC0 + 1', l3m='A:FIXC0', l3e='ST:PMC[0-3]'),
    # options and names contained in others, several runs
    dict(OL='U0:PMC0 + U0:PMC0:EDGE', l1l='LD:PMC0', l1s='ST:PMC[0-1]:INV:T=0x3',
         l2l='OLD:PMC[0-1]', l2s='2 * ST:PMC[0-1]', l3m='LD:PMC0', l3e='OLD:PMC[0-1]'),
    # the same event in boxes
    dict(OL='U0:PMC[0-1]', l1l='LD:PMC[0-1]', l1s='ST:PMC[0-1]',
         l2l='CAS:MBOX0C0 + CAS:MBOX1C0', l2s='CAS_W:MBOX0C0 + CAS_W:MBOX1C[01]',
         l3m='CAS:MBOX0C0 + CAS:MBOX1C0', l3e='CAS:MBOX1C0')]


class Likwid:
    """what likwid-perfctr prints"""

    def __init__(self, ctx, runs, counters):
        self.ctx, self.calls, self.values, self.left = ctx, [], {}, runs
        self.odd = ctx.choice('odd counter', [None, '-', 'nan']) if counters else None
        self.volume = counters or ctx.choice('volume', [True, False])
        self.bandwidth = ctx.choice('bandwidth shown', ['Memory bandwidth [MBytes/s]',
                                                  'Memory BW [MBytes/s]', None]) \
            if self.volume and not counters else None
        self.env = []
        self.runtimes = []
        self.clocks, self.volumes, self.bws = [], [], []

    def box(self, register):
        m = re.fullmatch(r'(MBOX\d)C\d', register)
        return m.group(1) if m else 'core'

    def value(self, event, register, options):
        key = (event, self.box(register), tuple(options))
        if key not in self.values:
            self.values[key] = 0 if self.odd and event == 'ST' else \
                self.ctx.int('count %s' % ':'.join(key[:2] + key[2]), 0, 10 ** 12)
        return self.values[key]

    def run(self, cmd, *a, **k):
        ctx = self.ctx
        if cmd == ['likwid-perfctr', '-a']:
            return Bytes(self.groups)
        self.env.append(os.environ.get('OMP_NUM_THREADS'))
        self.calls.append(list(cmd))
        n = len(self.calls)
        group = cmd[cmd.index('-g') + 1]
        t = ctx.real('runtime%d' % n, 0, 100, lo_open=True)
        if ':' not in group:
            self.left -= 1
            if self.left == 0:
                ctx.assume(t >= 1.5)
        clock = ctx.real('measured clock%d' % n, 1, 5)
        self.runtimes.append(t)
        self.clocks.append(clock)
        out = ['STRUCT,Info,3,', 'CPU name:,Some CPU,', 'CPU clock:,%s GHz,' % clock,
               'TABLE,Region Foo,Group 1 Raw,MEM,2', 'Region Info,Core 0,',
               'RDTSC Runtime [s],%s,' % t, 'call count,1,']
        if ':' in group:
            used = []
            for e in group.split(','):
                event, register, *options = e.split(':')
                ctx.check(register not in used and '[' not in register and '|' not in register,
                          'events can be counted together', group)
                used.append(register)
                v = self.value(event, register, options)
                out.append(','.join([event, ':'.join([register] + options),
                                     self.odd if event == 'ST' and self.odd else str(v)]))
        out.append('STRUCT,Metric,2')
        out.append('Runtime (RDTSC) [s],%s' % t)
        if self.volume:
            self.volumes.append(ctx.real('volume%d' % n, 0, 1000))
            out.append('Memory data volume [GBytes],%s' % self.volumes[-1])
        if self.bandwidth:
            self.bws.append(ctx.real('bw%d' % n, 0, 10 ** 6))
            out.append('%s,%s' % (self.bandwidth, self.bws[-1]))
        return Bytes('\n'.join(out) + '\n')

    groups = '\n'.join(['Group name\tDescription', '-' * 20, '     L2\tL2 data volume',
                        '     MEM\tMemory bandwidth', '  FLOPS_DP\tflops', ''])



class Bytes:
    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text


def evaluate(ctx, metric, likwid):
    """value of a metric by hand"""
    terms = []
    metric = metric.strip()
    if metric.startswith('Max('):
        a, b = [evaluate(ctx, m, likwid) for m in metric[4:-1].split(',')]
        return ctx.ite(a > b, a, b)
    total = 0
    for term in metric.split(' + '):
        factor = 1
        if ' * ' in term:
            factor, term = term.split(' * ')
        if ':' not in term:
            total = total + int(term)
            continue
        event, register, *options = term.split(':')
        total = total + int(factor) * likwid.value(event, register.split('|')[0].replace(
            '[01]', '0').replace('[0-1]', '0').replace('[0-3]', '0'), options)
    return total


def h_analyze(ctx, metrics, cores, runs, symbolic_loop):
    models.plain_units(ctx)
    # symbolic quantities enter expressions with their magnitude, as all others do
    sympy_converter[PrefixedUnit] = lambda u: sympy.sympify(u.__float__())
    m = METRICS[metrics] if metrics is not None else METRICS[0]
    phenoecm = metrics is not None
    step = ctx.choice('step', [1, 7]) if symbolic_loop else 4
    t = ctx.choice('type', ['double', 'float']) if symbolic_loop else 'double'
    code = '%s x[N], y[M], s;\nfor(int i=2; i<N-1; i+=%d)\n  x[i] = s*y[i] + 1.0;\n' % (t, step)
    k = mk_kernel(code)
    N = ctx.int('N', 20, 10 ** 5) if symbolic_loop else 1000
    M = ctx.int('M', 20, 10 ** 5) if symbolic_loop else 2000
    k.set_constant('N', N)
    k.set_constant('M', M)
    clock = ctx.real('clock', 1, 5)
    throughput = [ctx.real('throughput%d' % n, 1, 100) for n in (1, 2)]
    lines = []
    line = ctx.choice('line', [64, 256]) if phenoecm else 128
    counters = [{'loads': m['l1l'], 'stores': m['l1s']},
                {'loads': m['l2l'], 'stores': m['l2s']},
                {'loads': m['l2s'], 'stores': m['l1s'], 'misses': m['l3m'], 'evicts': m['l3e']},
                {'loads': m['l3m'], 'stores': m['l3e']}]
    data = {'clock': PrefixedUnit(clock * 10 ** 9, '', 'Hz'),
            'cacheline size': PrefixedUnit(float(line), '', 'B'),
            'overlapping model': {'performance counter metric': m['OL']},
            'non-overlapping model': {'performance counter metric': 'T_nOL + T_L1L2'},
            'memory hierarchy': [
                {'level': l, 'performance counter metrics': c, 'upstream throughput': [u]}
                for l, c, u in zip(['L1', 'L2', 'L3', 'MEM'], counters,
                                   ['x'] + [PrefixedUnit(x, '', 'B/cy') for x in throughput] +
                                   ['full'])]}
    incomplete = not phenoecm and cores == 1 and ctx.choice('incomplete', [False, True])
    if incomplete:
        data[ctx.choice('missing', ['overlapping model', 'non-overlapping model'])] = {
            'performance counter metric': ctx.choice('text', [
                'INFORMATION_REQUIRED', 'INFORMATION_REQUIRED Example: max(UOPS:PMC[0-3])'])}
    bw = ctx.real('bandwidth', 1, 10 ** 12)
    machine = models.Machine(data, {-1: PrefixedUnit(bw, '', 'B/s')})
    machine.current_system = lambda print_diff=False: True
    built = []

    class Lock:
        closed = 0

        def close(self):
            self.closed += 1
    lock = Lock()

    def build(verbose=False, openmp=False, **kw):
        built.append(openmp)
        return '/x/bench', lock
    k.build_executable = build
    likwid = Likwid(ctx, runs, phenoecm)
    benchmark.subprocess = type('S', (), {'check_output': staticmethod(likwid.run),
                                          'CalledProcessError': benchmark.subprocess.CalledProcessError})
    benchmark.find_executable = lambda p: '/usr/bin/' + p
    old = os.environ.get('OMP_NUM_THREADS')
    env = ctx.choice('OMP_NUM_THREADS', [None, '3', '']) if cores > 1 else '4'
    ignore = ctx.choice('ignore warnings', [False, True])
    args = None
    if cores > 1 or ignore or not phenoecm:
        args = models.Args(cores=cores, no_phenoecm=not phenoecm and cores == 1 and not incomplete, iterations=10,
                           ignore_warnings=ignore)
    try:
        if env is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = env
        b = benchmark.Benchmark(k, machine, args)
        failed = False
        try:
            b.analyze()
        except SystemExit:
            failed = True
        ctx.check(os.environ.get('OMP_NUM_THREADS') == env, 'environment is restored')
    finally:
        if old is None:
            os.environ.pop('OMP_NUM_THREADS', None)
        else:
            os.environ['OMP_NUM_THREADS'] = old
    ctx.check(all(e is None for e in likwid.env), 'number of threads is not preset')
    off = ctx.any([abs(c - clock) > clock * 0.01 for c in likwid.clocks])
    ctx.check(ctx.iff(failed, ctx.all([not ignore, off])), 'wrong frequency is refused')
    if failed:
        return
    ctx.check(built == [cores > 1], 'parallel only with several cores')
    base = []
    for call, t in zip(likwid.calls, likwid.runtimes):
        ctx.check(call[0] == 'likwid-perfctr' and '-m' in call and '-f' in call and '-O' in call,
                  'measurement command')
        ctx.check(call[call.index('-C') + 1] == ('S0:0' if cores == 1 else 'S0:0-%d' % (cores - 1)),
                  'cores used')
        at = call.index('/x/bench')
        ctx.check(len(call) == at + 4, 'arguments')
        ctx.check(call[at + 2] == str(M), 'constants in order of their names', repr(call))
        ctx.check(call[at + 3] == str(N), 'constants in order of their names', repr(call))
        if call[call.index('-g') + 1] == 'MEM':
            base.append((float(call[at + 1]), t))
        else:
            ctx.check(len(base) > 0, 'runtime is measured first')
            ctx.check(float(call[at + 1]) == base[-1][0], 'counters of as many repetitions')
    reps, runtime = base[-1]
    ctx.check(ctx.all([r >= 1 for r, _ in base]), 'at least one repetition')
    ctx.check(runtime >= 1.5, 'long enough')
    ctx.check(ctx.all([x < 1.5 for _, x in base[:-1]]), 'not repeated if long enough')
    per = runtime / reps
    r = b.results
    its = -((-(N - 3)) // step)
    esize = 4 if code.startswith('float') else 8
    per_line = line / (esize * step)
    ctx.close(r['Runtime (per repetition) [s]'], per, 'runtime')
    ctx.close(float(r['Iterations per repetition']), its, 'iterations')
    ctx.close(r['Iterations per cacheline'], per_line, 'iterations per cacheline')
    ctx.close(float(r['Runtime (per cacheline update) [cy/CL]']) * its * reps,
              runtime * clock * 10 ** 9 * per_line, 'cycles per cacheline')
    ctx.close(float(r['Performance [MFLOP/s]']) * per, its * 2 / 1e6, 'MFLOP/s')
    for u in ('MLUP', 'MIt'):
        ctx.close(float(r['Performance [%s/s]' % u]) * per, its / 1e6, u + '/s')
    if likwid.volume:
        ctx.close(r['MEM volume (per repetition) [B]'] * reps, likwid.volumes[len(base) - 1] * 1e9,
                  'memory volume')
    else:
        ctx.check(r['MEM volume (per repetition) [B]'] != r['MEM volume (per repetition) [B]'],
                  'no volume')
    if likwid.bandwidth:
        ctx.close(r['MEM BW [MByte/s]'], likwid.bws[len(base) - 1], 'memory bandwidth')
    else:
        ctx.check(r['MEM BW [MByte/s]'] != r['MEM BW [MByte/s]'], 'no bandwidth')
    if not phenoecm or cores > 1:
        ctx.check(len(base) == len(likwid.calls), 'no counters needed')
        ctx.check(r['ECM'] is None and r['data transfers'] is None, 'no ECM model')
    else:
        cls = its * reps / per_line

        def value(name):
            return evaluate(ctx, m[name], likwid)
        for level, c in zip(['L1', 'L2', 'L3', 'MEM'], counters):
            for what, metric in c.items():
                ctx.close(float(r['data transfers'][level][what]) * cls,
                          evaluate(ctx, metric, likwid), 'transfers per cacheline')
        e = r['ECM']
        ctx.close(float(e['T_OL']) * cls, value('OL'), 'overlapping cycles')
        ctx.close(float(e['T_nOL']) * cls, value('l1l') / 2, 'load cycles')
        ctx.close(float(e['T_L1L2']) * cls * throughput[0], (value('l2l') + value('l2s')) * line,
                  'L1-L2 cycles')
        ctx.close(float(e['T_L2L3']) * cls * throughput[1], (value('l2s') + value('l1s')) * line,
                  'L2-L3 cycles')
        ctx.close(float(e['T_MEM']) * cls * bw,
                  (value('l3m') + value('l3e')) * line * clock * 10 ** 9, 'memory cycles')
        asked = machine.asked[-1]
        ctx.close(float(asked[0]), value('l3m'), 'read streams')
        ctx.close(float(asked[1]), value('l3e'), 'write streams')
    ctx.check(lock.closed == 1, 'executable is released')


def h_env(ctx):
    """the environment is as it was, however a measurement ends"""
    env = ctx.choice('OMP_NUM_THREADS', [None, '', '3', '0'])
    end = ctx.choice('end', [None, 'fails', 'stopped'])
    value = ctx.choice('value', [None, '', '7'])
    seen = []
    error = benchmark.subprocess.CalledProcessError

    class S:
        CalledProcessError = error

        @staticmethod
        def check_output(cmd, **kw):
            seen.append(os.environ.get('OMP_NUM_THREADS'))
            if end == 'fails':
                raise error(1, cmd)
            if end == 'stopped':
                raise KeyboardInterrupt()
            return b'TABLE,x\nRuntime (RDTSC) [s],0.5\n'
    benchmark.subprocess = S
    benchmark.find_executable = lambda p: '/usr/bin/' + p
    old = os.environ.get('OMP_NUM_THREADS')

    def put(v):
        os.environ.pop('OMP_NUM_THREADS', None)
        if v is not None:
            os.environ['OMP_NUM_THREADS'] = v
    try:
        put(env)
        try:
            r = benchmark.perfctr(['/x/bench'], 2)
        except (SystemExit, KeyboardInterrupt) as e:
            ctx.check(end is not None, 'measurement works')
            ctx.check(isinstance(e, SystemExit) == (end == 'fails'), 'kind of failure')
            if end == 'fails':
                ctx.check(e.code not in (0, None), 'failure is no success')
        else:
            ctx.check(end is None, 'failure is noticed')
            ctx.check(r.get('Runtime (RDTSC) [s]') == 0.5, 'result')
        ctx.check(os.environ.get('OMP_NUM_THREADS') == env, 'environment is restored')
        ctx.check(seen == [None], 'number of threads is not preset')
        try:
            with benchmark.fix_env_variable('OMP_NUM_THREADS', value):
                ctx.check(os.environ.get('OMP_NUM_THREADS') == value, 'value within')
                if end:
                    raise ValueError()
        except ValueError:
            pass
        ctx.check(os.environ.get('OMP_NUM_THREADS') == env, 'environment is restored')
    finally:
        put(old)


def cases(tier):
    q = tier == 'quick'
    cs = []
    for parts in (['plain', 'group'], ['range'], ['plain', 'range', 'group']) + (
            () if q else (['plain', 'range', 'range'], ['group', 'plain', 'range'])):
        cs.append(Case('registers-' + '-'.join(parts), h_registers, parts=parts,
                       max_paths=100000, time=100 if q else 1500))
    regs = sorted(REGISTERS)
    for count, use in ((2, regs), (3, regs[::2]), (3, regs[1::2])) if q else (
            (3, regs), (4, regs[::2]), (4, regs[1::2]), (5, ['PMC0', 'PMC[0-1]', 'PMC0|FIXC1'])):
        cs.append(Case('runs-%d-%d' % (count, regs.index(use[0])), h_runs, count=count, regs=use,
                       max_paths=200000, time=100 if q else 1500))
    cs.append(Case('environment', h_env, max_paths=1000, time=100,
                   reach=['environment is restored', 'failure is no success']))
    cs.append(Case('names', h_names, max_paths=1000, time=100))
    for shape in ('sum', 'diff', 'ratio') + (() if q else ('max',)):
        cs.append(Case('metric-' + shape, h_metric, shape=shape, max_paths=20000,
                       time=100 if q else 1500))
    for metrics in range(len(METRICS)):
        cs.append(Case('analyze-%d' % metrics, h_analyze, metrics=metrics, cores=1, runs=1,
                       symbolic_loop=False, max_paths=20000, time=200 if q else 1500,
                       reach=['T_MEM' and 'memory cycles']))
    for cores in (1, 4):
        cs.append(Case('runtime-%d' % cores, h_analyze, metrics=None, cores=cores,
                       runs=2 if q else 3, symbolic_loop=True, max_paths=20000,
                       time=200 if q else 1500, reach=['cycles per cacheline']))
    return cs
