"""C16: a result made from intermediates of earlier runs is the one made from scratch."""
from symx.runner import Case
from checks import fsmodel as fs
from checks.fsmodel import World, Machine, fake_open, same
from kerncraft import machinemodel as _mm
from kerncraft.kernel import KernelCode
from kerncraft.cacheprediction import LayerConditionPredictor, CacheSimulationPredictor

ASSUMPTIONS = ['files, compiler and analyzers are stand-ins whose results are functions of all '
               'their inputs', 'earlier and later runs use the same kernel source, kerncraft and '
               'environment; all machine files are older than the intermediates',
               'runs define the same constants (in any order, with any values)',
               'compiler flags contain neither "/" nor "_"; models keep machine files with equal '
               'identifier equal (see case identifier)']

CODE = ('double a[M][N], b[M][N]; double s;\n'
        'for(int j=1; j<M-1; ++j) for(int i=1; i<N-1; ++i) a[j][i] = b[j][i-1] + s*b[j-1][i+1];')
LINE = 'double a[N], b[N];\nfor(int i=60; i<N; ++i) a[i] = b[i-60] + b[i];'
SOURCE = 'dir/kernel.c'


class Level:
    cl_bits = 6

    def __init__(self, name, size):
        self.name, self._size = name, size

    def size(self):
        return self._size


class Sim:
    """simulator of a machine for a number of cores"""

    level = None

    def __init__(self, size):
        self.size = size
        self.first_level = Level('L1', self.level or size)

    def levels(self, with_mem=True):
        return [self.first_level] + ([Level('MEM', None)] if with_mem else [])

    def count_invalid_entries(self):
        return 0

    def loadstore(self, offsets, length=1):
        pass

    def reset_stats(self):
        pass

    def stats(self):
        for n in range(2):
            yield {k: self.size * 10 + n
                   for k in ('LOAD_count', 'HIT_count', 'MISS_count', 'STORE_count', 'EVICT_count',
                             'LOAD_byte', 'HIT_byte', 'MISS_byte', 'STORE_byte', 'EVICT_byte')}

    def print_stats(self, file=None):
        pass


class SmallSim(Sim):
    level = 512


class Config:
    """everything a run may be configured with"""

    def __init__(self, ctx, which, sizes=False):
        def i(name, lo, hi):
            return ctx.int('%s %s' % (name, which), lo, hi)
        self.name = i('machine', 1, 99)
        self.cacheline = 64 if sizes else i('cacheline', 16, 256)
        self.size = i('size', 500, 1500) if sizes else 1000
        self.parameter = i('parameter', 0, 99)
        self.isa = ctx.choice('isa %s' % which, ['x86', 'aarch64']) if not sizes else 'x86'
        self.compiler = i('compiler', 3, 20)
        self.flags = [i('flag1', 0, 9), i('flag2', 0, 9)]
        self.cores = i('cores', 1, 64)

    def machine(self):
        c = self
        m = Machine(identifier='m%s.yml' % c.name, cacheline=c.cacheline,
                    compiler='gcc-%s' % c.compiler,
                    flags=['-O%s' % c.flags[0], '-m%s' % c.flags[1]],
                    models={n: 'P%s' % c.parameter for n in ('OSACA', 'LLVM-MCA', 'IACA')},
                    isa=c.isa, sim=lambda cores: Sim(c.size - cores))
        m['memory hierarchy'] = [{'level': 'L1'}, {'level': 'MEM'}]
        return m

    def described_by_name(self, ctx, other):
        """machines with the same identifier are the same"""
        ctx.assume(ctx.implies(self.name == other.name,
                               ctx.all(self.cacheline == other.cacheline, self.size == other.size,
                                       self.parameter == other.parameter,
                                       self.isa == other.isa)))


def equal(ctx, a, b):
    """condition for results to be the same"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and ctx.all([equal(ctx, x, y) for x, y in zip(a, b)] or [True])
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and ctx.all([equal(ctx, a[k], b[k]) for k in a] or [True])
    if isinstance(a, str) and isinstance(b, str):
        return same(ctx, a, b)
    if a != a and b != b:       # not a number
        return True
    return a == b


class Run:
    def __init__(self, config, what, code=CODE, order='MN', values=(100, 200), args=()):
        self.config, self.what, self.code, self.order = config, what, code, order
        self.values, self.args = values, args

    def __call__(self):
        m = self.config.machine()
        k = KernelCode(self.code, m, filename=SOURCE)
        for n in self.order:
            k.set_constant(n, self.values['MN'.index(n)])
        return self.do(k, m)

    def do(self, k, m):
        def content(path, lock):
            with fake_open(path) as f:
                r = f.read()
            lock.close()
            return r
        what = self.what
        if what == 'header':
            _, lock = k.get_kernel_header()
            return content(k.get_intermediate_location(
                'kernel.h', machine_and_compiler_dependent=False), lock)
        if what == 'code':
            return content(*k.get_kernel_code(*self.args))
        if what == 'main':
            return content(*k.get_main_code())
        if what == 'compile':
            return content(*k.compile_kernel(*self.args))
        if what == 'build':
            return content(*k.build_executable(None, False, *self.args))
        if what == 'incore':
            return k.incore_analysis(*self.args)
        if what == 'lc':
            p = LayerConditionPredictor(k, m, cores=self.config.cores)
        else:
            m.sim = lambda cores: SmallSim(self.config.size - cores)
            real = k.compile_global_offsets
            k.compile_global_offsets = lambda iteration=0, spacing=0: \
                ('range', iteration.start, iteration.stop) if hasattr(iteration, 'start') else \
                real(iteration=iteration, spacing=spacing)
            p = CacheSimulationPredictor(k, m, cores=self.config.cores)
        return [p.get_loads(), p.get_misses(), p.get_hits(), p.get_evicts(), p.get_stores()]


def compare(ctx, earlier, later, label='same'):
    """the later run after the earlier one, and without"""
    def world():
        w = World(ctx, now=2000)
        w.mtimes[SOURCE] = 0
        fs.install(w)
        return w
    w = world()
    try:
        expected = later()
        w = world()
        for e in earlier:
            e()
        got = later()
    except (Exception, SystemExit) as e:
        ctx.fail('no error', '%s: %s' % (type(e).__name__, e))
        return
    for p in w.problems:
        ctx.fail('files', '%s: %s' % p)
    ctx.check(equal(ctx, got, expected), label, 'got %r instead of %r' % (got, expected))


def files(ctx, first, second):
    """generated code, objects and executables"""
    a, b = Config(ctx, 'A'), Config(ctx, 'B')
    a.described_by_name(ctx, b)
    options = {'code': [(False,), (True,)], 'build': [(False,), (True,)],
               'compile': [(x, y) for x in (False, True) for y in (False, True)]}
    x = ctx.choice('first', options.get(first, [()]))
    y = ctx.choice('second', options.get(second, [()]))
    order = ctx.choice('order', ['MN', 'NM'])
    compare(ctx, [Run(a, first, order=order, args=x)], Run(b, second, args=y))


def history(ctx, steps):
    """more runs in a row"""
    cs = [Config(ctx, 'ABCD'[n]) for n in range(len(steps))]
    for n, c in enumerate(cs):
        for d in cs[:n]:
            c.described_by_name(ctx, d)
    runs = []
    for n, (c, s) in enumerate(zip(cs, steps)):
        order = ctx.choice('order%d' % n, ['MN', 'NM'])
        args = (ctx.choice('omp%d' % n, [False, True]),) if s == 'build' else ()
        runs.append(Run(c, s, order=order, args=args))
    compare(ctx, runs[:-1], runs[-1])


def incore(ctx, before, model_a, model_b):
    """in-core analyses"""
    a, b = Config(ctx, 'A'), Config(ctx, 'B')
    a.described_by_name(ctx, b)

    def args(which, model):
        block = ctx.choice('block %s' % which, ['auto', 'number'])
        if block == 'number':
            block = ctx.int('block number %s' % which, 0, 9)
        inc = ctx.choice('increment %s' % which, ['auto', 'auto_with_manual_fallback', 8, -16, 16])
        return (block, inc, model)
    first = Run(a, 'incore', args=args('A', model_a)) if before == 'incore' else \
        Run(a, before, args=(True,) if before == 'compile' else ())
    compare(ctx, [first], Run(b, 'incore', args=args('B', model_b)))


def prediction(ctx, what):
    """cache predictions"""
    a, b = Config(ctx, 'A', sizes=True), Config(ctx, 'B', sizes=True)
    a.described_by_name(ctx, b)
    values = [(100, 20000), (100, 40000)]
    va, vb = ctx.choice('values A', values), ctx.choice('values B', values)
    compare(ctx, [Run(a, what, code=LINE, order='N', values=va)],
            Run(b, what, code=LINE, order='N', values=vb))


def identifier(ctx, both):
    """machine models that are not the same have different identifiers"""
    def data(which):
        return {'model name': 'X', 'clock': ctx.choice('clock ' + which, [1, 2]),
                'memory hierarchy': [{'level': 'L1', 'size': ctx.choice('size ' + which, [1, 2])}],
                'non-overlapping model': {'ports': ctx.choice('ports ' + which,
                                                              [['1', '2'], ['12'], []])}}

    def model(which, path):
        m = object.__new__(_mm.MachineModel)
        m._path, m._data, m._args = path, data(which), None
        return m
    a = model('A', 'x/m.yml' if both else None)
    b = model('B', ctx.choice('path', ['x/m.yml', 'y/m.yml', 'y/n.yml', None]) if both else None)
    try:
        ia, ib = a.get_identifier(), b.get_identifier()
    except Exception as e:
        ctx.fail('identifier', '%s: %s' % (type(e).__name__, e))
        return
    ctx.check(isinstance(ia, str) and '/' not in ia and ia not in ('', '.', '..'), 'name')
    ctx.check(ia != ib or a._data == b._data, 'identifier', ia)
    ctx.check(a._path != b._path or a._data != b._data or ia == ib, 'same', ia)


def cases(tier):
    q = tier == 'quick'
    T = 100 if q else 600
    P = 20000
    res = []
    for first, second in (('header', 'header'), ('code', 'code'), ('main', 'main'),
                          ('compile', 'compile'), ('build', 'build'), ('header', 'build'),
                          ('code', 'build'), ('main', 'build'), ('compile', 'build'),
                          ('build', 'compile'), ('header', 'compile')):
        res.append(Case('%s %s' % (first, second), files, 'any two configurations', time=T,
                        max_paths=P, first=first, second=second, reach=('same',)))
    for what in ('lc', 'csim'):
        res.append(Case(what, prediction, 'any two machines and cores', time=T, max_paths=P,
                        what=what, reach=('same',)))
    models = ('OSACA', 'LLVM-MCA', 'IACA')
    for before, x, y in [('incore', x, y) for x in models for y in models if not q or x == y or
                         y == 'OSACA'] + [('compile', None, 'IACA'), ('build', None, 'OSACA')]:
        res.append(Case('%s %s %s' % (before, x, y), incore, 'any two configurations', time=T,
                        max_paths=P, before=before, model_a=x, model_b=y, reach=('same',)))
    for steps in (('main', 'compile', 'build'),) + (() if q else (
            ('build', 'build', 'build'), ('header', 'main', 'compile', 'build'))):
        res.append(Case(' '.join(steps), history, 'any configurations', time=T, max_paths=P,
                        steps=steps, reach=('same',)))
    for both in (False, True):
        res.append(Case('identifier %s' % ('of files' if both else 'of models'), identifier,
                        'machine descriptions that differ somewhere', time=T, both=both,
                        reach=('identifier',)))
    return res
