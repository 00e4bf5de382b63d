"""C23: machine descriptions state what the tools report about the machine."""
import io
import os
import shutil
import tempfile

from symx.runner import Case
from kerncraft import machinemodel
from kerncraft.prefixedunit import PrefixedUnit
from checks import models

ASSUMPTIONS = ['likwid-topology and /proc/cpuinfo describe the machine in their usual layout',
               'the transparent hugepage setting can be read',
               'arithmetic on quantities is independent of the prefix chosen (decided by C02)', 'floats are exact reals']


class Bytes:
    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text


class System:
    """the machine the tools see"""

    def __init__(self, ctx, fixed=False, blank='\t\t'):
        self.ctx = ctx
        if fixed:
            self.sockets, self.cores, self.threads, self.numa = 2, 10, 2, 2
            self.type, self.name, self.huge, self.clock = 'Some CPU (R)', 'Some CPU @ 2 GHz', \
                'always', 2.0
        self.levels = []
        self.blank = blank

    def topology(self):
        b = self.blank
        t = ['-' * 80, 'CPU name:' + b + 'Name of CPU', 'CPU type:' + b + self.type,
             'CPU stepping:' + b + '4', '*' * 80, 'Hardware Thread Topology', '*' * 80,
             'Sockets:' + b + str(self.sockets), 'Cores per socket:' + b + str(self.cores),
             'Threads per core:' + b + str(self.threads), '-' * 80,
             'HWThread        Thread          Core            Socket          Available',
             '0               0               0               0               *', '-' * 80,
             'Socket 0:               ( 0 1 )', '-' * 80, '*' * 80, 'Cache Topology', '*' * 80]
        for n, (size, unit, groups) in enumerate(self.levels):
            t += ['Level:' + b + str(n + 1), 'Size:' + b + str(size) + ' ' + unit,
                  'Cache groups:' + b + ' '.join(['( 0 1 )'] * groups), '-' * 80]
        t += ['*' * 80, 'NUMA Topology', '*' * 80, 'NUMA domains:' + b + str(self.numa), '-' * 80,
              'Domain:' + b + '0', 'Processors:' + b + '( 0 1 )', 'Total memory:' + b + '9.5 MB']
        return '\n'.join(t) + '\n'

    def install(self):
        system = self

        def check_output(cmd, *a, **kw):
            if (cmd if isinstance(cmd, str) else cmd[0]) != 'likwid-topology':
                raise AssertionError('unexpected command %s' % (cmd,))
            return Bytes(system.topology())

        def fake_open(path, mode='r', *a, **kw):
            if path == '/cpuinfo' or path == '/proc/cpuinfo':
                text = 'processor\t: 0\nvendor\t: X\n'
                if system.name is not None:
                    text += 'model name\t: ' + system.name + '\n'
                return io_text(text + 'flags\t\t: a b\n')
            if path == '/sys/kernel/mm/transparent_hugepage/enabled':
                return io_text(' '.join('[%s]' % h if h == system.huge else h
                                        for h in ['always', 'madvise', 'never']) + '\n')
            raise AssertionError('unexpected file ' + path)
        machinemodel.subprocess = type('S', (), {'check_output': staticmethod(check_output)})
        machinemodel.open = fake_open
        machinemodel.psutil = type('P', (), {'cpu_freq': staticmethod(
            lambda *a, **k: None if system.clock is None else
            type('F', (), {'current': system.clock})())})
        for f in ('get_likwid_topology', 'read_cpuinfo', 'get_machine_readouts',
                  'get_memory_hierarchy'):
            if hasattr(getattr(machinemodel, f, None), 'cache_clear'):
                getattr(machinemodel, f).cache_clear()


class io_text:
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        return self.text

    def close(self):
        pass

    def __iter__(self):
        return iter(self.text.split('\n'))


def model(data=None):
    if data is None:
        return machinemodel.MachineModel()
    data.setdefault('kerncraft version', machinemodel.__version__)
    return machinemodel.MachineModel(machine_yaml=data)


def h_readouts(ctx):
    """numbers of the topology"""
    s = System(ctx, blank=ctx.choice('blank', ['\t\t', '    ']))
    s.sockets, s.cores = ctx.int('sockets', 1, 64), ctx.int('cores', 1, 512)
    s.threads, s.numa = ctx.int('threads', 1, 8), ctx.int('numa', 1, 512)
    s.type = ctx.choice('type', ['Intel Xeon (R) EP/EX', 'A: 64'])
    s.name = ctx.choice('name', [None, 'Intel(R) Xeon(R) CPU E5-2660 v2 @ 2.20GHz', 'A:  b'])
    s.huge = ctx.choice('huge', ['always', 'madvise', 'never'])
    s.clock = ctx.real('clock', 0, 6000, lo_open=True) if ctx.choice('has clock', [True, False]) \
        else None
    s.levels = [(32, 'kB', 2)]
    s.install()
    m = model()
    m.update(readouts=True, memory_hierarchy=False, benchmarks=False, machine_state=False,
             cpuinfo_path='/cpuinfo')
    ctx.check(m['sockets'] == s.sockets, 'sockets')
    ctx.check(m['cores per socket'] == s.cores, 'cores per socket')
    ctx.check(m['threads per core'] == s.threads, 'threads per core')
    d = m['NUMA domains per socket']
    ctx.check(ctx.any([ctx.all([d == 1, s.numa < s.sockets]),
                       ctx.all([d >= 1, d * s.sockets <= s.numa, s.numa < (d + 1) * s.sockets])]),
              'NUMA domains per socket')
    c = m['cores per NUMA domain']
    ctx.check(ctx.all([c * d <= s.cores, s.cores < (c + 1) * d]), 'cores per NUMA domain')
    ctx.check(m['model type'] == s.type, 'model type')
    ctx.check(m['model name'] == s.name, 'model name')
    ctx.check(m['transparent hugepage'] == s.huge, 'transparent hugepage')
    ctx.check(m['kerncraft version'] == machinemodel.__version__, 'version')
    if s.clock is not None:
        ctx.close(m['clock'].base_value(), s.clock * 10 ** 6, 'clock')
        ctx.check(m['clock'].unit == 'Hz', 'unit')
    else:
        ctx.check(isinstance(m['clock'], str), 'no clock')
    ctx.check(m['memory hierarchy'] == 'INFORMATION_REQUIRED' and
              m['benchmarks'] == 'INFORMATION_REQUIRED', 'other entries are kept')


def h_hierarchy(ctx, levels):
    models.plain_units(ctx)
    s = System(ctx, True)
    s.sockets, s.cores = ctx.choice('sockets', [1, 3]), ctx.int('cores', 1, 128)
    s.threads = ctx.int('threads', 1, 8)
    s.levels = [(ctx.int('size%d' % n, 1, 4096), ctx.choice('unit%d' % n, ['kB', 'MB']),
                 ctx.choice('groups%d' % n, [1, 2, 5] if levels == 1 else [2, 5])) for n in range(levels)]
    for _, _, g in s.levels:
        ctx.assume(g <= s.sockets * s.cores)
    s.install()
    m = model()
    overwrite = ctx.choice('overwrite', [True, False])
    m.update(readouts=False, memory_hierarchy=True, benchmarks=False, machine_state=False,
             overwrite=overwrite, cpuinfo_path='/cpuinfo')
    ctx.check(m['sockets'] == 'INFORMATION_REQUIRED', 'other entries are kept')
    h = m['memory hierarchy']
    ctx.check([l['level'] for l in h] == ['L%d' % (n + 1) for n in range(levels)] + ['MEM'],
              'levels', str(h))
    for n, (size, unit, groups) in enumerate(s.levels):
        l = h[n]
        ctx.close(l['size per group'].base_value(), size * {'kB': 10 ** 3, 'MB': 10 ** 6}[unit],
                  'size')
        ctx.check(l['size per group'].unit == 'B', 'unit of size')
        ctx.check(l['groups'] == groups, 'groups')
        c = l['cores per group']
        ctx.check(ctx.all([c * groups <= s.sockets * s.cores,
                           s.sockets * s.cores < (c + 1) * groups]), 'cores per group')
        ctx.check(l['threads per group'] == c * s.threads, 'threads per group')
        want = 'L%d' % (n + 2) if n + 1 < levels else None
        ctx.check(l['cache per group'].get('load_from') == want, 'load_from')
        ctx.check(l['cache per group'].get('store_to') == want, 'store_to')
        ctx.check(('upstream throughput' in l) == overwrite, 'placeholders')
    l = h[-1]
    ctx.check(l['cores per group'] == s.cores, 'cores at memory')
    ctx.check(l['threads per group'] == s.cores * s.threads, 'threads at memory')
    ctx.check(l['size per group'] is None and 'cache per group' not in l, 'memory is no cache')


ENTRIES = ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
           'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']


def h_current(ctx):
    """comparison with the current machine"""
    s = System(ctx, True)
    s.sockets, s.cores, s.threads = (ctx.int(n, 1, 200) for n in ('sockets', 'cores', 'threads'))
    s.numa = s.sockets
    s.levels = [(32, 'kB', 2), (1, 'MB', 1)]
    s.install()
    data = {'model type': s.type, 'model name': s.name, 'NUMA domains per socket': 1,
            'transparent hugepage': s.huge, 'clock': 5, 'memory hierarchy': 'mine'}
    values = {k: ctx.int('described ' + k, 1, 200) for k in ('sockets', 'cores per socket',
                                                            'threads per core',
                                                            'cores per NUMA domain')}
    data.update(values)
    odd = ctx.choice('odd', [None] + [k for k in ENTRIES if k not in values])
    missing = ctx.choice('missing', [True, False]) if odd else False
    if missing:
        del data[odd]
    elif odd:
        data[odd] = 7
    before = dict(data)
    m = model(data)
    twice = [m.current_system(print_diff=ctx.choice('print', [False, True])), m.current_system()]
    want = ctx.all([odd is None, values['sockets'] == s.sockets,
                    values['cores per socket'] == s.cores,
                    values['threads per core'] == s.threads,
                    values['cores per NUMA domain'] == s.cores])
    for got in twice:
        ctx.check(ctx.iff(want, got), 'current system')
    ctx.check(set(m._data) == set(before) | {'kerncraft version'}, 'comparing changes nothing')
    m.update(readouts=True, memory_hierarchy=False, benchmarks=False, machine_state=False)
    ctx.check(m['memory hierarchy'] == 'mine', 'memory hierarchy is kept')
    ctx.check(ctx.any([m.current_system()]), 'updated description matches')


def h_apart(ctx):
    """models are independent of each other"""
    models.plain_units(ctx)
    s = System(ctx, True)
    s.levels = [(ctx.int('size', 1, 4096), 'kB', 2), (ctx.int('more', 1, 4096), 'MB', 1)]
    s.install()
    a, b = model(), model()
    parts = dict(readouts=ctx.choice('readouts', [True, False]), memory_hierarchy=True,
                 benchmarks=False, machine_state=False)
    a.update(**parts)
    what = ctx.choice('edit', ['level', 'cache', 'counters', 'drop', 'entry'])
    h = a['memory hierarchy']
    if what == 'level':
        h[0]['size per group'] = PrefixedUnit(1.0, 'M', 'B')
    elif what == 'cache':
        h[0]['cache per group']['load_from'] = 'L9'
    elif what == 'counters':
        h[1]['performance counter metrics']['loads'] = 'X:PMC0'
    elif what == 'drop':
        h.pop(0)
    else:
        a._data['sockets'] = 99
        a._data['clock'] = 5
    b.update(**parts)
    h = b['memory hierarchy']
    ctx.check(len(h) == 3, 'levels')
    ctx.close(h[0]['size per group'].base_value(), s.levels[0][0] * 1000, 'size of L1')
    ctx.close(h[1]['size per group'].base_value(), s.levels[1][0] * 10 ** 6, 'size of L2')
    ctx.check(h[0]['cache per group']['load_from'] == 'L2', 'load_from')
    ctx.check(h[1]['performance counter metrics']['loads'] != 'X:PMC0', 'counters')
    ctx.check(b['sockets'] != 99 and b['clock'] != 5, 'entries')


def h_version(ctx):
    """only descriptions for this version are taken"""
    if ctx.symbolic and hasattr(machinemodel, 'LooseVersion'):
        # comparison of versions is part of what is decided
        import importlib.util
        from symx import hook
        import distutils.version as v
        loader = hook.Loader('distutils_version', v.__file__)
        module = importlib.util.module_from_spec(
            importlib.util.spec_from_loader('distutils_version', loader))
        loader.exec_module(module)
        machinemodel.LooseVersion = module.LooseVersion
    major = ctx.choice('major', ['0', '1'])
    minor, patch = ctx.int('minor', 0, 30), ctx.int('patch', 0, 60)
    tail = ctx.choice('tail', ['', '.dev0', '.dev1'])
    v = '%s.%s.%s%s' % (major, minor, patch, tail)
    cur = [int(x) for x in machinemodel.__version__.split('.')[:3]]
    low = [int(x) for x in machinemodel.MIN_SUPPORTED_VERSION.split('.')[:3]]
    n = (int(major) * 1000 + minor) * 1000 + patch

    def flat(l):
        return (l[0] * 1000 + l[1]) * 1000 + l[2]
    try:
        m = model({'kerncraft version': v})
        taken = True
    except ValueError:
        taken = False
    if taken:
        ctx.check(ctx.all([n >= flat(low), n <= flat(cur)]), 'version is supported', v)
        ctx.check(m['kerncraft version'] == v, 'kept')
    else:
        ctx.check(ctx.any([n <= flat(low), n >= flat(cur)]), 'version is not supported', v)
        ctx.check(ctx.not_(ctx.all([n > flat(low), n < flat(cur)])), 'in between')


def h_dump(ctx):
    """descriptions are written as they are read"""
    path = tempfile.mkdtemp(prefix='c23')
    try:
        data = {'kerncraft version': machinemodel.__version__, 'sockets': 3, 'model name': None,
                'clock': PrefixedUnit(2.5, 'G', 'Hz'), 'x': '24 B/cy',
                'memory hierarchy': [{'level': 'L1', 'size per group': PrefixedUnit(
                    32.0, ctx.choice('prefix', ['', 'k', 'M']), 'B')}],
                'benchmarks': {'measurements': {'L1': {1: {'cores': [1, 2], 'results': {
                    'load': [PrefixedUnit(1.25, 'G', 'B/s')]}}}}}}
        m = model(data)
        target = ctx.choice('target', ['none', 'path', 'file', 'stream', 'own path'])
        f = os.path.join(path, 'm.yml')
        if target == 'none':
            text = m.dump()
        elif target == 'path':
            text = m.dump(f)
        elif target == 'own path':
            m.set_path(f)
            text = m.dump()
        elif target == 'file':
            with open(f, 'w') as fp:
                text = m.dump(fp)
        else:
            fp = io.StringIO()
            text = m.dump(fp)
            ctx.check(fp.getvalue() == text, 'written to stream')
        if target in ('none', 'stream'):
            ctx.check(os.listdir(path) == [], 'no file is written')
            with open(f, 'w') as fp:
                fp.write(text)
        with open(f) as fp:
            ctx.check(fp.read() == text, 'written to file')
        machinemodel.MachineModel._loaded_machine_yaml.clear()
        r = machinemodel.MachineModel(f)
        ctx.check(r._data == data, 'read again', repr(r._data))
        ctx.check(type(r['clock']) is PrefixedUnit and r['clock'].unit == 'Hz', 'quantity')
    finally:
        shutil.rmtree(path)


CASES = [
    Case('readouts', h_readouts, 'machines of <= 64 sockets, 512 cores, 512 NUMA domains',
         time=200),
    Case('hierarchy of 1 level', h_hierarchy, 'sizes <= 4096, 1024 cores', time=200, levels=1),
    Case('hierarchy of 3 levels', h_hierarchy, 'sizes <= 4096, 1024 cores', time=400, levels=3),
    Case('current system', h_current, '<= 200 sockets, cores and threads', time=300),
    Case('independent models', h_apart, 'any sizes <= 4096', time=200),
    Case('versions', h_version, 'versions 0.0.0 to 1.30.60', time=200),
    Case('dump', h_dump, 'one description, all targets', time=200),
]


def cases(tier):
    return CASES
