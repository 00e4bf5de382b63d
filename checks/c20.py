"""C20: the command line analyses every combination of constants with every model once."""
import argparse
import io
import re

from symx.runner import Case
from kerncraft import kerncraft as cli
from checks.util import mk_kernel

ASSUMPTIONS = ['argparse and pickle work', 'floats are exact reals (not for logarithmic ranges)',
               'a constant with values of its own may or may not take the default values, too']


class Code(io.StringIO):
    name = '/x/kernel.c'


class Machine(io.IOBase):
    name = '/x/machine.yml'

    def close(self):
        pass


class Store:
    name = '/x/store'

    def __init__(self, files):
        self.files = files

    def seek(self, n):
        pass

    def close(self):
        pass

    def read(self):
        return self.files.get(self.name)


KERNELS = {
    'two': ('double a[N][M], b[M];\nfor(int j=0; j<N; ++j)\n  for(int i=1; i<M-1; ++i)\n'
            '    a[j][i] = b[i-1];\n', ['M', 'N']),
    'bound': ('double a[5000], s;\nfor(int i=0; i<N; ++i)\n  s = s + a[i];\n', ['N']),
    'index': ('double a[900], b[5000];\nfor(int i=0; i<900; ++i)\n  a[i] = b[i+K] + b[L];\n',
              ['K', 'L']),
    'none': ('double a[900];\nfor(int i=0; i<900; ++i)\n  a[i] = 1.0;\n', []),
    'description': ("""
loops:
- {index: i, start: 0, stop: N, step: S}
arrays:
  a: {type: !!python/tuple ['double'], dimension: [5000]}
data sources: {}
data destinations:
  a: [[i]]
flops: {}
""", ['N', 'S'])}


def h_run(ctx, kernel, names, models, fail=False, stored=False):
    code, required = KERNELS[kernel]
    define = []
    for n, name in enumerate(names):
        if name == '?':
            name = ctx.choice('name%d' % n, required + ['.', 'X'])
        size = ctx.choice('count%d' % n, [1, 2]) if len(names) < 3 or n == 0 else 1
        define.append([name, [ctx.int('value%d_%d' % (n, m), 20, 21 + n // 2) for m in range(size)]])
    files = {}
    args = argparse.Namespace(
        machine=Machine(), code_file=Code(code), store=None, json=None, verbose=0,
        define=[[n, list(v)] for n, v in define], pmodel=list(models), asm_block='auto', unit=None,
        kernel_description=kernel == 'description', clean_intermediates=False, cores=2)
    calls, saved = [], []
    broken = ctx.choice('fails at', range(5)) if fail else None

    def model(name):
        class Model:
            def __init__(self, kernel, machine, args, parser):
                self.kernel = kernel

            def analyze(self):
                if fail and len(calls) == broken:
                    raise OverflowError('model fails')
                self.results = {'number': len(calls)}
                calls.append((name, {str(k): v for k, v in self.kernel.constants.items()}))

            def report(self, output_file):
                print('report of', name, file=output_file)
        Model.name = name
        return Model
    cli.models = type('Models', (), {n: model(n) for n in ('ECM', 'Roofline', 'LC')})
    cli.MachineModel = lambda path, args=None: None
    old = {'earlier': 1}
    if stored:
        args.store = Store(files)
        if ctx.choice('earlier results', [False, True]):
            files['/x/store'] = dict(old)

        class Pickle:
            @staticmethod
            def load(f):
                data = f.read()
                if data is None:
                    raise EOFError
                return dict(data)

            @staticmethod
            def dump(data, f):
                files[f.path] = dict(data)
        cli.pickle = Pickle
        had = '/x/store' in files

        class File:
            def __init__(self, path, mode):
                self.path = path
                ctx.check(path != '/x/store', 'stored results are not overwritten in place')
                files[path] = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        cli.open = File

        class Move:
            @staticmethod
            def move(src, dst):
                files[dst] = files.pop(src)
                saved.append(len(calls))
        cli.shutil = Move
    out = io.StringIO()
    given = {n: [v for m, vs in define if m == n for v in vs] for n in required}
    default = [v for n, vs in define if n == '.' for v in vs]
    missing = [n for n in required if not given[n] and not default]
    failed = False
    try:
        result = cli.run(None, args, out)
    except ValueError:
        ctx.check(missing != [], 'constants given')
        ctx.check(calls == [], 'nothing is analyzed without all constants')
        return
    except OverflowError:
        failed = True
    ctx.check(missing == [], 'constants missing')
    unique = [m for n, m in enumerate(models) if m not in models[:n]]
    # what was analyzed is asked for
    for name, consts in calls:
        ctx.check(sorted(consts) == required, 'constants of the kernel', str(consts))
        ctx.check(name in unique, 'models')
        for c in required:
            ctx.check(ctx.any([consts[c] == v for v in given[c] + default]), 'value asked for')
    # once
    for n, (name, consts) in enumerate(calls):
        for other, b in calls[:n]:
            if name == other:
                ctx.check(ctx.not_(ctx.all([consts[c] == b[c] for c in required])),
                          'analyzed once', str(calls))
    if not failed:
        for combination in product([given[c] or default for c in required]):
            for m in unique:
                ctx.check(ctx.any([ctx.all([consts[c] == v for c, v in zip(required, combination)])
                                   for name, consts in calls if name == m]),
                          'everything asked for is analyzed', str(calls))
        text = out.getvalue()
        for m in unique:
            ctx.check(text.count('report of ' + m) == len([c for c in calls if c[0] == m]),
                      'reports')
        check_results(ctx, result, calls, old if stored and had else {})
    if stored:
        if failed:
            # whole sets of constants are kept
            done = len(calls) // len(unique) * len(unique)
            stored_now = files.get('/x/store') or {}
            check_results(ctx, stored_now, calls[:done], old if had else {})
        else:
            check_results(ctx, files['/x/store'], calls, old if had else {})
        ctx.check([f for f in files if f != '/x/store'] == [], 'no files left behind')


def product(lists):
    if not lists:
        yield ()
        return
    for v in lists[0]:
        for r in product(lists[1:]):
            yield (v,) + r


def check_results(ctx, result, calls, old):
    ctx.check(len(result) == len(calls) + len(old), 'one result per analysis', str(result))
    for k, v in old.items():
        ctx.check(result.get(k) == v, 'results of earlier runs are kept')
    seen = []
    for k, v in result.items():
        if k == 'earlier':
            continue
        d = dict(k)
        name, consts = calls[v['number']]
        seen.append(v['number'])
        ctx.check(d['pmodel'] == name, 'result belongs to its model')
        got = dict(d['define'])
        ctx.check(sorted(got) == sorted(consts), 'result belongs to its constants')
        for c in got:
            ctx.check(got[c] == consts[c], 'result belongs to its constants', c)
        ctx.check(d['machine'] == '/x/machine.yml' and d['code_file'] == '/x/kernel.c' and
                  d['cores'] == 2, 'result belongs to its arguments')
    ctx.check(sorted(seen) == list(range(len(calls))), 'all results are there')


def values(text, dest=None):
    ns = argparse.Namespace() if dest is None else dest
    action = cli.AppendStringRange(['-D'], 'define', nargs=2)
    action(None, ns, ['N', text])
    return ns.define


def h_text(ctx, length):
    """every text is a number, a range or refused"""
    text = ctx.str('text', length, '013-:x.')
    kind, got = 'wrong', None
    try:
        got = values(text)
        kind = 'fine'
    except argparse.ArgumentError:
        pass
    except AssertionError:
        kind = 'too few'
    digit = [ctx.fork(c in '013') for c in text]
    chars = ['0' if d else ('-' if ctx.fork(c == '-') else (':' if ctx.fork(c == ':') else 'x'))
             for c, d in zip(text, digit)]
    shape = ''.join(chars)
    parts = re.fullmatch('(0+)(?:(-)(0+)(?:(:)(0+))?)?', shape)
    ctx.check(parts is not None or kind == 'wrong', 'refused', shape)
    if parts is None:
        return
    ctx.check(kind != 'wrong', 'accepted', shape)

    def value(group):
        a, b = parts.span(group)
        v = 0
        for c in text[a:b]:
            v = v * 10 + (0 if ctx.fork(c == '0') else 1 if ctx.fork(c == '1') else 3)
        return v
    start = value(1)
    if not parts.group(2):
        want = [start]
    elif not parts.group(4):
        want = list(range(start, value(3) + 1))
    else:
        stop, num = value(3), value(5)
        ctx.check((kind == 'too few') == (num < 2), 'at least two values', shape)
        if num < 2:
            return
        want = [start] + got[0][1][1:-1] + [stop]
        ctx.check(len(got[0][1]) == num, 'number of values', shape)
    ctx.check(got == [['N', want]], 'values', '%s: %s' % (shape, got))


def h_space(ctx, num):
    start, stop = ctx.int('start', 0, 10 ** 6), ctx.int('stop', 0, 10 ** 6)
    got = list(cli.space(start, stop, num))
    ctx.check(len(got) == num, 'number of values')
    ctx.check(got[0] == start, 'first value')
    ctx.check(got[-1] == stop, 'last value')
    for n, g in enumerate(got):
        off = g * (num - 1) - (start * (num - 1) + n * (stop - start))
        ctx.check(ctx.all([2 * off <= num - 1, 2 * off >= 1 - num]), 'evenly spaced')
    half = list(cli.space(start, stop, num, endpoint=False))
    ctx.check(len(half) == num, 'number of values without the end')
    for n, g in enumerate(half):
        off = g * num - (start * num + n * (stop - start))
        ctx.check(ctx.all([2 * off <= num, 2 * off >= -num]), 'evenly spaced without the end')


LOGS = [(1, 1024, 11, 2), (10, 100000, 5, 10), (3, 3 ** 7, 4, 3), (1, 1000, 4, None),
        (100, 5000000, 7, None), (7, 900, 2, 16), (5000, 2, 5, 10)]


def h_log(ctx):
    start, stop, num, base = ctx.choice('range', LOGS)
    sep = ctx.choice('separator', ['', ':'])
    text = '%d-%d:%d%slog' % (start, stop, num, sep) + ('' if base is None else sep + str(base))
    got = values(text)[0][1]
    ctx.check(len(got) == num, 'number of values')
    for n, g in enumerate(got):
        want = start * (stop / start) ** (n / (num - 1))
        ctx.check(abs(g - want) <= 0.5 + 1e-6 and isinstance(g, int), 'logarithmically spaced',
                  '%s %s' % (g, want))
    ctx.check(got[0] == start and got[-1] == stop, 'first and last value')


WRONG = ['', 'x', '1e6', '10x', '-5', '1-', '1-2:', '1-2:3foo', '1.5', '1-2-3', '1-2:3log2x', ' ',
         '1-2:3lo', '10 20', '0x10', '1-9:3:linear']


def h_wrong(ctx):
    text = ctx.choice('text', WRONG)
    try:
        values(text)
    except argparse.ArgumentError:
        text = None
    ctx.check(text is None, 'refused', text)


def h_arguments(ctx):
    """identifiers tell arguments apart, but for those that do not matter"""
    base = dict(machine=Machine(), code_file=Code(''), define=[['N', [1, [2, 3]]]], pmodel=['ECM'],
                verbose=0, store=None, unit='cy/CL', cores=1, cache_predictor='SIM', compiler=None,
                asm_block='auto', pointer_increment='auto', incore_model='OSACA',
                compiler_flags=None, clean_intermediates=False)
    key = ctx.choice('argument', sorted(base))
    other = dict(base)
    m, c = Machine(), Code('')
    m.name, c.name = '/y/machine.yml', '/y/kernel.c'
    other[key] = {'machine': m, 'code_file': c, 'define': [['N', [1, [2, 4]]]],
                  'pmodel': ['ECM', 'Roofline'], 'verbose': 2, 'store': 'file', 'unit': 'It/s',
                  'cores': ctx.int('cores', 2, 100), 'cache_predictor': 'LC', 'compiler': 'gcc',
                  'asm_block': 1, 'pointer_increment': 8, 'incore_model': 'IACA',
                  'compiler_flags': '-O1', 'clean_intermediates': True}[key]

    # what argparse opens are files
    class File(io.IOBase):
        pass
    for d in (base, other):
        f = File()
        f.name = d['machine'].name
        d['machine'] = f
    a = cli.identifier_from_arguments(argparse.Namespace(**base))
    b = cli.identifier_from_arguments(argparse.Namespace(**other))
    ctx.check(hash(a) is not None, 'can be used as key')
    ctx.check(ctx.iff(a == b, key in ('verbose', 'store', 'unit', 'clean_intermediates')),
              'arguments are told apart', key)
    x = cli.identifier_from_arguments(argparse.Namespace(**base), define=(('N', 1),), pmodel='ECM')
    y = cli.identifier_from_arguments(argparse.Namespace(**base), define=(('N', 2),), pmodel='ECM')
    z = cli.identifier_from_arguments(argparse.Namespace(**base), define=(('N', 1),), pmodel='LC')
    ctx.check(x != y and x != z and y != z, 'constants and models are told apart')


def h_check(ctx):
    given = ctx.choice('unit', [None, 'It/s'])
    pm = [m for m in ('ECM', 'RooflineFLOP', 'RooflineASM', 'Benchmark') if ctx.choice(m, [0, 1])]
    block = ctx.choice('block', ['auto', 'manual', '3', '-1', 'x', '1.5'])
    args = argparse.Namespace(asm_block=block, unit=given, pmodel=pm, store=None, json=None,
                              code_file=None, machine=None)

    class Parser:
        def error(self, text):
            raise KeyError(text)
    try:
        cli.check_arguments(args, Parser())
    except KeyError:
        ctx.check(block in ('x', '1.5'), 'block is fine')
        return
    ctx.check(block not in ('x', '1.5'), 'block is refused')
    ctx.check(args.asm_block == (block if block in ('auto', 'manual') else int(block)), 'block')
    roof = any(m.startswith('Roofline') for m in pm)
    ctx.check(args.unit == (given or ('FLOP/s' if roof else 'cy/CL')), 'unit', str(pm))


def build(ctx, depth, name):
    kind = ctx.choice(name, ['int', 'real', 'str', 'sympy'] if depth == 0 else
                      ['int', 'list', 'tuple', 'dict', 'none'])
    if kind == 'int':
        v = ctx.int(name + 'v', -10, 10)
        return v, v
    if kind == 'real':
        v = ctx.real(name + 'v', -10, 10)
        return v, v
    if kind == 'str':
        return 'text', 'text'
    if kind == 'none':
        return None, 'None'
    if kind == 'sympy':
        import sympy
        x = sympy.Symbol('x') + 1
        return x, str(x)
    a, b = build(ctx, depth - 1, name + 'a'), build(ctx, depth - 1, name + 'b')
    if kind == 'list':
        return [a[0], b[0]], [a[1], b[1]]
    if kind == 'tuple':
        return (a[0], b[0]), (a[1], b[1])
    return {('k', 1): a[0], 'b': b[0]}, {"('k', 1)": a[1], 'b': b[1]}


def h_json(ctx):
    obj, want = build(ctx, 2, 'o')
    same(ctx, cli.jsonify_obj(obj), want)


def same(ctx, got, want):
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and list(got) == list(want), 'keys', str(got))
        for k in want:
            same(ctx, got[k], want[k])
    elif isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), 'elements', str(got))
        for g, w in zip(got, want):
            same(ctx, g, w)
    elif isinstance(want, str):
        ctx.check(got == want, 'text', str(got))
    else:
        ctx.check(got == want, 'value')


def cases(tier):
    q = tier == 'quick'
    t = 100 if q else 1500
    two = ['ECM', 'Roofline', 'ECM']
    cs = [Case('run-two-any', h_run, kernel='two', names='??', models=['ECM'], max_paths=20000,
               time=t, reach=['everything asked for is analyzed']),
          Case('run-two-three', h_run, kernel='two', names='NM?', models=two, max_paths=20000,
               time=t, reach=['everything asked for is analyzed']),
          Case('run-none', h_run, kernel='none', names='?', models=two, max_paths=20000, time=t,
               reach=['everything asked for is analyzed'])]
    for k in ('bound', 'index', 'description'):
        names = '??' if q else '???'
        cs.append(Case('run-' + k, h_run, kernel=k, names=names, models=['ECM'], max_paths=50000,
                       time=t, reach=['everything asked for is analyzed']))
    for fail in (False, True):
        cs.append(Case('run-stored-%s' % fail, h_run, kernel='two', names=['N', 'M'], models=two,
                       fail=fail, stored=True, max_paths=20000, time=t,
                       reach=['one result per analysis']))
    for length in range(1, 5 if q else 7):
        cs.append(Case('text-%d' % length, h_text, length=length, max_paths=100000, time=t, conc_cap=400,
                       reach=['accepted']))
    for num in (2, 3, 5) + (() if q else (7, 16)):
        cs.append(Case('space-%d' % num, h_space, num=num, max_paths=1000, time=t,
                       reach=['evenly spaced']))
    for name, h in (('log', h_log), ('wrong', h_wrong), ('arguments', h_arguments),
                    ('check', h_check), ('json', h_json)):
        cs.append(Case(name, h, max_paths=50000, time=t))
    return cs
