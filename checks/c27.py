"""C27: the compiler and flags asked for are used, and no results of others."""
import os
import shutil
import subprocess
import tempfile

from symx.runner import Case
from kerncraft import kernel as kmod
from kerncraft import machinemodel
from kerncraft.prefixedunit import PrefixedUnit
from checks import models
from checks.util import mk_kernel

ASSUMPTIONS = ['flags are separated by blanks', 'compilers do what they are asked for']
BLANKS = ' \t\n'


def words(ctx, text):
    """parts of text between blanks, as lists of characters"""
    res, new = [], True
    for c in text:
        if ctx.fork(ctx.any([c == b for b in BLANKS])):
            new = True
            continue
        if new:
            res.append([])
            new = False
        res[-1].append(c)
    return res


def h_choice(ctx, where, length):
    """call arguments come before the command line, the machine file is last"""
    text = {w: '-%s' % w for w in ('call', 'args', 'file')}
    used = ctx.str('text', length, alphabet='-a' + BLANKS)
    text[where] = used
    compilers = ['icc', 'clang', 'gcc']
    there = {c: ctx.choice('has ' + c, [True, False]) for c in compilers}
    machinemodel.find_executable = lambda c, *a: '/usr/bin/' + c if there.get(c) else None
    data = {'kerncraft version': machinemodel.__version__,
            'compiler': {c: '-file %s' % c for c in compilers}}
    if where == 'file':
        data['compiler']['clang'] = used
    call = {w: ctx.choice('call ' + w, [None, v]) for w, v in (('compiler', 'clang'), ('flags', text['call']))}
    arg = {w: ctx.choice('arg ' + w, [None, v])
           for w, v in (('compiler', 'gcc'), ('flags', text['args']))}
    args = models.Args(compiler=arg['compiler'], compiler_flags=arg['flags'])
    if arg['compiler'] is None and arg['flags'] is None and ctx.choice('no args', [True, False]):
        args = None
    m = machinemodel.MachineModel(machine_yaml=data, args=args)
    try:
        got = m.get_compiler(**call) if ctx.choice('by name', [True, False]) else \
            m.get_compiler(call['compiler'], call['flags'])
    except RuntimeError:
        ctx.check(call['compiler'] is None and arg['compiler'] is None and
                  not any(there.values()), 'no compiler')
        return
    compiler = call['compiler'] or arg['compiler'] or ([c for c in compilers if there[c]] + [None])[0]
    ctx.check(compiler is not None and got[0] == compiler, 'compiler', str(got[0]))
    if call['flags'] is not None:
        flags = call['flags']
    elif arg['flags'] is not None:
        flags = arg['flags']
    else:
        flags = data['compiler'][compiler]
    want = words(ctx, flags)
    ctx.check(isinstance(got[1], list) and len(got[1]) == len(want), 'number of flags', repr(got))
    for g, w in zip(got[1], want):
        ctx.check(len(g) == len(w), 'flag')
        ctx.check(ctx.all([a == b for a, b in zip(g, w)]), 'flag')
    # what is done with the flags does not show in later calls
    got[1].append('-c')
    again = m.get_compiler(**call)
    ctx.check(again[0] == compiler and len(again[1]) == len(want), 'same again', repr(again))


class Path:
    """paths of any text"""
    sep = '/'

    def __getattr__(self, n):
        return getattr(os.path, n)

    @staticmethod
    def join(a, *more):
        for b in more:
            if len(b) and bool(b[0] == '/'):
                a = b
            elif not len(a) or bool(a[-1] == '/'):
                a = a + b
            else:
                a = a + '/' + b
        return a


class Os:
    path = Path()

    def __getattr__(self, n):
        return getattr(os, n)

    @staticmethod
    def makedirs(*a, **k):
        pass


class Machine(dict):
    def __init__(self, compiler='gcc', flags=(), ident='id'):
        self.compiler, self.flags, self.ident = compiler, flags, ident

    def get_compiler(self):
        return self.compiler, list(self.flags)

    def get_identifier(self):
        return self.ident


def location(machine, filename='/x/k.c', name='kernel.o', **kw):
    kmod.os = Os()
    kmod.reduce_path = lambda p: p
    return mk_kernel('double a[9];\nfor(int i=0; i<9; ++i) a[i] = 1.0;\n', None, machine,
                     filename).get_intermediate_location(name, **kw)


def h_flags(ctx, one, other):
    """intermediates of different flags differ"""
    def flags(n, shape):
        return ['-' + ctx.str('%s%d' % (n, i), l, alphabet='a_/%25F-')
                for i, l in enumerate(shape)]
    a, b = flags('a', one), flags('b', other)
    la, lb = location(Machine(flags=a)), location(Machine(flags=b))
    same = ctx.all([x == y for x, y in zip(a, b)]) if one == other else False
    ctx.check(ctx.iff(la == lb, same), 'intermediates of different flags', '%s %s' % (a, b))
    if one and one == other == [2]:
        # a directory for each, below that of the kernel
        ctx.check(la[:19] == '/x/.k.c_kerncraft/i', 'directory')
        n = 0
        for c in la:
            n = n + ctx.ite(c == '/', 1, 0)
        ctx.check(n == 6, 'no further directories', la)


def h_settings(ctx):
    """intermediates of different settings differ"""
    base = dict(compiler='gcc', flags=['-O2'], ident='m-1', filename='/x/k.c', name='kernel.s',
                other_dependencies=['OSACA', 'SKX', 'auto', 'auto'],
                machine_and_compiler_dependent=True)
    changes = {'compiler': ['clang', 'gcc-9'], 'flags': [[], ['-O3'], ['-O2', '-g']],
               'ident': ['m-2'], 'filename': ['/y/k.c', '/x/l.c'],
               'name': ['kernel.o', 'kernel-omp.s'],
               'other_dependencies': [[], ['OSACA', 'SKL', 'auto', 'auto'],
                                      ['IACA', 'SKX', 'auto', 'auto'], ['OSACA', 'SKX', 1, 'auto'],
                                      ['OSACA', 'SKX', 'auto', 1], ['OSACA', 'SKX', 'auto', -1],
                                      ['OSACA', 'SKX', 'auto'], ['OSACA', 'SKX', 'manual', 'auto']],
               'machine_and_compiler_dependent': [False]}
    key = ctx.choice('setting', [None] + sorted(changes))
    other = dict(base)
    if key:
        other[key] = ctx.choice('changed', changes[key])

    def of(d):
        d = dict(d)
        m = Machine(d.pop('compiler'), d.pop('flags'), d.pop('ident'))
        return location(m, d.pop('filename'), d.pop('name'), **d)
    ctx.check((of(base) == of(other)) == (key is None), 'intermediates of different settings',
              '%s %s' % (key, of(other)))
    if key in ('compiler', 'flags', 'ident'):
        base['machine_and_compiler_dependent'] = other['machine_and_compiler_dependent'] = False
        ctx.check(of(base) == of(other), 'intermediates of all machines', key)


def h_commands(ctx):
    """what is run"""
    flags = ctx.choice('flags', [[], ['-O2', '-mavx']])
    what = ctx.choice('what', ['assembly', 'object', 'openmp object', 'assemble', 'build',
                               'build openmp'])
    compiler = ctx.choice('compiler', ['gcc', 'icc'])
    fail = ctx.choice('fails', [False, True])
    cmds, exists = [], []

    def check_output(cmd, *a, **kw):
        cmds.append(list(cmd))
        for c in cmd[1:]:
            if not c.startswith('-') and c != cmd[cmd.index('-o') + 1]:
                exists.append((c, os.path.exists(c)))
        if fail:
            raise subprocess.CalledProcessError(1, cmd)
        with open(cmd[cmd.index('-o') + 1], 'w') as f:
            f.write('vkmovb %s\n' % cmd[0])
        return b''
    kmod.subprocess = type('S', (), {'check_output': staticmethod(check_output),
                                     'check_call': staticmethod(check_output),
                                     'CalledProcessError': subprocess.CalledProcessError})
    data = {'kerncraft version': machinemodel.__version__, 'compiler': {compiler: ' '.join(flags)},
            'cacheline size': PrefixedUnit(64.0, '', 'B')}
    scratch = tempfile.mkdtemp(prefix='c27-')
    env = {n: os.environ.get(n) for n in ('LIKWID_INCLUDE', 'LIKWID_INC', 'LIKWID_LIB')}
    try:
        os.environ.update(LIKWID_INCLUDE='-I/likwid', LIKWID_LIB='-L/lib -L/lib2')
        os.environ.pop('LIKWID_INC', None)
        source = os.path.join(scratch, 'k.c')
        code = 'double a[9];\nfor(int i=0; i<9; ++i) a[i] = 1.0;\n'
        for p in (source, os.path.join(scratch, 'm.yml')):
            with open(p, 'w') as f:
                f.write(code)
        m = machinemodel.MachineModel(machine_yaml=data, args=models.Args(
            compiler=compiler, compiler_flags=None))
        m.set_path(os.path.join(scratch, 'm.yml'))
        k = mk_kernel(code, None, m, source)
        asm = os.path.join(scratch, 'x.s')
        with open(asm, 'w') as f:
            f.write('nop\n')
        try:
            if what == 'assemble':
                path, lock = k.assemble_to_object(asm)
            elif what.startswith('build'):
                path, lock = k.build_executable(openmp='openmp' in what)
            else:
                path, lock = k.compile_kernel(assembly=what == 'assembly', openmp='openmp' in what)
            lock.close()
        except SystemExit:
            ctx.check(fail, 'command failed')
            return
        ctx.check(not fail, 'failures are reported')
        ctx.check(bool(exists) and all(e for c, e in exists if 'dummy' not in c),
                  'inputs are complete', str(exists))
        ctx.check(len(cmds) == (2 if 'build' in what else 1), 'commands', str(cmds))
        with open(path) as f:
            text = f.read()
        ctx.check(text == ('kmovb %s\n' if compiler == 'icc' and what == 'assembly'
                           else 'vkmovb %s\n') % compiler, 'result', text)
        for c in cmds:
            ctx.check(c[0] == compiler and [x for x in c if x in flags] == flags and '' not in c,
                      'compiler and flags', str(c))
        inputs = [x for x in cmds[-1][1:] if not x.startswith('-') and
                  x != cmds[-1][cmds[-1].index('-o') + 1]]
        names = [os.path.basename(x) for x in inputs]
        first = [x for x in cmds[0] if x.endswith('.c')]
        if what == 'assemble':
            ctx.check(names == ['x.s'] and '-c' in cmds[0] and '-S' not in cmds[0], 'assembled',
                      str(cmds))
            ctx.check(path.endswith('x.o'), 'object')
            return
        omp = 'openmp' in what
        ctx.check([os.path.basename(x) for x in first if os.path.dirname(
            os.path.abspath(x)).startswith(scratch)] == [
                'kernel-omp.c' if omp else 'kernel.c'], 'code compiled', str(cmds[0]))
        ctx.check(('-S' in cmds[0]) == (what == 'assembly') and '-std=c99' in cmds[0], 'mode')
        if what == 'assembly':
            ctx.check(path.endswith('kernel.s'), 'assembly')
        elif not what.startswith('build'):
            ctx.check('-c' in cmds[0] and path.endswith('kernel-omp.o' if omp else 'kernel.o'),
                      'object')
        else:
            ctx.check(sorted(names) == sorted(
                ['dummy.c', 'main-64.c', 'kernel-omp.o' if omp else 'kernel.o']), 'linked', str(names))
            ctx.check(all(x in cmds[1] for x in ('-I/likwid', '-L/lib', '-L/lib2', '-llikwid',
                                                 '-pthread')), 'libraries', str(cmds[1]))
            ctx.check('-c' not in cmds[1] and '-S' not in cmds[1], 'linked')
            ctx.check(os.path.basename(path) == ('kernel-omp' if omp else 'kernel'), 'program')
    finally:
        for n, v in env.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v
        shutil.rmtree(scratch)


def cases(tier):
    q = tier == 'quick'
    t = 150 if q else 1500
    res = [Case('choice-%s-%d' % (w, n), h_choice, 'flags of %d characters' % n, time=t,
                max_paths=50000, where=w, length=n)
           for w in ('call', 'args', 'file') for n in ((0, 3) if q else (0, 3, 5))
           if n or w != 'call']
    shapes = [([2], [2]), ([3], [1, 0]), ([2], [0, 0]), ([], [2]), ([1, 1], [1, 1])]
    if not q:
        shapes += [([3], [3]), ([4], [1, 1]), ([2, 1], [1, 2])]
    res += [Case('flags-%s-%s' % ('-'.join(map(str, a)), '-'.join(map(str, b))), h_flags,
                 'flags of these numbers of characters', time=t, max_paths=50000, one=a, other=b)
            for a, b in shapes]
    return res + [Case('settings', h_settings, 'one setting changed', time=t),
                  Case('commands', h_commands, 'all commands', time=t)]
