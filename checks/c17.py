"""C17: answers depend on the constants as they are now, not on what was done before."""
import io

import sympy

from symx.runner import Case
from checks.util import mk_kernel, sym
from checks.templates import LIB, T
from checks import fsmodel as fs
from checks.c16 import CODE, SOURCE, Config, Run, equal as equal_results
from checks.fsmodel import World, same
from kerncraft.kernel import KernelCode

ASSUMPTIONS = ['array accesses stay within their array']

D = 'double'
KERNELS = dict(LIB)
KERNELS['scaled'] = T([(D, 'a', ('N*M',)), (D, 'b', ('2*N', 'M+3'))],
                      [('j', '1', 'N+M', 2), ('i', '1', 'M-1', 3)], ['a[j*M+i] = b[j+N][i+2]'])


QUICK = ('complex', '1d-step', 'rowsum', '2d5pt', 'scaled')


class Machine(dict):
    pass


def name_arg(ctx, form, n):
    return n if form == 'text' else sym(n)


def text_of(f):
    out = io.StringIO()
    f(output_file=out)
    return out.getvalue()


def ask(k, query, g):
    """the answer, or the exception raised"""
    try:
        if query == 'sizes':
            return [k.array_sizes(in_bytes=b, subs_consts=s) for b in (True, False)
                    for s in (True, False)]
        if query == 'length':
            return [k.iteration_length()] + [k.iteration_length(dimension=d)
                                             for d in range(len(k._loop_stack))]
        if query == 'loops':
            return list(k.get_loop_stack(subs_consts=True)), list(k.get_loop_stack())
        if query == 'indices':
            return k.global_iterator_to_indices(git=g)
        if query == 'inverse':
            return [k.indices_to_global_iterator({sym(l[0]): g + n
                                                  for n, l in enumerate(k._loop_stack)}),
                    k.max_global_iteration()]
        if query == 'offsets':
            return k.compile_global_offsets(iteration=g), \
                k.compile_global_offsets(iteration=[g, 0], spacing=100)
        if query == 'substitute':
            return [k.subs_consts(e) for refs in list(k.sources.values()) +
                    list(k.destinations.values()) for r in refs if r for e in r]
        if query == 'distances':
            return [(n, [k.subs_consts(d) for d in ds])
                    for n, ds in sorted(k.compile_relative_distances().items())]
        if query == 'print':
            return [text_of(f) for f in (k.print_kernel_info, k.print_variables_info,
                                         k.print_constants_info)]
        raise ValueError(query)
    except (AssertionError, ValueError, TypeError, KeyError, AttributeError, NameError) as e:
        return type(e).__name__


QUERIES = ['sizes', 'length', 'loops', 'indices', 'inverse', 'offsets', 'substitute', 'distances',
           'print']


def equal(ctx, a, b):
    """condition for two answers to be equal"""
    if isinstance(a, str) and isinstance(b, str):
        return same(ctx, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(str, a)) != set(map(str, b)):
            return False
        bs = {str(n): v for n, v in b.items()}
        return ctx.all([equal(ctx, v, bs[str(n)]) for n, v in a.items()])
    if isinstance(a, sympy.Basic) and isinstance(b, sympy.Basic):
        if a == b:
            return True
        if a.is_Symbol and b.is_Symbol and a.name.startswith('_sx') and b.name.startswith('_sx'):
            from symx import sympybridge
            return sympybridge.REG[a] == sympybridge.REG[b]
        if type(a) is type(b) and len(a.args) == len(b.args) and a.args:
            return ctx.all([equal(ctx, x, y) for x, y in zip(a.args, b.args)])
        if not (a.is_number or b.is_number or hasattr(a, '_sx') or ctx.symbolic):
            return False
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return ctx.all([equal(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or isinstance(b, str):
        return False
    return a == b


def record(x):
    """rows of address traces as lists"""
    if isinstance(x, tuple):
        return tuple(record(y) for y in x)
    if isinstance(x, (list, dict, str)) or not hasattr(x, '__len__'):
        return x
    return [[list(r['load']), list(r['store'])] for r in x]


def h_history(ctx, tpl, last, steps, hi):
    t = KERNELS[tpl]
    machine = Machine({'cacheline size': 64})
    code = t.code()
    k, other = mk_kernel(code, machine=machine), mk_kernel(code, machine=machine)
    now, count = {}, [0]
    g = ctx.int('g', 0, hi)

    def value(n):
        count[0] += 1
        return ctx.int('%s_%d' % (n, count[0]), 9, hi)

    def put(target, n, v, s):
        target.set_constant(name_arg(ctx, 'text' if (s + t.consts.index(n)) % 2 else 'symbol', n), v)

    def everything(s):
        for n in t.consts:
            now[n] = value(n)
            put(k, n, now[n], s)
    everything(0)
    for s in range(steps):
        what = ctx.choice('step%d' % s, ['ask', 'set', 'clear', 'other'])
        if what == 'ask':
            ask(k, ctx.choice('asked%d' % s, sorted({last, 'substitute', 'inverse'})
                              if s or steps > 2 else QUERIES), g)
        elif what == 'set':
            n = ctx.choice('set%d' % s, t.consts)
            now[n] = value(n)
            put(k, n, now[n], s)
        elif what == 'clear':
            k.clear_state()
            now.clear()
            ctx.check(len(k.constants) == 0, 'constants are cleared')
            if ctx.choice('again%d' % s, [True, False]):
                everything(s)
        else:
            for n in t.consts:
                put(other, n, value(n), s)
            ask(other, last, g)
    if ctx.choice('final', ['set one', 'leave']) == 'set one':
        n = t.consts[-1]
        now[n] = value(n)
        put(k, n, now[n], steps)
    # creating another kernel clears caches
    a = record(ask(k, last, g))
    fresh = mk_kernel(code, machine=machine)
    for n in reversed(list(now)):
        fresh.set_constant(n, now[n])
    ctx.check([str(n) for n in k.constants] == sorted(now), 'constants in order')
    for n in now:
        ctx.check(k.constants[sym(n)] == now[n], 'value of constant')
    b = record(ask(fresh, last, g))
    ctx.check(equal(ctx, a, b), 'answer depends on history', '%s\n%s' % (a, b))
    # asking again gives the same
    ctx.check(equal(ctx, record(ask(k, last, g)), b), 'answer changes')


ACTIONS = [('header', ()), ('code', (False,)), ('code', (True,)), ('main', ()),
           ('compile', (True, False)), ('compile', (False, True)), ('build', (False,)),
           ('build', (True,)), ('incore', ('auto', 'auto', 'OSACA')), ('sizes', ()),
           ('offsets', ())]


def h_code(ctx, last, steps):
    """generated code, objects and analyses of a kernel object used before"""
    config = object.__new__(Config)
    config.name, config.cacheline, config.size, config.parameter = 7, 64, 1000, 3
    config.isa, config.compiler, config.flags, config.cores = 'x86', 11, [3, 2], 1
    now = {}

    def new_kernel():
        w = World(ctx, now=2000)
        w.mtimes[SOURCE] = 0
        fs.install(w)
        m = config.machine()
        return m, KernelCode(CODE, m, filename=SOURCE), w

    def put(k, n, s):
        now[n] = ctx.int('%s_%d' % (n, s), 9, 9999)
        k.set_constant(n, now[n])

    def do(k, m, what, args):
        if what in ('sizes', 'offsets'):
            return record(ask(k, what, 5))
        return Run(config, what, args=args).do(k, m)
    m, k, w = new_kernel()
    for n in 'NM':
        put(k, n, 0)
    for s in range(steps):
        step = ctx.choice('step%d' % s, ['use', 'set'])
        if step == 'use':
            do(k, m, *ctx.choice('use%d' % s, ACTIONS))
        else:
            put(k, ctx.choice('set%d' % s, ['M', 'N']), s + 1)
    got = do(k, m, *last)
    for p in w.problems:
        ctx.fail('files', '%s: %s' % p)
    m, k, w = new_kernel()
    for n in 'MN':
        k.set_constant(n, now[n])
    expected = do(k, m, *last)
    ctx.check(equal(ctx, got, expected) if last[0] in ('sizes', 'offsets') else
              equal_results(ctx, got, expected), 'depends on history',
              'got %r instead of %r' % (got, expected))


def cases(tier):
    quick = tier == 'quick'
    cs = []
    for n in KERNELS:
        if quick and n not in QUICK:
            continue
        for q in QUERIES:
            cs.append(Case('%s-%s' % (n, q), h_history, tpl=n, last=q, steps=(1 if q == 'offsets' and n[0] in '23s' else 2) + (not quick),
                           hi=10 ** 6, time=60 if quick else 1200, reach=['answer changes'],
                           bounds='%d steps (queries, constants set, cleared, another kernel '
                           'used), values from 9 to 10^6' % ((1 if q == 'offsets' and n[0] in '23s' else 2) + (not quick))))
    for what, args in ACTIONS:
        cs.append(Case('use-%s%s' % (what, ''.join('-%s' % a for a in args)), h_code,
                       last=(what, args), steps=2 if quick else 3, max_paths=20000,
                       time=60 if quick else 1500, reach=['depends on history'],
                       bounds='%d earlier uses of the same kernel object' % (2 if quick else 3)))
    return cs
