"""C04: the address trace is the program's."""
from symx.runner import Case
from checks.util import mk_kernel
from checks.templates import LIB

ASSUMPTIONS = ['array accesses stay within their array, as C requires',
               'references that touch the same element in every iteration are left out of the '
               'trace (documented)', 'the cacheline size is a power of two']


class Machine(dict):
    pass


def setup(ctx, tpl, hi, cl):
    t = LIB[tpl]
    env = {n: ctx.int(n, 1, hi) for n in t.consts}
    for _, start, stop, _ in t.bounds(env):
        ctx.assume(stop > start)
    machine = Machine({'cacheline size': cl}) if cl else None
    k = mk_kernel(t.code(), env, machine=machine)
    spacing = ctx.choice('spacing', [0, 1, 64, 100])
    return t, env, k, spacing


def layout(ctx, t, env, k, spacing, cl):
    """where the arrays have to start"""
    base, r = 0, {}
    for n in sorted(t.arrays):
        r[n] = base
        size = t.elements(n, env) * t.esize(n) + spacing
        base = base + -((-size) // cl) * cl
    return r


def compare(ctx, row, expected, what):
    row, expected = list(row), list(expected)
    ctx.check(len(row) == len(expected), 'number of %ss' % what,
              '%d instead of %d' % (len(row), len(expected)))
    for e in expected:
        ctx.check(ctx.any([r == e for r in row] or [False]), '%s is missing' % what, repr(e))
    for r in row:
        ctx.check(ctx.any([r == e for e in expected] or [False]), '%s is not in the code' % what,
                  repr(r))


def h_trace(ctx, tpl, hi, cl, form):
    t, env, k, spacing = setup(ctx, tpl, hi, cl)
    total = t.total(env)
    g = ctx.int('g', 0)
    ctx.assume(g < total)
    if form == 'int':
        gs, arg = [g], g
    elif form == 'list':
        h = ctx.int('h', 0)
        ctx.assume(h < total)
        gs = arg = [g, h]
    else:
        ctx.assume(g + 2 < total)
        step = ctx.choice('step', [1, 2])
        arg = range(g, g + 3, step)
        gs = [g + i for i in range(0, 3, step)]
    out = k.compile_global_offsets(iteration=arg, spacing=spacing)
    ctx.check(len(out) == len(gs), 'one entry per iteration')
    base = layout(ctx, t, env, k, spacing, cl or 64)
    for it, row in zip(gs, out):
        at = t.indices_at(it, env)
        for what, refs in (('load', t.reads), ('store', t.writes)):
            exp = [base[r[0]] + t.flat(r, at) * t.esize(r[0]) for r in refs]
            compare(ctx, row[what], exp, what)


def h_refuse(ctx, tpl, hi, cl):
    t, env, k, spacing = setup(ctx, tpl, hi, cl)
    over = ctx.int('over', 0, 3)
    g = t.total(env) + over
    first = ctx.choice('form', ['int', 'list', 'range'])
    arg = {'int': g, 'list': [0, g], 'range': range(g, g + 1)}[first]
    try:
        k.compile_global_offsets(iteration=arg, spacing=spacing)
    except AssertionError:
        ctx.check(True, 'refused')
        return
    ctx.fail('iteration beyond the last one accepted')


def h_sizes(ctx, tpl, hi):
    t, env, k, spacing = setup(ctx, tpl, hi, None)
    for in_bytes in (False, True):
        sizes = k.array_sizes(in_bytes=in_bytes, subs_consts=True)
        ctx.check(set(sizes) == set(t.arrays), 'arrays')
        for n in t.arrays:
            ctx.check(sizes[n] == t.elements(n, env) * (t.esize(n) if in_bytes else 1),
                      'size of array')


def cases(tier):
    quick = tier == 'quick'
    cs = []
    for n, t in LIB.items():
        depth = len(t.loops)
        hi = {1: 10 ** 6, 2: 10 ** 4, 3: 500}[depth]
        for form in ('int', 'list', 'range'):
            if False:
                continue
            h = hi if form == 'int' else {1: hi, 2: 1000, 3: 100}[depth]
            cs.append(Case('trace-%s-%s' % (form, n), h_trace, tpl=n, hi=h, time=100,
                           cl={'int': None, 'list': 128, 'range': 32}[form], form=form,
                           bounds='sizes to %d, all iterations' % h))
        if True:
            cs.append(Case('refuse-' + n, h_refuse, tpl=n, hi=hi, cl=64,
                           bounds='sizes to %d' % hi))
        cs.append(Case('sizes-' + n, h_sizes, tpl=n, hi=10 ** 6, bounds='sizes to 10^6'))
    return cs
