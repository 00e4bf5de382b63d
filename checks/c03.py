"""C03: global iteration numbers enumerate the loop nest in execution order."""
from symx.runner import Case
from checks.util import mk_kernel, sym, ceildiv

ASSUMPTIONS = ['loops run at least once (stop > start) and have positive increments, as kernel '
               'code requires']

# (name, declarations, loops outer..inner as (var, start, stop, incr); start/stop are functions)
NESTS = {
    '1d': ('double a[N];', [('i', '0', 'N', 1)]),
    '1d-off': ('double a[N];', [('i', '3', 'N-1', 1)]),
    '1d-step': ('double a[N];', [('i', '1', 'N', 3)]),
    '2d': ('double a[M][N];', [('j', '0', 'M', 1), ('i', '0', 'N', 1)]),
    '2d-stencil': ('double a[M][N];', [('j', '1', 'M-1', 1), ('i', '2', 'N-2', 1)]),
    '2d-step': ('double a[M][N];', [('j', '1', 'M-1', 2), ('i', '2', 'N-2', 3)]),
    '2d-stepout': ('double a[M][N];', [('j', '0', 'M', 4), ('i', '1', 'N', 1)]),
    '3d': ('double a[L][M][N];', [('k', '1', 'L-1', 1), ('j', '1', 'M-1', 1),
                                  ('i', '1', 'N-1', 1)]),
    '3d-step': ('double a[L][M][N];', [('k', '0', 'L', 2), ('j', '1', 'M-1', 3),
                                       ('i', '2', 'N', 2)]),
    '4d': ('double a[K][L][M][N];', [('h', '0', 'K', 1), ('k', '1', 'L-1', 1),
                                     ('j', '0', 'M', 2), ('i', '1', 'N-1', 1)]),
}


def code_of(nest):
    decl, loops = NESTS[nest]
    vars_ = [l[0] for l in loops]
    s = decl.replace('a[', 'b[') + '\n' + decl + '\n'
    for v, start, stop, incr in loops:
        s += 'for(int {0}={1}; {0}<{2}; {3})\n'.format(
            v, start, stop, '++' + v if incr == 1 else '%s+=%d' % (v, incr))
    sub = ''.join('[%s]' % v for v in vars_)
    return s + 'a%s = b%s;' % (sub, sub)


def value(text, env):
    if '-' in text:
        a, b = text.split('-')
        return env[a] - int(b)
    return env[text] if text in env else int(text)


def bounds_of(nest, env):
    return [(v, value(a, env), value(b, env), c) for v, a, b, c in NESTS[nest][1]]


def harness(ctx, nest, sizes=None, hi=None):
    names = [n for n in 'KLMN' if '[%s]' % n in NESTS[nest][0]]
    if sizes is not None:
        env = dict(zip(names, ctx.choice('sizes', sizes)))
    else:
        env = {n: ctx.int(n, 1, hi) for n in names}
    bounds = bounds_of(nest, env)
    for _, start, stop, _ in bounds:
        ctx.assume(stop > start)
    k = mk_kernel(code_of(nest), env)
    lens = [ceildiv(stop - start, incr) for _, start, stop, incr in bounds]
    total = 1
    for n in lens:
        total = total * n
    what = ctx.choice('what', ['length', 'indices', 'inverse', 'last'])
    if what == 'length':
        ctx.check(k.iteration_length() == total, 'total length')
        for d in range(len(bounds)):
            ctx.check(k.iteration_length(dimension=d) == lens[d], 'length of loop')
        return
    if what == 'last':
        ctx.check(int(k.max_global_iteration()) == total - 1, 'last iteration')
        return
    g = ctx.int('g', 0)
    ctx.assume(g < total)
    expected = {}
    inner = 1
    for (v, start, stop, incr), n in reversed(list(zip(bounds, lens))):
        expected[v] = start + ((g // inner) % n) * incr
        inner = inner * n
    if what == 'indices':
        idx = k.global_iterator_to_indices(git=g)
        for v, start, stop, incr in bounds:
            ctx.check(idx[sym(v)] == expected[v], 'index of loop')
    else:
        back = k.indices_to_global_iterator({sym(v): e for v, e in expected.items()})
        ctx.check(int(back) == g, 'inverse')


INNER = [1, 2, 3, 7, 49, 98, 103, 107, 161, 187, 196, 197, 206, 1000]


def cases(tier):
    cs = []
    quick = tier == 'quick'
    for nest in NESTS:
        nd = len(NESTS[nest][1])
        # make the *trip counts* of the inner loops hit the interesting values
        offs = []
        for v, a, b, c in NESTS[nest][1]:
            off = int(a) + (int(b.split('-')[1]) if '-' in b else 0)
            offs.append((off, c))
        inner = INNER if nd <= 2 else [2, 3, 49, 103]
        if not quick:
            inner = sorted(set(INNER + [5, 11, 13, 50, 64, 100, 214, 237, 322, 347, 374, 389]))
        sizes = []
        for n in inner:
            trip = [4, 3, 5][:max(0, nd - 2)] + ([n, n] if nd > 1 else [n])
            if nd > 1:
                trip[-2] = 6 if nd == 2 else n
            sizes.append([o + (t - 1) * c + 1 for (o, c), t in zip(offs, trip)])
            if nd > 2:
                trip[-1], trip[-2] = 5, n
                sizes.append([o + (t - 1) * c + 1 for (o, c), t in zip(offs, trip)])
            if offs[-1][1] > 1:   # trip counts that are not exact
                sizes.append([s + 1 for s in sizes[-1]])
        cs.append(Case('sizes-' + nest, harness, nest=nest, sizes=sizes, time=120, witnesses=12,
                       bounds='%d size tuples, every global iteration' % len(sizes)))
    hi = {'1d': 10 ** 6, '2d': 10 ** 4, '2d-stepout': 48 if quick else 200, '3d': 8 if quick else 16,
          '3d-step': 10, '4d': 5}
    for nest in NESTS:
        top = hi.get(nest, hi.get(nest[:2]))
        cs.append(Case('symbolic-' + nest, harness, nest=nest, hi=top, time=150,
                       query_ms=20000, bounds='all sizes up to %d, every global iteration' %
                       top))
    return cs
