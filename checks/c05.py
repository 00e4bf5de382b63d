"""C05: the kernel model read from source code is what the code does."""
from symx.runner import Case
from checks.util import mk_kernel, evaluate, Literals
from kerncraft import kernel as kmod

ASSUMPTIONS = ['integer literals are decimal without leading zeros or suffixes',
               'expressions use + - * and parentheses on loop counters, constants and literals']


def tree(ctx, name, depth, leaves):
    """arbitrary integer expression as nested tuples"""
    kinds = ['leaf'] if depth == 0 else ['leaf', '+', '-', '*']
    kind = ctx.choice(name, kinds)
    if kind == 'leaf':
        return ctx.choice(name + 'v', leaves)
    return (kind, tree(ctx, name + 'l', depth - 1, leaves),
            tree(ctx, name + 'r', depth - 1, leaves))


def c_text(t, top=True):
    """C text, with the fewest parentheses"""
    prec = {'+': 1, '-': 1, '*': 2, '/': 2}
    if isinstance(t, str):
        return t
    if t[0] == 'neg':
        return '-(%s)' % c_text(t[1])
    op, l, r = t
    ls, rs = c_text(l, False), c_text(r, False)
    if not isinstance(l, str) and l[0] in prec and prec[l[0]] < prec[op]:
        ls = '(%s)' % ls
    if not isinstance(r, str) and r[0] in prec and prec[r[0]] <= prec[op]:
        rs = '(%s)' % rs
    return '%s %s %s' % (ls, op, rs)


def val(t, env):
    if isinstance(t, str):
        return env[t]
    a, b = val(t[1], env), val(t[2], env)
    return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b


def state(ctx, lits):
    env = dict(lits.env)
    for n in ('i', 'j', 'k', 'N', 'M'):
        env[n] = ctx.int('value_' + n, 1)
    return env


def same_value(ctx, expr, expected, env, label):
    ctx.check(evaluate(expr, env) == expected, label, '%s' % (expr,))


def accesses(ctx, found, expected, env, label):
    """found: tuples of sympy expressions, expected: tuples of trees"""
    found = [f for f in found if f is not None]

    def match(f, e):
        if len(f) != len(e):
            return False
        return ctx.all([evaluate(a, env) == val(b, env) for a, b in zip(f, e)])
    for e in expected:
        ctx.check(ctx.any([match(f, e) for f in found] or [False]), label + ' missing',
                  '%s not in %s' % (e, found))
    for f in found:
        ctx.check(ctx.any([match(f, e) for e in expected] or [False]), label + ' not in the code',
                  '%s' % (f,))


def h_subscript(ctx, depth, where, dims):
    lits = Literals(ctx)
    lits.new('_c0', 0, 999)
    leaves = ['i', 'N', '_c0'] if dims == 1 else ['j', 'i', '_c0']
    t = tree(ctx, 't', depth, leaves)
    ref = ['i'] if dims == 1 else ['j', 'i']
    ref[ctx.choice('position', list(range(dims)))] = t
    sub = ''.join('[%s]' % c_text(x) for x in ref)
    plain = '[i]' if dims == 1 else '[j][i]'
    stmt = {'read': 'b%s = a%s * 2.0' % (plain, sub), 'write': 'a%s = b%s' % (sub, plain),
            'update': 'a%s += b%s' % (sub, plain)}[where]
    head = 'double a[N], b[N];\nfor(int i=0; i<N; ++i)\n' if dims == 1 else \
        'double a[M][N], b[M][N];\nfor(int j=0; j<M; ++j)\n for(int i=0; i<N; ++i)\n'
    k = mk_kernel(lits.text(head + stmt + ';'))
    env = state(ctx, lits)
    p = tuple('i' if dims == 1 else 'ji')
    a, b = [tuple(ref)], [p]
    src = {'read': {'a': a}, 'write': {'b': b}, 'update': {'a': a, 'b': b}}[where]
    dst = {'read': {'b': b}, 'write': {'a': a}, 'update': {'a': a}}[where]
    ctx.check(set(k.sources) == set(src), 'arrays read', str(k.sources))
    ctx.check(set(k.destinations) == set(dst), 'arrays written', str(k.destinations))
    for n in src:
        accesses(ctx, k.sources[n], src[n], env, 'read')
    for n in dst:
        accesses(ctx, k.destinations[n], dst[n], env, 'write')
    if 'a' in src:
        flat = val(ref[0], env) if dims == 1 else val(ref[0], env) * env['N'] + val(ref[1], env)
        got = [evaluate(k.access_to_sympy('a', s), env) for s in k.sources['a']]
        ctx.check(ctx.any([g == flat for g in got]), 'flattened access')


def h_loops(ctx, depth, nest, styles):
    lits = Literals(ctx)
    lits.new('_c0', 0, 999)
    lits.new('_c1', 0, 999)
    lits.new('_c2', 1, 99)
    start = tree(ctx, 's', depth if nest == 1 else 0, ['_c0', 'N'])
    stop = tree(ctx, 'e', depth, ['M', '_c1'])
    nxt = ctx.choice('next', ['++v', 'v++', 'v+=_c2'])
    typ = ctx.choice('type', ['int', 'long'])
    step = lits.env['_c2'] if '_c2' in nxt else 1
    loops = []
    body = 'a[i] = b[i];'
    vs = ['k', 'j', 'i'][3 - nest:]
    at = ctx.choice('at', list(range(nest)))
    style = ctx.choice('style', styles)
    if style == 'braces':
        body = '{ a[i] = b[i]; }'
    for d, v in reversed(list(enumerate(vs))):
        s, e, n, st = ('_c0', 'N', '++v', 1) if d != at else (start, stop, nxt, step)
        loops.insert(0, (v, s, e, st))
        loop = 'for(%s %s=%s; %s<%s; %s)' % (typ, v, c_text(s), v, c_text(e), n.replace('v', v))
        body = loop + ' ' + body if style == 'plain' or d == nest - 1 else \
            loop + ' {\n' + ('#pragma ivdep\n' if style == 'pragma' else '') + body + '\n}'
    pre = '#pragma vector\n' if style == 'pragma' else ''
    k = mk_kernel(lits.text('double a[N], b[N];\n' + pre + body))
    env = state(ctx, lits)
    got = list(k.get_loop_stack())
    ctx.check(len(got) == nest, 'number of loops')
    for g, (v, s, e, st) in zip(got, loops):
        ctx.check(g['index'] == v, 'loop counter and order', str(g))
        same_value(ctx, g['start'], val(s, env), env, 'start')
        same_value(ctx, g['stop'], val(e, env), env, 'stop')
        ctx.check(evaluate(g['increment'], env) == st, 'increment')
    ctx.check(list(k.get_index_type()) == [typ], 'index type')


def h_decls(ctx, depth, ndim):
    lits = Literals(ctx)
    lits.new('_c0', 1, 999)
    dims = [tree(ctx, 'd%d' % n, depth, ['N', '_c0'] if n == 0 else ['M', '_c0'])
            for n in range(ndim)]
    typ, size = ctx.choice('type', [('double', 8), ('float', 4), ('double _Complex', 16),
                                    ('float _Complex', 8)])
    style = ctx.choice('style', ['apart', 'together'])
    sub = ''.join('[%s]' % c_text(d) for d in dims)
    idx = ''.join('[%s]' % v for v in 'kji'[3 - ndim:])
    if style == 'together':
        decl = '%s a%s, b%s, s;\n' % (typ, sub, sub)
    else:
        decl = '%s a%s;\n%s s;\n%s b%s;\n' % (typ, sub, typ, typ, sub)
    loops = ''.join('for(int %s=0; %s<N; ++%s) ' % (v, v, v) for v in 'kji'[3 - ndim:])
    k = mk_kernel(lits.text(decl + loops + 'a%s = s * b%s;' % (idx, idx)))
    env = state(ctx, lits)
    ctx.check(set(k.variables) == {'a', 'b', 's'}, 'variables', str(k.variables))
    ctx.check(k.variables['s'][1] is None, 'scalar')
    elements = 1
    for d in dims:
        elements = elements * val(d, env)
    for n in 'ab':
        ctx.check(' '.join(k.variables[n][0]) == typ, 'type')
        ctx.check(len(k.variables[n][1]) == ndim, 'number of dimensions')
        for g, d in zip(k.variables[n][1], dims):
            same_value(ctx, g, val(d, env), env, 'dimension')
        same_value(ctx, k.array_sizes()[n], elements, env, 'elements')
        same_value(ctx, k.array_sizes(in_bytes=True)[n], elements * size, env, 'bytes')
    ctx.check('s' not in k.array_sizes(), 'scalars have no size')
    ctx.check(' '.join(k.datatype) == typ, 'datatype')


def expression(ctx, name, depth, leaves):
    kinds = ['leaf'] if depth == 0 else ['leaf', '+', '-', '*', '/', 'neg']
    kind = ctx.choice(name, kinds)
    if kind == 'leaf':
        return ctx.choice(name + 'v', leaves)
    if kind == 'neg':
        return ('neg', expression(ctx, name + 'n', depth - 1, leaves))
    return (kind, expression(ctx, name + 'l', depth - 1, leaves),
            expression(ctx, name + 'r', depth - 1 if kind in '*-' else 0, leaves))


def ops_of(t, r):
    if not isinstance(t, str):
        op = '-' if t[0] == 'neg' else t[0]
        r[op] = r.get(op, 0) + 1
        for x in t[1:]:
            ops_of(x, r)
    elif t.endswith('++') or t.startswith('++'):
        r['+'] = r.get('+', 0) + 1
    return r


def leaves_of(t):
    return [t] if isinstance(t, str) else [x for y in t[1:] for x in leaves_of(y)]


def h_flops(ctx, depth, statements, ops, small=False):
    """operations, sources and destinations of arbitrary right hand sides"""
    refs = {'a[i+1]': ('a', 1), 'b[i]': ('b', 0)}
    leaves = list(refs) + ['s', '2.5']
    if small:
        leaves = ['b[i]', 's']
    flops, src, dst, text = {}, {}, {}, []
    for n in range(statements):
        op = ctx.choice('op%d' % n, ['=', '+=', '*='] if n else ops)
        lhs = ctx.choice('lhs%d' % n, [('c[i-1]', 'c', -1), ('s', 's', None), ('a[i]', 'a', 0)])
        e = expression(ctx, 'e%d' % n, depth if n == 0 else 1, leaves if n == 0 else leaves[:2])
        text.append('%s %s %s;' % (lhs[0], op, c_text(e)))
        dst.setdefault(lhs[1], set()).add(lhs[2])
        if op != '=':
            flops[op[:-1]] = flops.get(op[:-1], 0) + 1
            src.setdefault(lhs[1], set()).add(lhs[2])
        ops_of(e, flops)
        for l in leaves_of(e):
            if l in refs:
                src.setdefault(refs[l][0], set()).add(refs[l][1])
            elif l == 's':
                src.setdefault('s', set()).add(None)
    k = mk_kernel('double a[N], b[N], c[N];\ndouble s;\nfor(int i=1; i<N-1; ++i) {\n'
                  + '\n'.join(text) + '\n}')
    ctx.check({o: n for o, n in k._flops.items() if n} == flops, 'operations',
              '%s has %s, not %s' % (text, flops, k._flops))
    i = ctx.int('value_i', 1)
    for what, got, exp in (('read', k.sources, src), ('written', k.destinations, dst)):
        ctx.check(set(got) == set(exp), 'variables ' + what, '%s: %s' % (text, got))
        for n in exp:
            ctx.check(len(got[n]) == len(exp[n]), 'number of accesses ' + what,
                      '%s: %s' % (text, got[n]))
            for o in exp[n]:
                if o is None:
                    ctx.check(None in got[n], 'scalar ' + what)
                else:
                    ctx.check(ctx.any([evaluate(g[0], {'i': i}) == i + o for g in got[n]
                                       if g is not None] or [False]), 'element ' + what)


def h_increment(ctx):
    """++ and -- of scalars count as one operation"""
    form = ctx.choice('form', ['s++', '++s', 's--', '--s'])
    other = ctx.choice('other', ['', 'b[i]', 'b[i] * b[i+1]', 'b[i] + b[i+1]', 'b[i] - b[i+1]',
                                 '(b[i] + b[i+1]) - 2.0'])
    text = form
    if other:
        join = ctx.choice('join', [' + ', ' - ', ' * '])
        text = ctx.choice('order', [0, 1]) and '(%s)%s%s' % (other, join, form) or \
            '%s%s(%s)' % (form, join, other)
    k = mk_kernel('double a[N], b[N];\ndouble s;\nfor(int i=1; i<N-1; ++i)\n a[i] = %s;'
                  % text)
    n = 1 + sum(other.count(c) for c in '+-*') - other.count('i+1') + (1 if other else 0)
    ctx.check(sum(k._flops.values()) == n, 'number of operations',
              '%s: %s' % (text, k._flops))


def h_dims(ctx, ndim):
    """subscripts and dimensions of arrays with many dimensions"""
    lits = Literals(ctx)
    consts = ['_c%d' % n for n in range(ndim)]
    for c in consts:
        lits.new(c, 0, 999)
    at = ctx.choice('at', list(range(ndim)))
    second = ctx.choice('second', list(range(ndim)))
    idx = [('+', 'j', c) if n == at else ('-', 'i', c) if n == second else c
           for n, c in enumerate(consts)]
    what = ctx.choice('access', ['read', 'write', 'update'])
    ref = 'a' + ''.join('[%s]' % c_text(x) for x in idx)
    stmt = {'read': 's = %s', 'write': '%s = s', 'update': '%s += s'}[what] % ref
    k = mk_kernel(lits.text('double a%s;\ndouble s;\nfor(int j=0; j<M; ++j)\nfor(int i=0; i<N; ++i)\n'
                            '%s;' % (''.join('[%s]' % c_text(('+', 'N', c)) for c in consts),
                                     stmt)))
    env = state(ctx, lits)
    for n, (found, there) in enumerate(((k.sources, what != 'write'),
                                        (k.destinations, what != 'read'))):
        ctx.check(('a' in found) == there, 'accesses', str(found))
        if there:
            accesses(ctx, found['a'], [tuple(idx)], env, 'read' if n == 0 else 'write')
    dims = k.variables['a'][1]
    ctx.check(len(dims) == ndim, 'number of dimensions')
    for d, c in zip(dims, consts):
        same_value(ctx, d, env['N'] + env[c], env, 'dimension')
    got, = (k.sources if what == 'read' else k.destinations)['a']
    flat = 0
    for x, c in zip(idx, consts):
        flat = flat * (env['N'] + env[c]) + val(x, env)
    ctx.check(evaluate(k.access_to_sympy('a', got), env) == flat, 'flattened access')


BAD = {
    'lessequal': 'for(int i=0; i<=N; ++i) a[i] = b[i];',
    'greater': 'for(int i=0; i>N; ++i) a[i] = b[i];',
    'greaterequal': 'for(int i=0; i>=N; ++i) a[i] = b[i];',
    'notequal': 'for(int i=0; i!=N; ++i) a[i] = b[i];',
    'decrement': 'for(int i=0; i<N; --i) a[i] = b[i];',
    'postdecrement': 'for(int i=0; i<N; i--) a[i] = b[i];',
    'subtract': 'for(int i=0; i<N; i-=1) a[i] = b[i];',
    'multiply': 'for(int i=1; i<N; i*=2) a[i] = b[i];',
    'assign': 'for(int i=1; i<N; i=2) a[i] = b[i];',
    'variable-step': 'for(int i=1; i<N; i+=M) a[i] = b[i];',
    'other-counter-next': 'for(int i=0; i<N; ++j) a[i] = b[i];',
    'other-counter-cond': 'for(int i=0; j<N; ++i) a[i] = b[i];',
    'other-counter-add': 'for(int i=0; i<N; j+=2) a[i] = b[i];',
    'reversed-cond': 'for(int i=0; N<i; ++i) a[i] = b[i];',
    'two-counters': 'for(int i=0, j=0; i<N; ++i) a[i] = b[i];',
    'no-declaration': 'for(i=0; i<N; ++i) a[i] = b[i];',
    'two-loops': 'for(int i=0; i<N; ++i) a[i] = b[i]; for(int i=0; i<N; ++i) a[i] = b[i];',
    'two-inner': 'for(int j=0; j<M; ++j) { for(int i=0; i<N; ++i) a[i] = b[i]; '
                 'for(int i=0; i<N; ++i) b[i] = a[i]; }',
    'assignment-before-inner': 'for(int j=0; j<M; ++j) { a[j] = b[j]; '
                               'for(int i=0; i<N; ++i) a[i] = b[i]; }',
    'assignment-after-inner': 'for(int j=0; j<M; ++j) { for(int i=0; i<N; ++i) a[i] = b[i]; '
                              'a[j] = b[j]; }',
    'if': 'for(int i=0; i<N; ++i) { if(b[i]) a[i] = b[i]; }',
    'call': 'for(int i=0; i<N; ++i) a[i] = f(b[i]);',
    'call-statement': 'for(int i=0; i<N; ++i) { f(a[i]); }',
    'while': 'while(1) a[0] = b[0];',
    'ternary': 'for(int i=0; i<N; ++i) a[i] = b[i] ? b[i] : 1.0;',
    'not': 'for(int i=0; i<N; ++i) a[i] = !b[i];',
    'indirect': 'for(int i=0; i<N; ++i) a[i] = b[b[i]];',
    'divided-index': 'for(int i=0; i<N; ++i) a[i] = b[i/2];',
    'modulo-index': 'for(int i=0; i<N; ++i) a[i%4] = b[i];',
    'divided-bound': 'for(int i=0; i<N/2; ++i) a[i] = b[i];',
    'divided-start': 'for(int i=N/2; i<N; ++i) a[i] = b[i];',
    'divided-dimension': 'double c[N/2]; for(int i=0; i<N; ++i) a[i] = b[i];',
    'mixed-types': 'float c[N]; for(int i=0; i<N; ++i) a[i] = c[i];',
    'int-array': 'int c[N]; for(int i=0; i<N; ++i) a[i] = b[i];',
    'after-loop': 'for(int i=0; i<N; ++i) a[i] = b[i]; a[0] = b[0];',
}


def h_refuse(ctx, names):
    """what the model can not express is refused, not misread"""
    n = ctx.choice('program', names)
    try:
        mk_kernel('double a[N], b[N];\n' + BAD[n])
    except (Exception, SystemExit):
        ctx.check(True, 'refused')
        return
    ctx.fail('misread instead of refused', n)


def h_description(ctx, nd):
    """a description in YAML means the same as the code"""
    dim, start, stop = (ctx.int(n, 1, 10 ** 6) for n in ('dim', 'start', 'stop'))
    step = ctx.int('step', 1, 100)
    off = ctx.choice('offset', ['i', 'i-1', 'i+N', '2*i+3'])
    typ = ctx.choice('type', [('double',), ('float',)])
    pre = ['j'] if nd == 2 else []
    d = dict(
        arrays={'a': dict(type=typ, dimension=(['M'] if nd == 2 else []) + ['N']),
                'b': dict(type=typ, dimension=([dim] if nd == 2 else []) + [dim]),
                's': dict(type=typ, dimension=None)},
        loops=([dict(index='j', start=0, stop='M-1', step=1)] if nd == 2 else []) +
              [dict(index='i', start=start, stop=stop, step=step)],
        flops={'+': 2})
    d['data sources'] = {'b': [pre + [off], pre + ['i']], 's': [None]}
    d['data destinations'] = {'a': [pre + ['i']]}
    k = kmod.KernelDescription(d)
    env = {n: ctx.int('value_' + n, 1) for n in ('i', 'j', 'N', 'M')}
    offs = {'i': env['i'], 'i-1': env['i'] - 1, 'i+N': env['i'] + env['N'],
            '2*i+3': 2 * env['i'] + 3}
    loops = list(k.get_loop_stack())
    ctx.check([l['index'] for l in loops] == (['j', 'i'] if nd == 2 else ['i']), 'loop order')
    if nd == 2:
        same_value(ctx, loops[0]['stop'], env['M'] - 1, env, 'outer stop')
        same_value(ctx, loops[0]['start'], 0, env, 'outer start')
        same_value(ctx, loops[0]['increment'], 1, env, 'outer increment')
    for n, e in (('start', start), ('stop', stop), ('increment', step)):
        same_value(ctx, loops[-1][n], e, env, n)
    ctx.check(len(k.variables['a'][1]) == nd, 'dimensions')
    same_value(ctx, k.variables['a'][1][-1], env['N'], env, 'dimension')
    same_value(ctx, k.variables['b'][1][0], dim, env, 'dimension')
    ctx.check(k.variables['s'][1] is None, 'scalar')
    ctx.check(k.datatype == typ, 'datatype')
    got = [g for g in k.sources['b']]
    for e in (env['i'], offs[off]):
        ctx.check(ctx.any([evaluate(g[-1], env) == e for g in got]), 'source')
    ctx.check(all(len(g) == nd for g in got), 'source dimensions')
    ctx.check(k.sources['s'] == {None}, 'scalar source')
    ctx.check(len(got) == (1 if off == 'i' else 2), 'number of sources')
    ctx.check(k._flops == {'+': 2}, 'operations')


def cases(tier):
    quick = tier == 'quick'
    cs = []
    for where in ('read', 'write', 'update'):
        for dims in (1, 2):
            cs.append(Case('subscript1-%s-%dd' % (where, dims), h_subscript, depth=1, where=where,
                           dims=dims, time=100, bounds='expressions of depth 1, literals to 999'))
    cs.append(Case('subscript2', h_subscript, depth=2, where='read', dims=1, time=120 if quick
                   else 1500, max_paths=50000, bounds='expressions of depth 2'))
    for nest in (1, 2, 3):
        cs.append(Case('loops-%d' % nest, h_loops, depth=1, nest=nest,
                       styles=['plain', 'braces', 'pragma'], time=150 if quick else 900,
                       max_paths=50000, bounds='bounds of depth 1, literals to 999'))
    for nd in (1, 2, 3):
        cs.append(Case('decls-%d' % nd, h_decls, depth=1 if nd < 3 else 0, ndim=nd, time=120,
                       max_paths=50000, bounds='dimensions of depth 1'))
    for nd in (3, 4, 5, 6):
        cs.append(Case('dims-%d' % nd, h_dims, ndim=nd, bounds='literals to 999'))
    for op in ('=', '+=', '-=', '*=', '/='):
        cs.append(Case('flops-1' + op, h_flops, depth=2, statements=1, ops=[op], small=quick,
                       time=150 if quick else 1500, max_paths=100000,
                       bounds='expressions of depth 2'))
    cs.append(Case('flops-2', h_flops, depth=0 if quick else 1, statements=2, ops=['=', '-='], time=150 if quick
                   else 1500, max_paths=100000, bounds='two statements'))
    cs.append(Case('increment', h_increment))
    cs.append(Case('refuse', h_refuse, names=sorted(BAD), max_paths=200))
    for nd in (1, 2):
        cs.append(Case('description-%dd' % nd, h_description, nd=nd))
    return cs
