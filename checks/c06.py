"""C06: the benchmark and analysis code generated from a kernel does what the kernel does."""
import datetime
import re

from pycparser import CParser, c_ast
from pycparser.c_generator import CGenerator
from pycparser.c_parser import ParseError

from symx.runner import Case
from checks.util import mk_kernel, Literals
from checks.templates import SIZE

ASSUMPTIONS = ['pycparser parses the generated text as a C compiler does',
               'generated text is written and read back through the real files']

REAL_PARSER = CParser


class Machine(dict):
    def get_last_modified_datetime(self):
        return datetime.datetime(2000, 1, 1)


class Prog:
    """type, arrays {name: dims}, loops (var, start, stop, next text, step), statements"""

    def __init__(self, typ, arrays, loops, stmts, scalars=(), pragmas=(), inner_pragma=None):
        self.typ, self.arrays, self.loops, self.stmts = typ, arrays, loops, stmts
        self.scalars, self.pragmas, self.inner_pragma = scalars, pragmas, inner_pragma

    def code(self):
        s = ''
        for n, dims in self.arrays:
            s += '%s %s%s;\n' % (self.typ, n, ''.join('[%s]' % d for d in dims))
        for n in self.scalars:
            s += '%s %s;\n' % (self.typ, n)
        for p in self.pragmas:
            s += '#pragma %s\n' % p
        for v, a, b, nxt, _ in self.loops:
            s += 'for(int %s=%s; %s<%s; %s)\n' % (v, a, v, b, nxt)
        return s + '{\n' + ('#pragma %s\n' % self.inner_pragma if self.inner_pragma else '') + \
            '\n'.join(x + ';' for x in self.stmts) + '\n}\n'


PROGS = {
    '1d': Prog('double', [('a', ['N']), ('b', ['N'])], [('i', '0', 'N', '++i', 1)],
               ['a[i] = s * b[i]'], ['s']),
    '1d-lit': Prog('float', [('a', ['N+_c0']), ('b', ['_c0*N'])],
                   [('i', '_c1', 'N-_c0', 'i+=_c2', '_c2')],
                   ['a[i+_c1] += b[i-_c1] / 2.0', 'b[_c0+i] = a[i]']),
    '2d': Prog('double', [('a', ['M', 'N']), ('b', ['M', 'N'])],
               [('j', '1', 'M-1', '++j', 1), ('i', '1', 'N-1', '++i', 1)],
               ['b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s'], ['s', 't']),
    '2d-lit': Prog('float', [('a', ['M+_c0', 'N-_c0']), ('zb', ['_c1', 'N+M'])],
                   [('j', '_c0', 'M', 'j++', 1), ('i', '0', 'N', 'i+=_c2', '_c2')],
                   ['a[j+_c1][i-_c0] = zb[i-j][_c2] - a[_c0][i] * zb[j][j]'], [],
                   ['omp parallel for', 'vector always']),
    '2d-mixed': Prog('double _Complex', [('x', ['N', 'M']), ('v', ['M']), ('w', ['N'])],
                     [('j', '0', 'N', '++j', 1), ('i', '0', 'M', '++i', 1)],
                     ['w[j] += x[j][i] * v[i]', 's = s + w[j]'], ['s'], [], 'vector aligned'),
    '3d': Prog('double', [('a', ['K', 'M', 'N']), ('b', ['K', 'M', 'N']), ('W', ['2', 'M', 'N'])],
               [('k', '1', 'K-1', '++k', 1), ('j', '1', 'M-1', 'j+=2', 2),
                ('i', '1', 'N-1', '++i', 1)],
               ['b[k][j][i] = W[0][j][i] * a[k][j][i-1] + W[1][j][i] * a[k-1][j+1][i]']),
    '3d-lit': Prog('float', [('a', ['N+_c0', 'N', 'M*_c1'])],
                   [('k', '0', 'K', '++k', 1), ('j', '_c0', 'N', '++j', 1),
                    ('i', '0', 'M', '++i', 1)],
                   ['a[k+_c0][j-_c1][i] *= c + a[j][k][i+_c0]'], ['c'],
                   ['omp parallel for collapse(2)'], 'omp simd'),
    '4d': Prog('double', [('a', ['L', 'K', 'M', 'N']), ('b', ['N', 'M', 'K', 'L'])],
               [('l', '0', 'L', '++l', 1), ('k', '0', 'K', '++k', 1), ('j', '0', 'M', '++j', 1),
                ('i', '0', 'N', '++i', 1)], ['a[l][k][j][i] = b[i][j][k][l]'], [], [],
               'omp simd'),
    '5d': Prog('float', [('a', ['2', 'L', 'K', 'M', 'N']), ('b', ['N', 'M', 'K', 'L', '3'])],
               [('l', '0', 'L', '++l', 1), ('k', '0', 'K', '++k', 1), ('j', '0', 'M', '++j', 1),
                ('i', '0', 'N', '++i', 1)],
               ['a[0][l][k][j][i] = b[i][j][k][l][1] + a[1][l][k][j][i]',
                's += b[i][j][k][l][2]'], ['s']),
    'scalars': Prog('double', [('a', ['N']), ('b', ['N'])], [('i', '1', 'N', '++i', 1)],
                    ['w = a[i]', 'u += a[i] * r', 'x = x + r', 'a[i] = w + x', 'b[i-1] = 2.0', 'z = r'],
                    ['w', 'u', 'r', 'x', 'n', 'z'], ['omp parallel  for schedule(static)']),
    'omp-wide': Prog('double', [('a', ['N']), ('b', ['N'])], [('i', '1', 'N', '++i', 1)],
                     ['a[i] = b[i]'], [], ['omp  parallel for simd', 'unroll(4)']),
    'omp-nested': Prog('double', [('a', ['M', 'N']), ('b', ['M', 'N'])],
                       [('j', '1', 'M', '++j', 1), ('i', '1', 'N', '++i', 1)],
                       ['a[j][i] = b[j][i]'], [], ['omp for schedule(guided)'], 'omp simd'),
}


def parse(text, lits):
    """syntax tree of generated code (symbolic literals become placeholders again)"""
    back = {t: p for p, t in lits.tokens.items()}
    text = re.sub('\ue000[^\ue001]*\ue001', lambda m: back[m.group(0)], text)
    text = '\n'.join('' if l.startswith('#include') else l for l in text.split('\n'))
    try:
        return REAL_PARSER().parse(text)
    except ParseError as e:
        lits.ctx.fail('generated code is C', str(e))


def children(n, kind):
    r = []
    for _, c in n.children():
        if isinstance(c, kind):
            r.append(c)
        r += children(c, kind)
    return r


class Meaning:
    def __init__(self, ctx, lits, prog):
        self.ctx, self.lits, self.prog = ctx, lits, prog
        self.env = dict(lits.env)
        for n in ('i', 'j', 'k', 'l', 'N', 'M', 'K', 'L'):
            self.env[n] = ctx.int('value_' + n, 1)
        self.placeholders = {}
        for n in lits.env:
            self.placeholders[lits.text(n)] = lits.env[n]

    def int(self, n):
        if isinstance(n, c_ast.ID):
            return self.env[n.name]
        if isinstance(n, c_ast.Constant):
            return self.placeholders[n.value] if n.value in self.placeholders else int(n.value)
        if isinstance(n, c_ast.UnaryOp) and n.op == 'sizeof':
            t = n.expr.type
            while not hasattr(t, 'names'):
                t = t.type
            return SIZE[' '.join(t.names)]
        a, b = self.int(n.left), self.int(n.right)
        return a + b if n.op == '+' else a - b if n.op == '-' else a * b

    def text(self, s):
        tree = REAL_PARSER().parse('void f() { x = %s; }' % self.lits.text(s))
        return self.int(tree.ext[0].body.block_items[0].rvalue)

    def flat_original(self, ref):
        """row-major index of a reference of the kernel"""
        subs, n = [], ref
        while isinstance(n, c_ast.ArrayRef):
            subs.insert(0, n.subscript)
            n = n.name
        dims = dict(self.prog.arrays)[n.name]
        r = 0
        for d, s in zip(dims, subs):
            r = r * self.text(d) + self.int(s)
        return n.name, r

    def flat_generated(self, ref):
        assert isinstance(ref.name, c_ast.ID), 'one-dimensional reference expected'
        return ref.name.name, self.int(ref.subscript)

    def same(self, o, g):
        """original and generated expression or assignment agree"""
        if isinstance(o, c_ast.ArrayRef):
            if not isinstance(g, c_ast.ArrayRef) or not isinstance(g.name, c_ast.ID):
                return False
            (a, x), (b, y) = self.flat_original(o), self.flat_generated(g)
            return self.ctx.all([a == b, x == y])
        if type(o) is not type(g):
            return False
        if isinstance(o, c_ast.ID):
            return o.name == g.name
        if isinstance(o, c_ast.Constant):
            return o.value == g.value
        if getattr(o, 'op', None) != getattr(g, 'op', None):
            return False
        co, cg = [c for _, c in o.children()], [c for _, c in g.children()]
        if len(co) != len(cg):
            return False
        return self.ctx.all([self.same(a, b) for a, b in zip(co, cg)] + [True])

    def loops(self, nest, label):
        """checks the loops and returns the body of the innermost"""
        ctx = self.ctx
        for v, start, stop, _, step in self.prog.loops:
            d = nest.init.decls[0]
            ctx.check(d.name == v, label + ': loop counter')
            ctx.check(self.int(d.init) == self.text(start), label + ': loop start')
            ctx.check(nest.cond.op == '<' and nest.cond.left.name == v, label + ': condition')
            ctx.check(self.int(nest.cond.right) == self.text(stop), label + ': loop stop')
            got = 1 if isinstance(nest.next, c_ast.UnaryOp) else self.int(nest.next.rvalue)
            ctx.check(got == (self.lits.env[step] if isinstance(step, str) else step),
                      label + ': step')
            ctx.check(nest.next.op in ('++', 'p++', '+='), label + ': step direction')
            body, nest = nest.stmt, nest.stmt
            while isinstance(nest, c_ast.Compound) and any(
                    isinstance(x, c_ast.For) for x in nest.block_items):
                nest = [x for x in nest.block_items if isinstance(x, c_ast.For)][0]
        return body


def setup(ctx, name, only=None):
    lits = Literals(ctx)
    prog = PROGS[name]
    for c in ('_c0', '_c1', '_c2'):
        if c in prog.code():
            lits.new(c, 1, 500)
    cl = ctx.choice('cacheline', [64, 128])
    with open('kernel_source.c', 'w') as f:
        f.write('')
    k = mk_kernel(lits.text(prog.code()), machine=Machine({'cacheline size': cl}),
                  filename='kernel_source.c')
    names = sorted(n for n in 'KLMN' if re.search(r'\b%s\b' % n, prog.code()))
    order = ctx.choice('order', [names, names[::-1]])
    for n in order:
        k.set_constant(n, 10 + names.index(n))
    m = Meaning(ctx, lits, prog)
    original = REAL_PARSER().parse('void f() {\n%s}' % lits.text(prog.code())).ext[0].body
    return lits, prog, k, m, original, names, cl


def read(result):
    path, lock = result
    lock.close()
    with open(path) as f:
        return f.read()


def params_of(func):
    """(name, is pointer, type, const) of the parameters"""
    r = []
    for p in func.args.params:
        ptr = isinstance(p.type, c_ast.PtrDecl)
        t = p.type.type if ptr else p.type
        r.append((p.name, ptr, type_name(t), 'const' in getattr(t, 'quals', ())))
    return r


def type_name(t):
    return ' '.join(t.type.names) if isinstance(t, c_ast.TypeDecl) and \
        isinstance(t.type, c_ast.IdentifierType) else CGenerator().visit(t)


def expected_params(prog, names):
    return [(n, True, prog.typ, False) for n, _ in prog.arrays] + \
        [(n + '_', True, prog.typ, False) for n in prog.scalars] + \
        [(n, False, 'int', True) for n in names]


def h_kernel(ctx, prog):
    lits, prog, k, m, original, names, _ = setup(ctx, prog)
    openmp = ctx.choice('openmp', [False, True])
    text = read(k.get_kernel_code(openmp=openmp))
    tree = parse(text, lits)
    func = tree.ext[0]
    ctx.check(sorted(params_of(func.decl.type)) == sorted(expected_params(prog, names)),
              'parameters of the kernel function', str(params_of(func.decl.type)))
    body = func.body.block_items
    nests = [x for x in body if isinstance(x, c_ast.For)]
    ctx.check(len(nests) == 1, 'one loop nest')
    inner = m.loops(nests[0], 'kernel')
    stmts = [x for x in inner.block_items if not isinstance(x, c_ast.Pragma)]
    orig = [x for x in children(original, c_ast.Assignment) if not isinstance(x, c_ast.For)]
    orig = [x for x in orig if not (isinstance(x.lvalue, c_ast.ID) and x.op == '+='
                                    and x.lvalue.name in [l[0] for l in prog.loops])]
    ctx.check(len(stmts) == len(orig), 'number of statements')
    for o, g in zip(orig, stmts):
        ctx.check(m.same(o, g), 'statement differs from the kernel', str(o))
    # scalars travel through their pointers
    at = body.index(nests[0])
    for s in prog.scalars:
        before = [x for x in body[:at] if isinstance(x, c_ast.Assignment)
                  and isinstance(x.lvalue, c_ast.ID) and x.lvalue.name == s]
        after = [x for x in body[at + 1:] if isinstance(x, c_ast.Assignment)
                 and isinstance(x.lvalue, c_ast.UnaryOp) and x.lvalue.expr.name == s + '_']
        ctx.check(len(before) == 1 and isinstance(before[0].rvalue, c_ast.UnaryOp)
                  and before[0].rvalue.op == '*' and before[0].rvalue.expr.name == s + '_',
                  'scalar is read from its pointer')
        ctx.check(len(after) == 1 and isinstance(after[0].rvalue, c_ast.ID)
                  and after[0].rvalue.name == s, 'scalar is stored to its pointer')
    pragmas = [x.string for x in children(func, c_ast.Pragma)]
    work = [p for p in pragmas if re.search(r'\bomp\b.*\bfor\b', p)]
    if openmp:
        ctx.check(len(work) == 1, 'loop nest is shared between threads once', str(pragmas))
        ctx.check(not any('parallel' in p for p in pragmas), 'no nested parallel region')
    else:
        ctx.check(not any(re.search(r'\bomp\b', p) for p in pragmas), 'no OpenMP')
    for p in list(prog.pragmas) + ([prog.inner_pragma] if prog.inner_pragma else []):
        if 'omp' not in p:
            ctx.check(p in pragmas, 'other pragmas are kept')


def h_main(ctx, prog):
    lits, prog, k, m, original, names, cl = setup(ctx, prog)
    header = parse(read((k.get_intermediate_location(
        'kernel.h', machine_and_compiler_dependent=False), k.get_kernel_header()[1])), lits)
    func = [x for x in header.ext if isinstance(x.type, c_ast.FuncDecl)][0]
    code = parse(read(k.get_kernel_code()), lits).ext[0]
    ctx.check(params_of(func.type) == params_of(code.decl.type), 'header matches the function')
    ctx.check(func.name == code.decl.name, 'name of the function')
    main = [x for x in parse(read(k.get_main_code()), lits).ext
            if isinstance(x, c_ast.FuncDef)][0]
    top = main.body.block_items
    decls = {d.name: d for d in top if isinstance(d, c_ast.Decl)}
    passed = list(k.constants)
    ctx.check([str(c) for c in passed] == names, 'constants are sorted')
    for n in names:
        d = decls[n]
        ctx.check(isinstance(d.init, c_ast.FuncCall), 'constant is read from the command line')
        pos = int(d.init.args.exprs[0].subscript.value)
        # argv[1] are the repetitions, then the values in the order of kernel.constants
        ctx.check(2 <= pos < 2 + len(names) and str(passed[pos - 2]) == n,
                  'constant is taken from its own argument', '%s = argv[%d]' % (n, pos))
    for n, dims in prog.arrays:
        d = decls[n]
        ctx.check(isinstance(d.type, c_ast.PtrDecl)
                  and type_name(d.type.type) == prog.typ, 'array type')
        elements = SIZE[prog.typ]
        for x in dims:
            elements = elements * m.text(x)
        ctx.check(m.int(d.init.args.exprs[0]) == elements, 'bytes allocated')
        ctx.check(m.int(d.init.args.exprs[1]) == cl, 'alignment')
    for n in prog.scalars:
        ctx.check(isinstance(decls[n].type, c_ast.TypeDecl), 'scalar declared')
    calls = [c for c in children(main, c_ast.FuncCall) if c.name.name == func.name]
    ctx.check(len(calls) == 1, 'one kernel call')
    args = calls[0].args.exprs
    params = params_of(func.type)
    ctx.check(len(args) == len(params), 'number of arguments')
    for a, (n, ptr, _, const) in zip(args, params):
        if isinstance(a, c_ast.UnaryOp):
            ctx.check(a.op == '&' and a.expr.name + '_' == n, 'argument meets its parameter', n)
        else:
            ctx.check(a.name == n, 'argument meets its parameter', n)
    # arrays are initialised in the order of the kernel
    par = [x for x in top if isinstance(x, c_ast.Compound)][0]
    nest = [x for x in par.block_items if isinstance(x, c_ast.For)][0]
    inner = m.loops(nest, 'initialisation')
    got = [m.flat_generated(a.lvalue) for a in inner.block_items]
    refs = []

    def collect(n):
        if isinstance(n, c_ast.ArrayRef):
            refs.append(m.flat_original(n))
        else:
            for _, c in n.children():
                collect(c)
    for x in original.block_items:
        if isinstance(x, c_ast.For):
            collect(x)
    for n, x in refs:
        ctx.check(ctx.any([ctx.all([n == gn, x == gx]) for gn, gx in got] or [False]),
                  'element is initialised', n)
    for gn, gx in got:
        ctx.check(ctx.any([ctx.all([n == gn, x == gx]) for n, x in refs] or [False]),
                  'initialisation stays within what the kernel touches', gn)


def cases(tier):
    cs = []
    for p in PROGS:
        b = 'literals 1..500, sizes and loop counters unbounded'
        cs.append(Case('kernel-' + p, h_kernel, prog=p, bounds=b))
        cs.append(Case('main-' + p, h_main, prog=p, bounds=b))
    return cs
