"""C21: sources without comments, macros and pragmas are what a compiler sees."""
from symx.runner import Case
from kerncraft.pycparser_utils import clean_code

ASSUMPTIONS = ['no strings or character constants in the source (documented limitation)',
               'block comments are closed', 'only directives are continued on the next line']


def lines(text):
    """tokens of all lines"""
    res = [[]]
    word = False
    for c in text:
        if c == '\n':
            res.append([])
            word = False
        elif c == ' ':
            word = False
        elif word:
            res[-1][-1] = res[-1][-1] + c
        else:
            res[-1].append(c)
            word = True
    return res


def without_comments(ctx, text):
    """by the C standard, one character after the other"""
    out, state, at = [], 'code', 0
    n = len(text)

    def is_(i, c):
        return i < n and ctx.fork(text[i] == c)
    while at < n:
        if state == 'code':
            if is_(at, '/') and is_(at + 1, '/'):
                state, at = 'line', at + 2
            elif is_(at, '/') and is_(at + 1, '*'):
                state, at = 'block', at + 2
                out.append(' ')
            else:
                out.append(text[at])
                at += 1
        elif state == 'line':
            if is_(at, '\\') and is_(at + 1, '\n'):
                out.append('\n')
                at += 2
            elif is_(at, '\n'):
                state = 'code'
            else:
                at += 1
        else:
            if is_(at, '*') and is_(at + 1, '/'):
                state, at = 'code', at + 2
            else:
                if is_(at, '\n'):
                    out.append('\n')
                at += 1
    ctx.assume(state != 'block')
    return out


def h_comments(ctx, length, prefix='', suffix='', alphabet='/*\na '):
    text = prefix + (ctx.str('text', length, alphabet) if length else '') + suffix
    want = without_comments(ctx, text)
    got = clean_code(text)
    same(ctx, got, want)
    # nothing else is touched if not asked for
    ctx.check(clean_code(text, comments=False) == text, 'unchanged')


def same(ctx, got, want):
    a, b = lines(got), lines(want)
    ctx.check(len(a) == len(b), 'number of lines', repr(got))
    for x, y in zip(a, b):
        ctx.check(len(x) == len(y), 'words of a line', repr(got))
        for v, w in zip(x, y):
            ctx.check(v == w, 'word', repr(got))


LINES = ['#define A 1', '#define no_pragma 1', 'int pragma; #pragma', '  # if x \\', '#pragma omp for', '#pragma x \\', 'a = 1;', '\ty[#i] ', '',
         '#\\', 'b;  ']


def h_directives(ctx, count):
    text = [ctx.choice('line%d' % n, LINES) for n in range(count)]
    macros, pragmas = ctx.choice('macros', [False, True]), ctx.choice('pragmas', [False, True])
    want, inside = [], None
    for l in text:
        s = l.strip()
        # a directive and the lines that continue it are one
        kind = inside or ('pragma' if s.startswith('#pragma') else
                          'macro' if s.startswith('#') else 'code')
        # mixtures are not told apart by their first line only
        ctx.assume(inside is None or not s.startswith('#') or macros == pragmas)
        want.append('' if {'pragma': pragmas, 'macro': macros, 'code': False}[kind] else l)
        inside = kind if kind != 'code' and s.endswith('\\') else None
    got = clean_code('\n'.join(text), comments=ctx.choice('comments', [False, True]),
                     macros=macros, pragmas=pragmas)
    ctx.check(got == '\n'.join(want), 'directives', repr(got))


def cases(tier):
    q = tier == 'quick'
    t = 100 if q else 1500
    cs = []
    for n in range(1, 7 if q else 9):
        cs.append(Case('comments-%d' % n, h_comments, length=n, max_paths=200000, time=t,
                       reach=['words of a line'] if n > 1 else []))
    for prefix, suffix in (('int/*', ' x;'), ('a; //', '\nb; /* c\n */ d;'), ('/*/', '*/ e;'),
                           ('x /* 1 */', '// 2'), ('//', '/*y*/\n/*z*/ u')):
        cs.append(Case('within-%s' % prefix.strip().replace('/', 's'), h_comments,
                       length=4 if q else 6, prefix=prefix, suffix=suffix, alphabet='/*\na',
                       max_paths=200000, time=t))
    cs.append(Case('continued', h_comments, length=4 if q else 6, prefix='a //', suffix='b\nc;',
                   alphabet='\\\n/*b', max_paths=200000, time=t))
    cs.append(Case('directives', h_directives, count=3 if q else 4, max_paths=200000, time=t))
    return cs
