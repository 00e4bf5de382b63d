"""C02: quantities with SI prefixes keep their magnitude and unit."""
from fractions import Fraction

from symx.runner import Case
from kerncraft.prefixedunit import PrefixedUnit

ASSUMPTIONS = ['floats are exact reals; results compared up to a relative rounding error of 1e-6',
               'units are the ones kerncraft uses and dimensionless']

SI = {'': 1, 'k': 10 ** 3, 'M': 10 ** 6, 'G': 10 ** 9, 'T': 10 ** 12, 'P': 10 ** 15,
      'E': 10 ** 18, 'Z': 10 ** 21, 'Y': 10 ** 24}
PARSED = ['', 'k', 'M', 'G', 'T', 'P']
UNITS = ['B', 'B/s', 'It/s', 'FLOP/s', 'cy/CL', 'Hz', '']


def any_prefix(ctx):
    """Arithmetic has to be right whichever prefix the result is reduced to, so that good_prefix
    (decided on its own by the shown-* cases) is replaced by an arbitrary choice.  Replays run the
    real one."""
    if ctx.symbolic:
        count = [0]

        def good_prefix(self, *args, **kwargs):
            count[0] += 1
            return ctx.choice('good_prefix%d' % count[0], list(SI))
        PrefixedUnit.good_prefix = good_prefix


def quantity(ctx, name, unit, lo=0, prefixes=tuple(SI)):
    v = ctx.real(name, lo, 1000)
    p = ctx.choice(name + '_prefix', prefixes)
    return PrefixedUnit(v, p, unit), v * SI[p]


def same(ctx, q, base, unit, label):
    ctx.check(q.unit == unit, label + ' unit', repr(q.unit))
    ctx.close(float(q), base, label + ' magnitude')


def h_base(ctx, unit):
    q, base = quantity(ctx, 'a', unit)
    same(ctx, q, base, unit, 'base')
    ctx.close(q.base_value(), base, 'base_value')
    to = ctx.choice('to', list(SI))
    r = q.with_prefix(to)
    ctx.check(r.prefix == to, 'prefix asked for')
    same(ctx, r, base, unit, 'with_prefix')
    ctx.close(r.value * SI[to], base, 'number shown with the prefix')


def h_reduced(ctx, unit):
    any_prefix(ctx)
    q, base = quantity(ctx, 'a', unit)
    r = q.reduced()
    same(ctx, r, base, unit, 'reduced')
    same(ctx, q, base, unit, 'unchanged by reduced')


def h_ctor(ctx, unit):
    v = ctx.real('a', 0, 1000)
    p = ctx.choice('prefix', PARSED)
    if unit:
        same(ctx, PrefixedUnit(v, p + unit), v * SI[p], unit, '2-argument constructor')
    n = PrefixedUnit(v)
    same(ctx, n, v, '', 'number')


def h_parse(ctx, digits, frac, unit):
    p = ctx.choice('prefix', PARSED)
    d = ctx.str('d', digits, '0123456789')
    f = ctx.str('f', frac, '0123456789') if frac else ''
    text = d + ('.' + f if frac else '') + ' ' + p + unit
    base = int(d) * SI[p]
    if frac:
        base = base + int(f) * Fraction(SI[p], 10 ** frac)
    same(ctx, PrefixedUnit(text), base, unit, 'parsed')


def h_inf(ctx, unit):
    q = PrefixedUnit('inf ' + unit)
    ctx.check(float(q) == float('inf'), 'infinite')
    b, base = quantity(ctx, 'b', unit)
    ctx.check(b < q, 'below infinity')
    ctx.check(not q < b, 'not below')
    ctx.check(min([q, b], key=lambda x: float(x)) is b, 'minimum')


def h_arith(ctx, op, kind, pa, pb):
    """kind: both quantities or a quantity and a plain number"""
    any_prefix(ctx)
    unit = ctx.choice('unit', ['B/s', ''])
    a, va = quantity(ctx, 'a', unit, lo=0, prefixes=pa)
    if kind == 'number':
        b = vb = ctx.real('b', Fraction(1, 100), 1000)
        ub = None
    else:
        ub = ctx.choice('unit_b', ['B/s', 's', '']) if op in ('mul', 'div') else unit
        b, vb = quantity(ctx, 'b', ub, lo=Fraction(1, 100), prefixes=pb)
    if op == 'add':
        r, e, u = a + b, va + vb, unit
    elif op == 'sub':
        r, e, u = a - b, va - vb, unit
    elif op == 'mul':
        r, e, u = a * b, va * vb, unit + (ub or '')
    else:
        r, e = a / b, va / vb
        u = unit + '/' + ub if ub is not None else unit
    same(ctx, r, e, u, op)
    ctx.close(float(a), va, 'operand unchanged')


def h_mismatch(ctx, op):
    a, _ = quantity(ctx, 'a', 'B/s')
    b, _ = quantity(ctx, 'b', 'FLOP/s')
    try:
        if op == 'add':
            a + b
        else:
            a - b
    except ValueError:
        ctx.check(True, 'refused')
        return
    ctx.fail('incompatible units combined')


def h_compare(ctx, prefixes, prefixes_b):
    a, va = quantity(ctx, 'a', 'B/s', prefixes=prefixes)
    b, vb = quantity(ctx, 'b', 'B/s', prefixes=prefixes_b)
    # keep clear of rounding: equal or at least a part in 10^6 apart
    eps = Fraction(1, 10 ** 6)
    ctx.assume(ctx.any(va < vb * (1 - eps), vb < va * (1 - eps)))
    ctx.check(ctx.iff(a < b, va < vb), 'less')
    ctx.check(ctx.iff(a > b, va > vb), 'greater')
    ctx.check(ctx.iff(a <= b, va <= vb), 'less or equal')
    ctx.check(ctx.iff(a >= b, va >= vb), 'greater or equal')
    ctx.check(ctx.iff(a == b, va == vb), 'equal')
    ctx.check(ctx.iff(a != b, va != vb), 'unequal')


def h_shown(ctx, unit, prefix):
    """the printed form is the value, up to the 1 % it promises"""
    v = ctx.real('a', Fraction(9, 10), 1000)
    q = PrefixedUnit(v, prefix, unit)
    p = q.good_prefix()
    base = v * SI[prefix]
    shown = round(base / SI[p], 2) * SI[p]
    err = shown - base
    # a margin: do not judge values at the very limit of 1 %
    lim = base * Fraction(101, 10000)
    ctx.check(ctx.all(err <= lim, -err <= lim), 'printed number is off by more than 1 %')
    text = str(q)
    ctx.check(text.endswith((' ' + p + unit) if p + unit else ''), 'printed prefix and unit', text)


def h_int(ctx):
    any_prefix(ctx)
    a, va = quantity(ctx, 'a', 'B', prefixes=('', 'k', 'M'))
    # away from integers: int() truncates
    n = int(a)
    ctx.check(ctx.all(n <= va + Fraction(1, 1000), va < n + 1 + Fraction(1, 1000)), 'int')
    ctx.close(abs(a), a, 'abs')


def h_whole(ctx):
    """the number may be an int"""
    any_prefix(ctx)
    n = ctx.int('n', 0, 1000)
    p = ctx.choice('prefix', ['', 'M'])
    q = PrefixedUnit(n, p, 'B')
    try:
        float(q)
    except TypeError:
        ctx.fail('whole number is converted')
        return
    same(ctx, q, n * SI[p], 'B', 'whole number')
    same(ctx, q + PrefixedUnit(2, 'k', 'B'), n * SI[p] + 2000, 'B', 'sum with a whole number')


def cases(tier):
    quick = tier == 'quick'
    us = ['B/s', ''] if quick else UNITS
    cs = []
    for u in us:
        n = u or 'none'
        cs.append(Case('base-' + n, h_base, unit=u, bounds='values [0,1000], all prefixes'))
        cs.append(Case('reduced-' + n, h_reduced, unit=u, time=90,
                       bounds='values [0,1000], all prefixes'))
        cs.append(Case('ctor-' + n, h_ctor, unit=u, bounds='values [0,1000]'))
    for u in UNITS:
        n = u or 'none'
        for d, f in ((1, 0), (2, 1), (3, 2)) if quick else ((1, 0), (2, 1), (3, 2), (5, 3)):
            cs.append(Case('parse-%d.%d-%s' % (d, f, n), h_parse, digits=d, frac=f, unit=u,
                           bounds='%d digits, %d decimals' % (d, f)))
        cs.append(Case('inf-' + n, h_inf, unit=u))
    groups = [('', 'k', 'M', 'G'), ('T', 'P', 'E', 'Z', 'Y')]
    for op in ('add', 'sub', 'mul', 'div'):
        for g in groups:
            cs.append(Case('%s-number-%s' % (op, ''.join(g)), h_arith, op=op, kind='number', pa=g,
                           pb=None, time=80, bounds='values [0,1000] with the prefixes'))
        cs.append(Case('%s-quantity' % op, h_arith, op=op, kind='quantity', pa=('', 'G', 'T'),
                       pb=('M',) if quick else tuple(SI), time=60 if quick else 400,
                       max_paths=20000, bounds='values [0,1000] with the prefixes'))
    for op in ('add', 'sub'):
        cs.append(Case('mismatch-' + op, h_mismatch, op=op))
    ps = list(SI)
    for i, p in enumerate(ps):
        cs.append(Case('compare-' + (p or '1'), h_compare, prefixes=(p,),
                       prefixes_b=tuple(ps[max(0, i - 1):i + 2]) if quick else tuple(ps)))
        cs.append(Case('shown-' + (p or '1'), h_shown, unit='B/s', prefix=p))
    cs.append(Case('shown-none', h_shown, unit='', prefix='k'))
    cs.append(Case('int', h_int))
    cs.append(Case('whole', h_whole))
    return cs
