"""C01: interval sets are exactly the union of the half-open ranges they were built from."""
from itertools import combinations

from symx.runner import Case
from kerncraft.intervals import Intervals

ASSUMPTIONS = ['interval bounds are integers (the class also accepts floats)']


def measure(ctx, ranges):
    """measure of a union of half-open integer ranges (inclusion-exclusion)"""
    total = 0
    for n in range(1, len(ranges) + 1):
        for sub in combinations(ranges, n):
            lo = max([r[0] for r in sub])
            hi = min([r[1] for r in sub])
            total = total + (1 if n % 2 else -1) * max(hi - lo, 0)
    return total


def member(ctx, x, ranges):
    return ctx.any([ctx.all(r[0] <= x, x < r[1]) for r in ranges])


def ranges_in(ctx, name, k):
    return [[ctx.int('%s%d_lo' % (name, i)), ctx.int('%s%d_hi' % (name, i))] for i in range(k)]


def h_set(ctx, k):
    r = ranges_in(ctx, 'r', k)
    spec = [list(x) for x in r]
    given = [list(x) for x in r]
    iv = Intervals(*given)
    x = ctx.int('x')
    ctx.check(ctx.iff(x in iv, member(ctx, x, spec)), 'membership')
    ctx.check(len(iv) == measure(ctx, spec), 'length')


def h_union(ctx, ka, kb):
    a = ranges_in(ctx, 'a', ka)
    b = ranges_in(ctx, 'b', kb)
    sa, sb = [list(x) for x in a], [list(x) for x in b]
    ia, ib = Intervals(*a), Intervals(*b)
    u = ia & ib
    x = ctx.int('x')
    which = ctx.choice('observe', ['union', 'left', 'right', 'len', 'lenleft', 'lenright'])
    if which == 'union':
        ctx.check(ctx.iff(x in u, member(ctx, x, sa + sb)), 'union membership')
    elif which == 'left':
        ctx.check(ctx.iff(x in ia, member(ctx, x, sa)), 'left operand unchanged')
    elif which == 'right':
        ctx.check(ctx.iff(x in ib, member(ctx, x, sb)), 'right operand unchanged')
    elif which == 'len':
        ctx.check(len(u) == measure(ctx, sa + sb), 'union length')
    elif which == 'lenleft':
        ctx.check(len(ia) == measure(ctx, sa), 'left length unchanged')
    else:
        ctx.check(len(ib) == measure(ctx, sb), 'right length unchanged')


def h_eq(ctx, ka, kb):
    a = ranges_in(ctx, 'a', ka)
    b = ranges_in(ctx, 'b', kb)
    sa, sb = [list(x) for x in a], [list(x) for x in b]
    same = (Intervals(*a) == Intervals(*b))
    mu, ma, mb = measure(ctx, sa + sb), measure(ctx, sa), measure(ctx, sb)
    ctx.check(ctx.iff(same, ctx.all(mu == ma, mu == mb)), 'equality is set equality')


def h_chain(ctx):
    """histories: union accumulated range by range equals the union of all"""
    r = ranges_in(ctx, 'r', 3)
    spec = [list(x) for x in r]
    acc = Intervals()
    for x in r:
        acc = acc & Intervals(x)
    x = ctx.int('x')
    ctx.check(ctx.iff(x in acc, member(ctx, x, spec)), 'accumulated membership')
    ctx.check(len(acc) == measure(ctx, spec), 'accumulated length')


def cases(tier):
    cs = [Case('set-%d' % k, h_set, bounds='%d ranges, unbounded integer limits' % k, k=k, time=60)
          for k in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4))]
    cs += [Case('union-%d-%d' % (a, b), h_union, ka=a, kb=b, time=90,
                bounds='%d and %d ranges' % (a, b))
           for a, b in ((1, 1), (2, 1), (1, 2)) + (((2, 2),) if tier != 'quick' else ())]
    cs += [Case('eq-%d-%d' % (a, b), h_eq, ka=a, kb=b, time=90, bounds='%d and %d ranges' % (a, b))
           for a, b in ((1, 1), (2, 1), (2, 2)) + (((3, 2),) if tier != 'quick' else ())]
    cs.append(Case('chain-3', h_chain, bounds='3 unions', time=90))
    return cs
