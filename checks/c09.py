"""C09: the cache simulator stands for the machine file and the number of cores asked for."""
import copy

from symx.runner import Case
from kerncraft import machinemodel
from kerncraft.machinemodel import MachineModel

ASSUMPTIONS = ['the simulator library is a stand-in recording what it is asked to build']

POLICY = {'replacement_policy': 'LRU', 'write_allocate': True, 'write_back': True}


class Unit:
    """stands for a number with a unit, as cl_size has in machine files"""

    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v

    def __eq__(self, other):
        return isinstance(other, Unit) and self.v == other.v

    def __deepcopy__(self, memo):
        return Unit(self.v)


class Simulator:
    def __init__(self, d):
        self.d = d
        self.dirty = False
        self.counts = False

    def mark_all_invalid(self):
        self.dirty = False

    def reset_stats(self):
        self.counts = False

    @classmethod
    def from_dict(cls, d):
        return cls(copy.deepcopy(d)), {}, None


def h_history(ctx, levels, calls, machines=1):
    class CacheSim:
        CacheSimulator = Simulator
    machinemodel.cachesim = CacheSim
    ms = []
    for n in range(machines):
        hierarchy = []
        for lvl in range(levels):
            g = dict(POLICY, sets=ctx.int('sets%d_%d' % (n, lvl), 1, 2 ** 20),
                     ways=ctx.int('ways%d_%d' % (n, lvl), 1, 32),
                     cl_size=Unit(ctx.choice('cl%d_%d' % (n, lvl), [64] if lvl else [64, 128])))
            if lvl < levels - 1:
                g.update(load_from='L%d' % (lvl + 2), store_to='L%d' % (lvl + 2))
            hierarchy.append({'level': 'L%d' % (lvl + 1), 'cache per group': g,
                              'cores per group': ctx.int('shared%d_%d' % (n, lvl), 1, 64)})
        hierarchy.append({'level': 'MEM', 'cores per group': ctx.int('memcores%d' % n, 1, 64)})
        numa = ctx.int('numa%d' % n, 1, 64)
        data = {'kerncraft version': machinemodel.__version__, 'memory hierarchy': hierarchy,
                'cores per NUMA domain': numa}
        m = MachineModel(machine_yaml=data)
        ms.append((m, data, copy.deepcopy(data)))
    for c in range(calls):
        m, data, orig = ms[ctx.choice('machine%d' % c, list(range(machines)))]
        if ctx.choice('default%d' % c, [False, True]) if c == 0 else False:
            cores = 1
            sim = m.get_cachesim()
        else:
            cores = ctx.int('cores%d' % c, 1, 128)
            sim = m.get_cachesim(cores)
        ctx.check(not sim.dirty, 'caches are empty')
        ctx.check(not sim.counts, 'statistics are zero')
        ctx.check(sorted(sim.d) == ['L%d' % (n + 1) for n in range(levels)], 'levels')
        for lvl in orig['memory hierarchy'][:-1]:
            g, got = lvl['cache per group'], sim.d[lvl['level']]
            numa = orig['cores per NUMA domain']
            sharing = ctx.ite(cores < numa, cores, numa)
            q = got['sets']
            ok = ctx.ite(lvl['cores per group'] > 1,
                         ctx.all([q * sharing <= g['sets'], g['sets'] < (q + 1) * sharing]),
                         q == g['sets'])
            ctx.check(ok, 'sets of ' + lvl['level'], str(q))
            ctx.check(got['ways'] == g['ways'], 'ways')
            ctx.check(got['cl_size'] == g['cl_size'].v, 'cacheline size')
            for key in POLICY:
                ctx.check(got[key] == g[key], key)
            for key in ('load_from', 'store_to'):
                ctx.check(got.get(key) == g.get(key), key)
        sim.dirty = sim.counts = True
        for a, b in zip(data['memory hierarchy'], orig['memory hierarchy']):
            same = ctx.all([a['cores per group'] == b['cores per group']] +
                           [a['cache per group'][k] == v
                            for k, v in b.get('cache per group', {}).items()])
            ctx.check(same, 'machine file is unchanged')


def cases(tier):
    quick = tier == 'quick'
    cs = [Case('calls-1', h_history, levels=3, calls=1, bounds='3 caches'),
          Case('calls-2', h_history, levels=2, calls=2, bounds='2 caches, 2 calls'),
          Case('calls-3', h_history, levels=1, calls=3, bounds='1 cache, 3 calls'),
          Case('machines-2', h_history, levels=1, calls=3, machines=2, time=120,
               bounds='2 machines in turn')]
    if not quick:
        cs += [Case('calls-5', h_history, levels=2, calls=5, time=1200, bounds='5 calls'),
               Case('machines-3', h_history, levels=2, calls=4, machines=3, time=1200,
                    bounds='3 machines')]
    return cs
