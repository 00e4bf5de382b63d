"""Machines, kernels and predictors for the harnesses of the performance models."""
from kerncraft import machinemodel
from kerncraft.machinemodel import MachineModel
from kerncraft.prefixedunit import PrefixedUnit
from checks.util import mk_kernel


class Args:
    verbose = 0
    cores = 1
    cache_predictor = 'SIM'
    unit = 'cy/CL'
    asm_block = 'auto'
    pointer_increment = 'auto'
    incore_model = None

    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, n, v)


class Machine(MachineModel):
    """bandwidths are looked up in self.bw[level]; requests are recorded"""

    def __init__(self, data, bw=None):
        data.setdefault('kerncraft version', machinemodel.__version__)
        MachineModel.__init__(self, machine_yaml=data)
        self.bw = bw or {}
        self.asked = {}

    def get_bandwidth(self, cache_level, read_streams, write_streams, threads_per_core,
                      cores=None):
        self.asked[cache_level] = (read_streams, write_streams, threads_per_core, cores)
        return self.bw[cache_level], 'bench%d' % cache_level


def predictor(loads, stores):
    class Predictor:
        def __init__(self, kernel, machine, cores=1):
            self.kernel, self.machine, self.cores = kernel, machine, cores
            Predictor.used = self

        def get_loads(self):
            return list(loads)

        def get_stores(self):
            return list(stores)

        def get_misses(self):
            return list(loads[1:])

        def get_hits(self):
            return list(loads)

        def get_evicts(self):
            return list(stores[1:])

        def get_infos(self):
            return {}
    return Predictor


def plain_units(ctx):
    """arithmetic on quantities does not depend on the prefix chosen (decided by C02)"""
    if ctx.symbolic:
        PrefixedUnit.good_prefix = lambda self, *a, **k: ''


OPS = ['', ' + y[i+1]', ' + y[i+1] * z[i] - 3.0']


def kernel(ctx, steps=(1, 2, 4), types=('double', 'float', 'double _Complex'), flops=(0, 1, 3)):
    """returns a kernel, bytes per element, increment and floating point operations"""
    step = ctx.choice('step', steps)
    t = ctx.choice('type', types)
    f = ctx.choice('flops', flops)
    code = '%s x[400], y[400], z[400];\nfor(int i=0; i<300; i+=%d)\n  x[i] = y[i]%s;\n' % (
        t, step, OPS[(0, 1, 3).index(f)])
    esize = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}[t]
    return mk_kernel(code), esize, step, f


def conversions(ctx, conv, cy_cl, clock, its, flops, label=''):
    """the dictionary of equivalent quantities describes the same speed"""
    ctx.check(sorted(conv) == ['FLOP/s', 'It/s', 'cy/CL', 'cy/It'], 'units shown')
    for u, q in conv.items():
        ctx.check(q.unit == u, label + 'unit', '%s: %s' % (u, q.unit))
    ctx.close(float(conv['cy/CL']), cy_cl, label + 'cycles per cacheline')
    ctx.close(float(conv['cy/It']) * its, cy_cl, label + 'cycles per iteration')
    if ctx.fork(cy_cl == 0):
        ctx.check(float(conv['It/s']) == float('inf'), label + 'unlimited')
    else:
        ctx.close(float(conv['It/s']) * cy_cl, clock * its, label + 'iterations per second')
    if flops == 0:
        ctx.check(float(conv['FLOP/s']) == 0, label + 'no FLOPs')
    elif ctx.fork(cy_cl == 0):
        ctx.check(float(conv['FLOP/s']) == float('inf'), label + 'unlimited')
    else:
        ctx.close(float(conv['FLOP/s']) * cy_cl, clock * its * flops, label + 'FLOPs per second')
