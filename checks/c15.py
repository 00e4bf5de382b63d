"""C15: intermediates shared by processes: freshness, locks, interruptions."""
import os

from symx.runner import Case
from checks import fsmodel as fs
from checks.fsmodel import World, Machine, fake_open
from kerncraft import kernel as _k
from kerncraft import kerncraft as _main
from kerncraft import machinemodel as _mm
from kerncraft.kernel import KernelCode
from kerncraft.cacheprediction import LayerConditionPredictor, CacheSimulationPredictor

ASSUMPTIONS = ['files, flock, clock, compiler, analyzers are stand-ins; converting a lock is not '
               'atomic, a killed process loses its locks',
               'sources are not modified while kerncraft runs, time never stands still']

CODE = 'double a[N], b[N]; double s;\nfor(int i=1; i<N-1; ++i) a[i] = b[i-1] + s*b[i+1];'
SOURCE = 'dir/kernel.c'


class LC(LayerConditionPredictor):
    def build_symbolic_LCs(self):
        self.results = {'cache': [], 'conditions of': self.machine.get_identifier()}


class CSIM(CacheSimulationPredictor):
    def simulate(self):
        self.first_dim_factor, self.stats, self.pretty_stats = 8, ['stats'], 'pretty'


def kernel(machine, filename=SOURCE, order='N'):
    k = KernelCode(CODE, machine, filename=filename)
    for n in order:
        k.set_constant(n, 100)
    return k


def held(lock):
    return [m for m in lock.held().values()]


def job(what, machine):
    """what one kerncraft process does: returns all it read of intermediates"""
    k = kernel(machine)

    def content(path, lock):
        r = []
        for _ in range(2):      # it stays as it is while the lock is held
            with fake_open(path) as f:
                r.append(f.read())
        lock.close()
        return r

    def run():
        if what == 'header':
            _, lock = k.get_kernel_header()
            return content(k.get_intermediate_location(
                'kernel.h', machine_and_compiler_dependent=False), lock)
        if what == 'code':
            return content(*k.get_kernel_code())
        if what == 'main':
            return content(*k.get_main_code())
        if what == 'compile':
            return content(*k.compile_kernel())
        if what == 'assembly':
            return content(*k.compile_kernel(assembly=True, openmp=True))
        if what == 'build':
            return content(*k.build_executable())
        if what == 'incore':
            return k.incore_analysis(pointer_increment='auto')
        if what == 'iaca':
            return k.incore_analysis(asm_block=3, pointer_increment=-16, model='IACA')
        if what == 'lc':
            return LC(k, machine, symbolic=True).results
        if what == 'csim':
            c = CSIM(k, machine)
            return (c.first_dim_factor, c.stats, c.pretty_stats)
        raise ValueError(what)
    return run


def machine_(**kw):
    return Machine(models={'OSACA': 'CSX', 'IACA': 'SKX'}, **kw)


def reference(ctx, what):
    """result and files of a process running alone from scratch"""
    w = World(ctx, now=2000)
    w.mtimes[SOURCE] = 0
    fs.install(w)
    r = job(what, machine_())()
    return r, {p: f.content for p, f in w.files}


def setup(ctx, files, initial, **kw):
    """world before the processes start: files that may exist, be stale or fresh"""
    w = World(ctx, now=1001, **kw)
    m = machine_()
    w.code_time = ctx.int('code', 0, 1000)
    w.mtimes[SOURCE] = ctx.int('source', 0, 1000)
    m.time = ctx.int('machine', 0, 1000)
    fresh = {}
    if initial == 'none':
        return w, m, {p: False for p in files}
    exists = ctx.bool('exists')
    if not ctx.fork(exists):
        return w, m, {p: False for p in files}
    if initial == 'same':
        t = ctx.int('time', 0, 1000)
        times = {p: t for p in files}
    else:
        times = {p: ctx.int('time%d' % n, 0, 1000) for n, p in enumerate(sorted(files))}
    for p in sorted(files):
        f = fs.File(times[p])
        f.complete = True
        fresh[p] = ctx.fork(ctx.all(times[p] > w.code_time, times[p] > w.mtimes[SOURCE],
                                    times[p] > m.time))
        f.content = files[p] if fresh[p] else 'stale'
        w.files.append([p, f])
    return w, m, fresh


def verdict(ctx, w, procs, expected, killed=None):
    for p in w.problems:
        ctx.fail('sharing', '%s: %s' % p)
    for p in procs:
        if p.n == killed:
            continue
        if p.exc is not None:
            ctx.fail('no error', 'process %d: %s: %s' % (p.n, type(p.exc).__name__, p.exc))
        else:
            ctx.check(p.result == expected[p.n], 'result',
                      'process %d: %r' % (p.n, p.result))


def together(ctx, jobs, initial, preempts, crash=False):
    """processes running at the same time"""
    refs = {what: reference(ctx, what) for what in set(jobs)}
    files = {}
    for _, f in refs.values():
        files.update(f)
    w, m, fresh = setup(ctx, files, initial)
    fs.install(w)
    points = [ctx.int('switch%d' % n, 1, 120) for n in range(preempts)]
    for a, b in zip(points, points[1:]):
        ctx.assume(a < b)
    victim, at = None, None
    if crash:
        victim, at = 0, ctx.int('crash', 1, 120)
    procs = w.run([job(what, m) for what in jobs], preempt=points, victim=victim, crash=at)
    killed = victim if crash and procs[0].killed else None
    verdict(ctx, w, procs, [refs[what][0] for what in jobs], killed)
    if killed is None:
        for p in files:
            n = sum(1 for _, q in w.written if q == p)
            ctx.check(n == 0 or (not fresh[p] and n == 1), 'made once',
                      '%s written %d times' % (p, n))
    # whoever comes later gets the same
    for what in jobs:
        try:
            r = job(what, m)()
        except (Exception, SystemExit) as e:
            ctx.fail('later', '%s: %s: %s' % (what, type(e).__name__, e))
            continue
        for p in w.problems:
            ctx.fail('later', '%s: %s' % p)
        ctx.check(r == refs[what][0], 'later', '%s: %r' % (what, r))


def modes(ctx, preempts):
    """lock_intermediate: exclusive access for who must write, shared for who may read"""
    w, m, fresh = setup(ctx, {'dir/x': 'good'}, 'same')
    fs.install(w)
    points = [ctx.int('switch%d' % n, 1, 60) for n in range(preempts)]
    for a, b in zip(points, points[1:]):
        ctx.assume(a < b)
    inside = []

    def worker(k):
        def run():
            mode, lock = k.lock_intermediate('dir/x')
            w.sync()
            exclusive = mode == fs.fcntl.LOCK_EX
            others = list(inside)
            inside.append(exclusive)
            if exclusive:
                if others:
                    w.problem('exclusive access with others inside')
                if held(lock) != [fs.fcntl.LOCK_EX]:
                    w.problem('exclusive access without exclusive lock')
                w.create('dir/x')
                w.sync()
                f = w.find('dir/x')
                f.content = 'good'
                w.finish(f, 'dir/x')
                inside.remove(True)
                inside.append(False)
                k.release_exclusive_lock(lock)
                w.sync()
            else:
                if True in others:
                    w.problem('shared access while another one writes')
            if held(lock).count(fs.fcntl.LOCK_SH) != len(held(lock)) or not held(lock):
                w.problem('not a shared lock while reading')
            r = w.get('dir/x').content
            w.sync()
            r = [r, w.get('dir/x').content]
            inside.remove(False)
            lock.close()
            return r + [exclusive]
        return run
    procs = w.run([worker(kernel(m)) for _ in range(3)], preempt=points)
    for p in w.problems:
        ctx.fail('locks', '%s %s' % p)
    n = 0
    for p in procs:
        if p.exc is not None:
            ctx.fail('no error', '%s' % p.exc)
        else:
            ctx.check(p.result[:2] == ['good', 'good'], 'content', '%r' % (p.result,))
            n += p.result[2]
    ctx.check(n == (0 if fresh['dir/x'] else 1), 'writers', '%d of 3 write' % n)


def freshness(ctx, files, path):
    """an intermediate is used exactly if it is newer than everything it was made from"""
    w = World(ctx, now=ctx.int('now', 0, 10 ** 9))
    w.utc_offset = ctx.int('timezone', -12, 14) * 3600
    fs.install(w)
    times = [ctx.int('code%d' % n, 0, 10 ** 9) for n in range(files)]
    gone = [ctx.bool('gone%d' % n) for n in range(files)]
    source, machine = ctx.int('source', 0, 10 ** 9), ctx.int('machine', 0, 10 ** 9)
    t, exists = ctx.int('time', 0, 10 ** 9), ctx.bool('exists')
    w.mtimes[SOURCE] = source
    w.mtimes['machine.yml'] = machine

    class main_os:
        path = os.path

        @staticmethod
        def walk(top):
            # vanished files are listed, but are not there any more
            yield top, ['sub'], ['m%d.py' % n for n in range(files) if n % 2 == 0]
            yield top + '/sub', [], ['m%d.py' % n for n in range(files) if n % 2]

        @staticmethod
        def stat(p):
            n = int(os.path.basename(p)[1:-3])
            if ctx.fork(gone[n]):
                raise FileNotFoundError(p)
            return fs.Stat(times[n])
    _main.os, _main.datetime = main_os, fs.datetime
    _mm.os, _mm.datetime = fs.os_module(), fs.datetime
    f = getattr(_main.get_last_modified_datetime, 'cache_clear', None)
    if f:
        f()
    _k.kerncraft = _main
    mm = object.__new__(_mm.MachineModel)
    mm._path = 'machine.yml' if path else None
    mm._data = {}
    mm._args = None
    if ctx.fork(exists):
        x = fs.File(t)
        x.complete = True
        w.files.append(['dir/x', x])
        ctx.assume(t <= w.start)
    k = kernel(mm)
    got = k._check_freshness('dir/x')
    fresh = ctx.all([exists, t > source] +
                    [ctx.any(g, t > c) for g, c in zip(gone, times)] +
                    ([t > machine] if path else [False]))
    ctx.check(ctx.iff(got, fresh), 'fresh', 'taken for %sfresh' % ('' if got else 'not '))


def failing(ctx, what, **kw):
    """a run that fails says so, and leaves nothing that later runs would use"""
    w = World(ctx, now=1001, **kw)
    w.mtimes[SOURCE] = 0
    m = machine_()
    fs.install(w)
    again = ctx.choice('again', [1, 2])
    for _ in range(again):
        try:
            r = job(what, m)()
        except (Exception, SystemExit) as e:
            if isinstance(e, SystemExit):
                ctx.check(e.code not in (0, None), 'failure', 'exits with success')
        else:
            ctx.fail('failure', 'not reported')
        locks = [l for l, d in w.locks.items() if d]
        w.locks = {}
    w.broken_source = w.undetectable = False
    expected, files = None, None
    fs_now = w
    expected, files = reference(ctx, what)
    fs.install(fs_now)
    try:
        r = job(what, m)()
    except (Exception, SystemExit) as e:
        ctx.fail('repaired', '%s: %s' % (type(e).__name__, e))
        return
    ctx.check(r == expected, 'repaired', '%r' % (r,))
    for p in w.problems:
        ctx.fail('repaired', '%s: %s' % p)


def without_locks(ctx, what):
    """file systems without flock: a single process works as usual"""
    expected, files = reference(ctx, what)
    w, m, fresh = setup(ctx, files, 'same', no_locks=True)
    fs.install(w)
    for n in range(2):
        try:
            r = job(what, m)()
        except (Exception, SystemExit) as e:
            ctx.fail('no locks', '%s: %s' % (type(e).__name__, e))
            return
        ctx.check(r == expected, 'no locks', '%r' % (r,))


def cases(tier):
    q = tier == 'quick'
    T = 100 if q else 600
    P = 20000
    res = [
        Case('freshness', freshness, '2 code files, all times and time zones', time=T, max_paths=P,
             files=2, path=True, reach=('fresh',)),
        Case('freshness without file', freshness, '1 code file', time=T, max_paths=P, files=1,
             path=False, reach=('fresh',)),
        Case('locks', modes, '3 processes, %d switches' % (2 if q else 3), time=T, max_paths=P,
             preempts=2 if q else 3, reach=('content', 'writers'))]
    small, big = 2 if q else 3, 2
    for a, b in (('header', 'header'), ('code', 'code'), ('main', 'main'), ('lc', 'lc'),
                 ('csim', 'csim')):
        n = 1 if q and a == 'main' else small
        res.append(Case('%s+%s' % (a, b), together, '%d switches' % n, time=T, max_paths=P,
                        jobs=(a, b), initial='same', preempts=n, reach=('result',)))
        n = 0 if q and a in ('main', 'csim') else 1
        res.append(Case('%s killed' % a, together, '%d switches, killed at any step' % n,
                        time=T, max_paths=P, jobs=(a, b), initial='same', preempts=n, crash=True,
                        reach=('later',)))
    for a, b in (('compile', 'compile'), ('compile', 'assembly'), ('build', 'compile'),
                 ('build', 'build'), ('incore', 'incore'), ('incore', 'build'), ('iaca', 'incore'),
                 ('iaca', 'iaca')):
        n = 1 if q else big
        res.append(Case('%s+%s' % (a, b), together, '%d switches' % n, time=T, max_paths=P,
                        jobs=(a, b), initial='same', preempts=n, reach=('result',)))
    for a in ('compile', 'build', 'incore', 'iaca'):
        n = 0 if q else 1
        res.append(Case('%s killed' % a, together, '%d switches, killed at any step' % n, time=T,
                        max_paths=P, jobs=(a, a), initial='none', preempts=n, crash=True,
                        reach=('later',)))
        res.append(Case('%s mixed' % a, together, 'files of any age, one process after the other',
                        time=T, max_paths=P, jobs=(a,), initial='each', preempts=0,
                        reach=('result',)))
    if not q:
        for a in ('header', 'code', 'compile', 'incore'):
            res.append(Case('3 %s' % a, together, '3 processes, 2 switches', time=T, max_paths=P,
                            jobs=(a, a, a), initial='same', preempts=2, reach=('result',)))
    for what in ('compile', 'assembly', 'build', 'incore', 'iaca'):
        res.append(Case('%s fails' % what, failing, 'compiler error', time=T, what=what,
                        broken_source=True, reach=('repaired',)))
        res.append(Case('%s without flock' % what, without_locks, 'single process', time=T,
                        what=what, reach=('no locks',)))
    res.append(Case('undetectable increment', failing, '', time=T, what='incore',
                    undetectable=True, reach=('repaired',)))
    return res
