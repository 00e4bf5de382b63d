"""Stand-ins for what kerncraft processes share: files, flock, the clock and the compiler.

Processes are threads of which exactly one runs at a time; they hand over at every operation on
shared state (lock, existence, open, close, replace, compiler run).  Where the others get their turn
and where a process is killed are symbolic step numbers of the caller."""
import copy
import os as _os
import re as _re
import subprocess as _subprocess
import sys as _sys
import threading
import time as _time

from kerncraft import kernel as _k
from kerncraft import cacheprediction as _cp

_TOK = _re.compile('(\ue000.*?\ue001)')


class Killed(BaseException):
    pass


class Unsupported(BaseException):
    pass


def unsupported(what):
    from symx import core
    raise core.Inconclusive('stand-in does not support ' + what)


def token_values(text):
    from symx import strings
    return [strings.TOKENS[t][0] for t in text if t[:1] == '\ue000']


def same(ctx, a, b):
    """condition for two texts with numbers in them to be equal"""
    if a == b:
        return True
    if not ctx.symbolic or ('\ue000' not in a and '\ue000' not in b):
        return False
    pa, pb = _TOK.split(a), _TOK.split(b)
    if '\ue000' in a and '\ue000' in b:
        if pa[::2] != pb[::2]:
            return False
        return ctx.all([x == y for x, y in zip(token_values(pa), token_values(pb))])
    if '\ue000' in b:
        a, b, pa = b, a, pb
    m = _re.fullmatch(''.join(_re.escape(p) if n % 2 == 0 else '(-?[0-9]+)'
                              for n, p in enumerate(pa)), b)
    if not m:
        return False
    return ctx.all([v == int(g) for v, g in zip(token_values(pa), m.groups())])


class File:
    def __init__(self, mtime):
        self.content, self.mtime, self.complete, self.writers = '', mtime, False, 0


class World:
    """file system and processes"""
    current = None

    def __init__(self, ctx, now=0, detected=8, undetectable=False, no_locks=False,
                 broken_source=False):
        self.ctx, self.start = ctx, now
        self.files = []         # [path, File]
        self.mtimes = {}        # path of a source -> time of last modification
        self.code_time = 0
        self.locks = {}         # lock path -> {lock file object: mode}
        self.ticks = 0
        self.procs, self.running = [], None
        self.detected, self.undetectable = detected, undetectable
        self.no_locks, self.broken_source = no_locks, broken_source
        self.written = []       # (process, path) of every file completed
        self.problems = []

    def now(self):
        return self.start + self.ticks

    def find(self, path):
        path = norm(path)
        for p, f in self.files:
            if p == path:
                return f
        for p, f in self.files:
            if self.ctx.fork(same(self.ctx, p, path)):
                return f
        return None

    def forget(self, path):
        f = self.find(path)
        self.files = [e for e in self.files if e[1] is not f]
        return f

    def create(self, path):
        f = self.find(path)
        if f is None:
            f = File(None)
            self.files.append([norm(path), f])
        if f.writers:
            self.problem('two processes write the same file', path)
        self.tick()
        f.content, f.complete, f.mtime = '', False, self.now()
        f.writers += 1
        return f

    def finish(self, f, path):
        self.tick()
        f.complete, f.mtime = True, self.now()
        f.writers -= 1
        self.written.append((self.proc(), norm(path)))

    def get(self, path):
        f = self.find(path)
        if f is None:
            raise FileNotFoundError(path)
        if not f.complete:
            self.problem('reads an incomplete file', path)
        return f

    def using(self, path, exclusive=False):
        """a process uses or replaces a file that processes lock: it has to have it locked"""
        if self.no_locks:
            return
        lock = norm(path) + '.lock'
        for p, held in self.locks.items():
            if p == lock or self.ctx.fork(same(self.ctx, p, lock)):
                mine = [m for fd, m in held.items() if fd.proc is self.proc()]
                if not mine:
                    self.problem('replaces a file without lock' if exclusive else
                                 'uses a file without lock', path)
                elif exclusive and fcntl.LOCK_EX not in mine:
                    self.problem('replaces a file with shared lock', path)
                return

    def problem(self, what, path=''):
        if (what, path) not in self.problems:
            self.problems.append((what, str(path)))

    def tick(self):
        self.ticks += 1

    # ---- processes ------------------------------------------------------------------------
    def proc(self):
        return getattr(threading.current_thread(), 'proc', None)

    def sync(self):
        p = self.proc()
        if p is not None:
            p.handover()

    def wait(self, cond):
        p = self.proc()
        if p is None:
            assert cond(), 'waits for itself'
            return
        while not cond():
            p.waits = cond
            p.handover()
        p.waits = None

    def run(self, jobs, preempt=(), victim=None, crash=None):
        """run the jobs as processes, handing over before the steps in *preempt* and killing
        process *victim* before its step *crash*.  Returns processes."""
        self.procs = [Proc(self, n, j) for n, j in enumerate(jobs)]
        step, cur = 0, 0
        own = [0] * len(jobs)
        try:
            while True:
                alive = [p for p in self.procs if not p.done]
                if not alive:
                    break
                ready = [p for p in alive if p.waits is None or p.waits()]
                if not ready:
                    self.problem('processes wait for each other forever')
                    break
                step += 1
                others = [p for p in ready if p.n != cur]
                me = [p for p in ready if p.n == cur]
                if not me:
                    cur = others[0].n
                elif others and self.ctx.fork(self.ctx.any([step == x for x in preempt] or [False])):
                    later = [p.n for p in others if p.n > cur]
                    cur = later[0] if later else others[0].n
                p = self.procs[cur]
                own[cur] += 1
                if cur == victim and self.ctx.fork(own[cur] == crash):
                    p.kill()
                    continue
                p.resume()
                if p.engine_exc is not None:
                    raise p.engine_exc
        finally:
            for p in self.procs:
                if not p.done:
                    p.kill()
        self.steps = step
        return self.procs


class Proc:
    def __init__(self, world, n, job):
        self.world, self.n, self.job = world, n, job
        self.done = self.killed = False
        self.waits = self.engine_exc = self.result = self.exc = None
        self.fds = []
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.proc = self
        self.thread.start()

    def main(self):
        self.go.acquire()
        try:
            if not self.killed:
                self.result = self.job()
        except Killed:
            pass
        except (Exception, SystemExit) as e:
            self.exc = e
        except BaseException as e:
            self.engine_exc = e
        for fd in self.fds:
            fd.drop()
        self.done = True
        self.back.release()

    def handover(self):
        if self.killed:
            raise Killed()
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed()

    def resume(self):
        self.go.release()
        self.back.acquire()

    def kill(self):
        """the process vanishes: nothing it would do any more has an effect"""
        self.killed = True
        for _, f in self.world.files:
            if f.writers and getattr(f, 'writer', None) is self:
                f.writers = 0
        for fd in self.fds:
            fd.drop()
        self.resume()

    @property
    def dead(self):
        return self.killed


def norm(path):
    return _os.path.normpath(path)


def W():
    w = World.current
    p = w.proc()
    if p is not None and p.killed:
        raise Killed()
    return w


class LockFile:
    def __init__(self, path):
        self.path = norm(path)
        self.closed = False
        p = self.proc = W().proc()
        if p is not None:
            p.fds.append(self)

    def held(self):
        w = World.current
        for p in list(w.locks):
            if p == self.path or w.ctx.fork(same(w.ctx, p, self.path)):
                return w.locks[p]
        return w.locks.setdefault(self.path, {})

    def drop(self):
        for d in World.current.locks.values():
            d.pop(self, None)

    def close(self):
        if not self.closed:
            self.closed = True
            self.drop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return self

    def write(self, *a):
        pass

    def __del__(self):
        try:
            self.drop()
        except Exception:
            pass


class Handle:
    """an open file"""

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.name = path
        w = W()
        w.sync()
        self.writing = mode[0] != 'r' or '+' in mode
        if mode[0] == 'w':
            self.f = w.create(path)
            self.f.writer = w.proc()
        elif mode[0] == 'r':
            self.f = w.get(path)
            w.using(path, self.writing)
            if self.writing:
                self.f.writers += 1
                self.f.writer = w.proc()
                self.f.complete = False
        else:
            unsupported('open mode ' + mode)
        self.closed = False
        self.pos = 0

    def read(self):
        return self.f.content

    def __iter__(self):
        return iter(self.f.content.splitlines(True))

    def readlines(self):
        return list(self)

    def write(self, text):
        W()
        if self.mode[0] == 'r':
            self.f.content = text if self.pos == 0 else self.f.content + text
            self.pos = 1
        else:
            self.f.content = self.f.content + text

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def seek(self, n):
        self.pos = n

    def truncate(self):
        pass

    def flush(self):
        pass

    def close(self):
        if self.closed:
            return
        w = W()
        self.closed = True
        if self.writing:
            w.sync()
            w.finish(self.f, self.path)

    def __enter__(self):
        return self

    def __exit__(self, t, *a):
        self.close()


def fake_open(path, mode='r', *a, **kw):
    if str(path).endswith('.lock'):
        return LockFile(path)
    return Handle(path, mode)


class fcntl:
    LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8

    @staticmethod
    def flock(fp, mode):
        w = W()
        if w.no_locks:
            raise OSError('no locks here')
        fp.drop()               # converting a lock is not atomic
        w.sync()
        if mode == fcntl.LOCK_UN:
            return
        held = fp.held()
        if mode == fcntl.LOCK_EX:
            w.wait(lambda: not held)
        elif mode == fcntl.LOCK_SH:
            w.wait(lambda: fcntl.LOCK_EX not in held.values())
        else:
            unsupported('lock mode')
        held[fp] = mode


class Stat:
    def __init__(self, t):
        self.st_mtime = t


class path_module:
    def __getattr__(self, n):
        if n in ('join', 'dirname', 'basename', 'splitext', 'abspath', 'realpath', 'relpath',
                 'normpath', 'sep', 'split', 'isabs', 'expanduser'):
            return getattr(_os.path, n)
        unsupported('os.path.' + n)

    @staticmethod
    def exists(path):
        w = W()
        w.sync()
        return norm(path) in w.mtimes or w.find(path) is not None

    isfile = exists

    @staticmethod
    def getmtime(path):
        return os_module.stat(path).st_mtime


class os_module:
    path = path_module()
    sep = '/'
    environ = {'LIKWID_LIB': '', 'LIKWID_INC': '', 'LIKWID_INCLUDE': ''}
    getpid = staticmethod(_os.getpid)
    fspath = staticmethod(_os.fspath)

    def __getattr__(self, n):
        unsupported('os.' + n)

    @staticmethod
    def stat(path):
        w = W()
        if norm(path) in w.mtimes:
            return Stat(w.mtimes[norm(path)])
        w.sync()
        f = w.find(path)
        if f is None:
            raise FileNotFoundError(path)
        return Stat(f.mtime)

    @staticmethod
    def makedirs(path, exist_ok=False):
        W()

    @staticmethod
    def replace(a, b):
        w = W()
        w.sync()
        f = w.forget(a)
        if f is None:
            raise FileNotFoundError(a)
        w.forget(b)
        w.using(b, True)
        w.files.append([norm(b), f])
        w.written.append((w.proc(), norm(b)))

    rename = replace

    @staticmethod
    def unlink(path):
        w = W()
        w.sync()
        if w.forget(path) is None:
            raise FileNotFoundError(path)

    remove = unlink


class datetime:
    @staticmethod
    def utcfromtimestamp(t):
        return t

    @staticmethod
    def utcnow():
        return W().now()

    @staticmethod
    def now(tz=None):
        return W().now() + W().utc_offset

    utc_offset = 0


World.utc_offset = 0


class pickle_module:
    @staticmethod
    def dump(obj, path, *a, **kw):
        w = W()
        w.sync()
        f = w.create(path)
        f.writer = w.proc()
        w.sync()
        f.content = copy.deepcopy(obj)
        w.finish(f, path)

    @staticmethod
    def load(path, *a, **kw):
        w = W()
        w.sync()
        w.using(path)
        return copy.deepcopy(w.get(path).content)


class subprocess_module:
    CalledProcessError = _subprocess.CalledProcessError

    def __getattr__(self, n):
        unsupported('subprocess.' + n)

    @staticmethod
    def check_output(cmd, *a, **kw):
        """the compiler: what it makes is a function of flags and contents of its inputs"""
        w = W()
        cmd = list(cmd)
        if '' in cmd:
            raise _subprocess.CalledProcessError(1, cmd)
        o = cmd.index('-o')
        out = cmd[o + 1]
        rest = cmd[:o] + cmd[o + 2:]
        w.sync()

        def snapshot():
            res = []
            for c in rest[1:]:
                if c.startswith('-'):
                    # where headers are does not matter
                    res.append('-I' if c.startswith('-I') else c)
                    continue
                f = w.find(c)
                if f is None:
                    if c.endswith('dummy.c'):
                        res.append('dummy.c')
                    elif '.' in _os.path.basename(c):
                        raise _subprocess.CalledProcessError(1, cmd)
                    else:
                        res.append(c)
                    continue
                if not f.complete:
                    w.problem('compiles an incomplete file', c)
                res.append(f.content)
                w.using(c)
                if '#include "kernel.h"' in f.content:
                    h = w.find(_os.path.join(_os.path.dirname(c), 'kernel.h'))
                    if h is None:
                        w.problem('kernel.h is not where it is included', c)
                        raise _subprocess.CalledProcessError(1, cmd)
                    if not h.complete:
                        w.problem('compiles an incomplete file', 'kernel.h')
                    w.using(_os.path.join(_os.path.dirname(c), 'kernel.h'))
                    res.append(h.content)
            return res
        before = snapshot()
        f = w.create(out)
        f.writer = w.proc()
        w.sync()
        if snapshot() != before:
            w.problem('input of the compiler changes meanwhile', out)
        if w.broken_source:
            f.writers -= 1
            raise _subprocess.CalledProcessError(1, cmd)
        f.content = '%s<%s>' % (cmd[0], '|'.join(before))
        w.finish(f, out)
        return b''

    call = check_call = check_output


class incore_module:
    def __getattr__(self, n):
        unsupported('incore_model.' + n)

    @staticmethod
    def asm_instrumentation(input_file, output_file=None, block_selection='auto',
                            pointer_increment='auto_with_manual_fallback', debug=False, isa='x86',
                            cache=True):
        w = W()
        code = input_file.read()
        if not isinstance(pointer_increment, int):
            if w.undetectable:
                if pointer_increment == 'auto':
                    os_module.unlink(output_file.name)
                raise RuntimeError('undetectable')
            pointer_increment = w.detected
        output_file.write('marked<%s|%s|%s>pointer_increment=%s hash'
                          % (code, block_selection, isa, pointer_increment))
        return ['line'], pointer_increment

    @staticmethod
    def _analyse(kind):
        def analyse(path, parameter, isa=None, **kw):
            w = W()
            w.sync()
            w.using(path)
            return {'output': '%s<%s|%s|%s>' % (kind, w.get(path).content, parameter, isa)}
        return staticmethod(analyse)


for _n, _kind in (('osaca_analyse_instrumented_assembly', 'osaca'),
                  ('llvm_mca_analyse_instrumented_assembly', 'mca'),
                  ('iaca_analyse_instrumented_binary', 'iaca')):
    setattr(incore_module, _n, incore_module._analyse(_kind))


class atexit:
    @staticmethod
    def register(*a, **kw):
        pass


class _Env:
    def __getattr__(self, n):
        unsupported(n)


def install(world):
    World.current = world
    _k.os = os_module()
    _k.fcntl = _cp.fcntl = fcntl
    _k.open = fake_open
    _k.datetime = datetime
    _k.compress_pickle = _cp.compress_pickle = pickle_module
    _k.subprocess = subprocess_module()
    _k.incore_model = incore_module()
    _k.atexit = atexit
    _k.shutil = _Env()
    _k.shutil.__dict__['rmtree'] = None

    class code_module:
        @staticmethod
        def get_last_modified_datetime(*a):
            return World.current.code_time
    _k.kerncraft = code_module


class Machine(dict):
    """a machine description"""

    def __init__(self, identifier='machine.yml', cacheline=64, compiler='gcc', flags=('-O3',),
                 models=None, isa='x86', sim=None):
        dict.__init__(self, {'cacheline size': cacheline, 'isa': isa,
                             'in-core model': models or {'OSACA': 'CSX'}})
        self.identifier, self.compiler, self.flags = identifier, compiler, flags
        self.sim = sim
        self.time = 0

    def get_identifier(self):
        return self.identifier

    def get_compiler(self):
        return self.compiler, list(self.flags)

    def get_incore_model(self, model=None):
        return model or next(iter(self['in-core model']))

    def get_last_modified_datetime(self):
        return self.time

    def get_cachesim(self, cores=1):
        return self.sim(cores)
