"""Run the cases of a check: symbolic exploration in forked workers, then replay of every
candidate counterexample and of witness paths on the unmodified code."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


class Case:
    """One harness instance.  fn(ctx, **params) is run symbolically and concretely."""

    def __init__(self, name, fn, bounds='', time=60, max_paths=5000, witnesses=8, reach=(),
                 query_ms=8000, conc_cap=12, **params):
        self.name, self.fn, self.bounds, self.time = name, fn, bounds, time
        self.max_paths, self.witnesses, self.reach = max_paths, witnesses, reach
        self.query_ms, self.conc_cap, self.params = query_ms, conc_cap, params


def _setup_paths():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


class Zygote:
    """A forked process with the modules loaded which forks one child per job."""

    def __init__(self, mode, modname, njobs, workdir):
        self.mode, self.modname, self.njobs, self.workdir = mode, modname, njobs, workdir

    def run(self, jobs, hard_limit):
        """jobs: list of (id, payload); returns {id: result or {'status': ...}}"""
        out = os.path.join(self.workdir, self.mode)
        os.makedirs(out, exist_ok=True)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                self._zygote(jobs, hard_limit, out)
                code = 0
            except BaseException:
                with open(os.path.join(out, 'zygote_error'), 'w') as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(code)
        os.waitpid(pid, 0)
        res = {}
        for jid, _ in jobs:
            p = os.path.join(out, '%s.json' % jid)
            if os.path.exists(p):
                with open(p) as f:
                    res[jid] = json.load(f)
            else:
                res[jid] = {'status': 'died'}
        zerr = os.path.join(out, 'zygote_error')
        if os.path.exists(zerr):
            with open(zerr) as f:
                res['zygote_error'] = f.read()
        return res

    def _zygote(self, jobs, hard_limit, out):
        _setup_paths()
        scratch = os.path.join(self.workdir, 'home')
        os.makedirs(scratch, exist_ok=True)
        os.environ['HOME'] = scratch
        import symx
        if self.mode == 'sym':
            from symx import hook
            hook.install()
        mod = importlib.import_module(self.modname)
        pending = list(jobs)
        running = {}
        while pending or running:
            while pending and len(running) < self.njobs:
                jid, payload = pending.pop(0)
                pid = os.fork()
                if pid == 0:
                    self._child(mod, jid, payload, out)
                running[pid] = (jid, time.time(), payload.get('hard', hard_limit))
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid:
                running.pop(pid, None)
                continue
            now = time.time()
            for p, (jid, t0, lim) in list(running.items()):
                if now - t0 > lim:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    running.pop(p)
                    with open(os.path.join(out, '%s.json' % jid), 'w') as f:
                        json.dump({'status': 'hard-timeout'}, f)
            time.sleep(0.01)

    def _child(self, mod, jid, payload, out):
        code = 0
        try:
            os.setpgid(0, 0)
            d = os.path.join(self.workdir, 'cwd_%s_%s' % (self.mode, jid))
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            null = os.open(os.devnull, os.O_RDWR)
            log = os.open(os.path.join(out, '%s.log' % jid), os.O_WRONLY | os.O_CREAT)
            os.dup2(null, 0)
            os.dup2(log, 1)
            os.dup2(log, 2)
            f = run_symbolic if self.mode == 'sym' else run_concrete
            try:
                res = f(mod, payload)
            except BaseException:
                res = {'status': 'error', 'tb': traceback.format_exc()[-3000:]}
            tmp = os.path.join(out, '%s.tmp' % jid)
            with open(tmp, 'w') as fh:
                json.dump(res, fh)
            os.rename(tmp, os.path.join(out, '%s.json' % jid))
        finally:
            os._exit(code)


def find_case(mod, tier, name):
    for c in mod.cases(tier):
        if c.name == name:
            return c
    for c in mod.cases('thorough'):
        if c.name == name:
            return c
    raise KeyError(name)


class FunctionRecorder:
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        try:
            mon = sys.monitoring
            mon.use_tool_id(self.TOOL, 'symx')
            mon.register_callback(self.TOOL, mon.events.PY_START, self._cb)
            mon.set_events(self.TOOL, mon.events.PY_START)
            self.mon = mon
        except Exception:
            self.mon = None
        return self

    def _cb(self, code, off):
        fn = code.co_filename
        if '/kerncraft/' in fn and fn.startswith(REPO):
            self.seen.add('%s:%s' % (os.path.relpath(fn, REPO), code.co_qualname))
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.mon:
            self.mon.set_events(self.TOOL, 0)
            self.mon.free_tool_id(self.TOOL)


def run_symbolic(mod, payload):
    from symx import core, ctx
    case = find_case(mod, payload['tier'], payload['case'])
    e = core.Engine(time_limit=case.time, max_paths=case.max_paths,
                    query_timeout_ms=case.query_ms, concretize_cap=case.conc_cap,
                    seed=payload['seed'])

    def on_alarm(signum, frame):
        raise core.LimitReached('time limit (no progress)')
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(case.time) + 10)
    with FunctionRecorder() as rec:
        stuck = None
        try:
            e.explore(lambda c: case.fn(c, **case.params), ctx.SymCtx, case.witnesses)
        except core.LimitReached as ex:
            e.mark_incomplete(str(ex))
    signal.alarm(0)
    return dict(status='ok', stats=e.stats, candidates=e.candidates, witnesses=e.witnesses,
                unsupported=e.unsupported, complete=e.complete,
                incomplete_reason=e.incomplete_reason, sites=e.check_sites,
                functions=sorted(rec.seen))


def run_concrete(mod, payload):
    from symx import core, ctx
    case = find_case(mod, payload['tier'], payload['case'])
    c = ctx.ConcCtx(payload['inputs'])
    try:
        case.fn(c, **case.params)
    except ctx.AssumeFailed:
        return dict(status='assume')
    except core.CheckFailed as ex:
        return dict(status='violation', detail=str(ex)[:1500])
    except Exception as ex:
        tb = ex.__traceback__
        files = []
        while tb is not None:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        through = any(f.startswith(os.path.join(REPO, 'kerncraft')) for f in files)
        return dict(status='violation' if through else 'harness-error',
                    detail='unexpected %s: %s' % (type(ex).__name__, str(ex)[:500]),
                    tb=traceback.format_exc()[-3000:])
    return dict(status='pass', labels=c.labels)


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop = args.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    modname = 'checks.%s' % prop.lower()
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix='symx_%s_' % prop)
    try:
        if args.replay:
            return do_replay(args.replay, modname, workdir)
        return do_run(args, prop, seed, tier, modname, workdir, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def do_replay(path, modname, workdir):
    with open(path) as f:
        r = json.load(f)
    z = Zygote('conc', modname, 1, workdir)
    res = z.run([('r0', dict(tier=r['tier'], case=r['case'], inputs=r['inputs']))], 120)
    print(json.dumps(res.get('r0'), indent=1))
    return 1 if res['r0']['status'] in ('violation', 'hard-timeout') else 0


def case_list(modname, tier, workdir):
    """names and metadata of the cases, obtained in a child process"""
    p = os.path.join(workdir, 'cases.json')
    pid = os.fork()
    if pid == 0:
        try:
            _setup_paths()
            os.environ['HOME'] = workdir
            import symx
            mod = importlib.import_module(modname)
            with open(p, 'w') as f:
                json.dump([dict(name=c.name, bounds=c.bounds, time=c.time, reach=list(c.reach))
                           for c in mod.cases(tier)] +
                          [dict(meta=True, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))], f)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    os.waitpid(pid, 0)
    with open(p) as f:
        cs = json.load(f)
    return cs[:-1], cs[-1]


def do_run(args, prop, seed, tier, modname, workdir, t0):
    try:
        cases, meta = case_list(modname, tier, workdir)
    except Exception:
        # the modules under test can not even be loaded
        print('ERROR property=%s the check could not load the code under test' % prop)
        return 2
    if args.case:
        cases = [c for c in cases if args.case in c['name']]
    jobs = [('s%d' % i, dict(tier=tier, case=c['name'], seed=seed, hard=c['time'] + 40))
            for i, c in enumerate(cases)]
    order = sorted(jobs, key=lambda j: -j[1]['hard'])
    sym = Zygote('sym', modname, args.jobs, workdir).run(order, 600)
    results = []
    rjobs = []
    for (jid, pl), c in zip(jobs, cases):
        r = sym.get(jid, {'status': 'missing'})
        r['case'] = c
        results.append(r)
        if r['status'] != 'ok':
            continue
        for k, cand in enumerate(r['candidates']):
            rjobs.append(('%s_c%d' % (jid, k), dict(tier=tier, case=c['name'],
                                                    inputs=cand['inputs'], hard=60)))
        for k, w in enumerate(r['witnesses']):
            rjobs.append(('%s_w%d' % (jid, k), dict(tier=tier, case=c['name'], inputs=w,
                                                    hard=60)))
    conc = Zygote('conc', modname, args.jobs, workdir).run(rjobs, 60) if rjobs else {}
    known = load_known(prop)
    violations, spurious, harness_errors = [], [], []
    known_seen = set()
    witnesses_ok = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for (jid, pl), c, r in zip(jobs, cases, results):
        if r['status'] != 'ok':
            continue
        for kind, items in (('c', r['candidates']), ('w', r['witnesses'])):
            for k, it in enumerate(items):
                rid = '%s_%s%d' % (jid, kind, k)
                rr = conc.get(rid, {'status': 'missing'})
                inputs = it['inputs'] if kind == 'c' else it
                if rr['status'] in ('violation', 'hard-timeout'):
                    v = dict(property=prop, tier=tier, case=c['name'], inputs=inputs,
                             detail=rr.get('detail', 'does not terminate within 60 s'),
                             tb=rr.get('tb'),
                             label=it.get('label') if kind == 'c' else 'witness',
                             solver_msg=it.get('msg') if kind == 'c' else None)
                    kf = match_known(known, v)
                    if kf is not None:
                        known_seen.add(kf['what'])
                        continue
                    violations.append(v)
                elif rr['status'] == 'pass':
                    if kind == 'w':
                        witnesses_ok += 1
                    else:
                        spurious.append(dict(case=c['name'], label=it['label'], msg=it['msg'],
                                             inputs=inputs, tb=it.get('tb')))
                elif rr['status'] in ('harness-error', 'error', 'died', 'missing'):
                    harness_errors.append(dict(case=c['name'], detail=rr.get('detail'),
                                               tb=rr.get('tb'), status=rr['status'],
                                               inputs=inputs))
    reported = []
    seen = set()
    for v in violations:
        key = (v['case'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (prop, len(reported)))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        reported.append(path)
        if len(reported) <= 8:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  case %s: %s' % (v['case'], v['detail']))
            print('  inputs: %s' % json.dumps(v['inputs'])[:600])
    for k in known:
        # a listed finding is always announced; whether it was met in this run is in the evidence
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- evidence
    tot = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
    inconclusive = []
    for r in results:
        n = r['case']['name']
        if r['status'] != 'ok':
            inconclusive.append('%s: %s %s' % (n, r['status'], (r.get('tb') or '')[-800:]))
        else:
            if not r['complete']:
                inconclusive.append('%s: incomplete (%s)' % (n, r['incomplete_reason']))
            for u in r['unsupported']:
                inconclusive.append('%s: %s' % (n, u))
            if r['stats']['checks'] == 0:
                inconclusive.append('%s: vacuous, no assertion reached' % n)
            for lab in r['case']['reach']:
                if lab not in r['sites']:
                    inconclusive.append('%s: assertion %s not reached' % (n, lab))
    for s in spurious:
        inconclusive.append('%s: candidate for %s did not reproduce: %s %s %s' % (
            s['case'], s['label'], s['msg'], json.dumps(s['inputs'])[:200],
            (s.get('tb') or '')[-700:]))
    for h in harness_errors:
        inconclusive.append('%s: replay %s: %s %s' % (h['case'], h['status'], h['detail'],
                                                      (h['tb'] or '')[-500:]))
    if 'zygote_error' in sym:
        inconclusive.append('symbolic worker: ' + sym['zygote_error'][-1500:])
    if 'zygote_error' in conc:
        inconclusive.append('replay worker: ' + conc['zygote_error'][-1500:])
    functions = sorted(set(f for r in results for f in r.get('functions', [])))
    samples = []
    for r in results:
        if r.get('witnesses'):
            samples.append(dict(case=r['case']['name'], inputs=_short(r['witnesses'][0])))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot.get('paths', 0), transitions=tot.get('forks', 0) + tot.get('paths', 0),
            traces_validated_against_impl=witnesses_ok,
            samples=samples[:6] or [dict(note='no path completed')],
            explanation='states = symbolic path ends explored (each stands for all inputs '
                        'satisfying its path condition), transitions = feasible branch forks plus '
                        'paths; traces validated = solver models of paths replayed on the '
                        'unmodified code',
            cases=[dict(name=r['case']['name'], bounds=r['case']['bounds'],
                        status=r['status'], complete=r.get('complete'),
                        paths=r.get('stats', {}).get('paths'),
                        checks=r.get('stats', {}).get('checks'),
                        discharged=r.get('stats', {}).get('discharged'),
                        wall_s=round(r.get('stats', {}).get('wall_s', 0), 2))
                   for r in results],
            queries=tot.get('queries', 0), queries_unsat=tot.get('unsat', 0),
            queries_sat=tot.get('sat', 0), queries_unknown=tot.get('unknown', 0),
            solver_s=round(tot.get('solver_s', 0), 2),
            obligations=tot.get('checks', 0), obligations_discharged=tot.get('discharged', 0),
            obligations_trivial_after_simplification=tot.get('trivial', 0),
            concretized=tot.get('concretized', 0),
            functions_encoded=functions, inconclusive=inconclusive[:40],
            known_findings_met=sorted(known_seen)),
        assumptions=meta['assumptions'], wall_s=round(time.time() - t0, 2),
        violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    shown = set()
    for i in inconclusive:
        key = i[-120:]
        if key in shown or len(shown) >= 6:
            continue
        shown.add(key)
        print('INCONCLUSIVE', i[:250] + (' ... ' + i[-900:] if len(i) > 250 and args.v else ''))
    print('%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, solver %.1f s, '
          '%d witnesses replayed, %d violations, %d inconclusive, wall %.1f s' % (
              prop, tier, len(cases), tot.get('paths', 0), tot.get('checks', 0),
              tot.get('discharged', 0), tot.get('queries', 0), tot.get('solver_s', 0),
              witnesses_ok, len(reported), len(inconclusive), time.time() - t0))
    if args.v:
        for r in results:
            st = r.get('stats', {})
            print('  %-34s %s' % (r['case']['name'], ' '.join('%s=%s' % (
                k, round(v, 1) if isinstance(v, float) else v) for k, v in st.items() if v)))
    return 1 if reported else 0


def _short(x):
    return {k: v for k, v in list(x.items())[:20]}


def match_known(known, v):
    for k in known:
        m = k.get('match', {})
        if m.get('case') and m['case'] != v['case']:
            continue
        if m.get('label') and m['label'] != v['label']:
            continue
        if m.get('detail') and m['detail'] not in (v['detail'] or ''):
            continue
        if m.get('inputs') and any(v['inputs'].get(a) != b for a, b in m['inputs'].items()):
            continue
        return k
    return None
