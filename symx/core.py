"""Path explorer: depth-first search over branch decisions by re-execution, z3 decides feasibility.

Every proxy value (see values.py) carries a z3 term.  Taking the truth value of a symbolic
boolean asks the solver which outcomes are feasible under the current path condition and forks.
``Ctx.check`` asks the solver for values violating an assertion on the current path.
"""
import time
import traceback
from fractions import Fraction

import z3


class PathAbort(BaseException):
    """The current path is infeasible / assumed away."""


class LimitReached(BaseException):
    """An exploration bound was hit; the run is incomplete."""


class Inconclusive(BaseException):
    """The path can not be modelled (unsupported operation)."""


class CheckFailed(Exception):
    """Concrete mode only: an assertion of a harness failed."""


ENGINE = None   # the engine exploring right now (None: concrete mode)

_simplify = z3.simplify


class Engine:
    def __init__(self, time_limit=120, max_paths=20000, query_timeout_ms=8000, concretize_cap=12,
                 max_candidates=6, seed=1):
        self.time_limit = time_limit
        self.max_paths = max_paths
        self.concretize_cap = concretize_cap
        self.max_candidates = max_candidates
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.solver.set('random_seed', seed)
        self.query_timeout_ms = query_timeout_ms
        self.trace = []         # list of [chosen, list of remaining alternatives]
        self.pos = 0
        self.stats = dict(paths=0, aborted=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
                          checks=0, discharged=0, forks=0, concretized=0, trivial=0,
                          unsupported=0)
        self.candidates = []
        self.witnesses = []
        self.unsupported = []
        self.check_sites = {}
        self.complete = True
        self.incomplete_reason = None
        self.inputs = {}        # name -> (kind, term(s))
        self.path_constraints = []
        self.functions = set()

    # ---- solver -------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.stats['queries'] += 1
        if t > self.deadline:
            raise LimitReached('time limit')
        left = max(200, int((self.deadline - t) * 1000))
        self.solver.set('timeout', min(self.query_timeout_ms, left))
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown and getattr(self, 'nla_fallback', True):
            t = time.time()
            s = z3.Tactic('qfnra-nlsat').solver() if self._all_real(extra) else None
            if s is not None:
                s.set('timeout', min(self.query_timeout_ms, left))
                s.add(*self.path_constraints)
                s.add(*extra)
                r = s.check()
                if r == z3.sat:
                    self._fallback_model = s.model()
            self.stats['solver_s'] += time.time() - t
            if r != z3.unknown:
                self.stats[str(r)] += 1
                self._use_fallback_model = (r == z3.sat)
                return r
        self._use_fallback_model = False
        self.stats[str(r)] += 1
        return r

    def _all_real(self, extra):
        return True

    def _model(self):
        if getattr(self, '_use_fallback_model', False):
            return self._fallback_model
        return self.solver.model()

    def add(self, term):
        self.solver.add(term)
        self.path_constraints.append(term)

    # ---- decisions ----------------------------------------------------------------------
    def branch(self, term):
        """Fork on a z3 boolean term, returns the python bool chosen for this path."""
        term = _simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        nterm = z3.Not(term)
        if self.pos < len(self.trace):
            chosen = self.trace[self.pos][0]
            self.pos += 1
            self.add(term if chosen else nterm)
            return chosen
        rt = self._check(term)
        if rt == z3.unsat:
            alts = [False]
        else:
            rf = self._check(nterm)
            if rf == z3.unsat:
                alts = [True]
            else:
                alts = [True, False]
                self.stats['forks'] += 1
        chosen = alts.pop(0)
        self.trace.append([chosen, alts])
        self.pos += 1
        self.add(term if chosen else nterm)
        return chosen

    def choose(self, n):
        """Nondeterministic choice of 0..n-1 (harness level; no solver query needed)."""
        if self.pos < len(self.trace):
            chosen = self.trace[self.pos][0]
            self.pos += 1
            return chosen
        alts = list(range(n))
        chosen = alts.pop(0)
        self.trace.append([chosen, alts])
        self.pos += 1
        return chosen

    def concretize(self, term, convert):
        """Pick a value for term: forks over its feasible values (bounded by concretize_cap)."""
        term = _simplify(term)
        v = convert(term)
        if v is not None:
            return v
        self.stats['concretized'] += 1
        n = 0
        while True:
            # each iteration is one decision: "term == value" or not; value must be
            # deterministic for replay, so it is stored in the trace
            if self.pos < len(self.trace):
                val, alts, take = self.trace[self.pos][2], None, self.trace[self.pos][0]
                self.pos += 1
            else:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Inconclusive('concretize: solver answered unknown')
                val = self._model().eval(term, model_completion=True)
                rn = self._check(term != val)
                alts = [] if rn == z3.unsat else [False]
                if alts and n >= self.concretize_cap:
                    alts = []
                    self.mark_incomplete('concretize cap')
                self.trace.append([True, alts, val])
                self.pos += 1
                take = True
            if take:
                self.add(term == val)
                return convert(_simplify(val))
            self.add(term != val)
            n += 1

    def mark_incomplete(self, why):
        self.complete = False
        self.incomplete_reason = self.incomplete_reason or why

    # ---- exploration --------------------------------------------------------------------
    def explore(self, fn, ctx_factory, max_witnesses=12):
        global ENGINE
        self.start = time.time()
        self.deadline = self.start + self.time_limit
        ENGINE = self
        last_wit = 0
        try:
            while True:
                self.pos = 0
                self.path_constraints = []
                self.inputs = {}
                self.solver.push()
                self.path_notes = []
                ended = 'ok'
                ctx = ctx_factory(self)
                try:
                    fn(ctx)
                except PathAbort:
                    ended = 'abort'
                except Inconclusive as e:
                    ended = 'unsupported'
                    self.stats['unsupported'] += 1
                    if len(self.unsupported) < 10:
                        self.unsupported.append(str(e)[:300])
                except CheckFailed:
                    ended = 'violated'
                except z3.Z3Exception as e:
                    ended = 'unsupported'
                    self.stats['unsupported'] += 1
                    if len(self.unsupported) < 10:
                        self.unsupported.append('z3: ' + traceback.format_exc()[-600:])
                except RecursionError:
                    ended = 'unsupported'
                    self.stats['unsupported'] += 1
                    self.unsupported.append('RecursionError')
                except Exception as e:
                    # the code under test raised something the harness does not expect
                    ended = 'exception'
                    self.candidate('exception', '%s: %s' % (type(e).__name__, str(e)[:300]),
                                   tb=traceback.format_exc()[-1500:])
                if ended == 'abort':
                    self.stats['aborted'] += 1
                else:
                    self.stats['paths'] += 1
                if ended in ('ok', 'unsupported') and self.want_witness(max_witnesses):
                    if self._check() == z3.sat:
                        self.witnesses.append(self.model_inputs())
                self.solver.pop()
                if len(self.candidates) >= self.max_candidates:
                    self.mark_incomplete('stopped after %d candidates' % len(self.candidates))
                    break
                # backtrack
                while self.trace and not self.trace[-1][1]:
                    self.trace.pop()
                if not self.trace:
                    break
                last = self.trace[-1]
                last[0] = last[1].pop(0)
                if self.stats['paths'] + self.stats['aborted'] >= self.max_paths:
                    self.mark_incomplete('max paths')
                    break
                if time.time() > self.deadline:
                    self.mark_incomplete('time limit')
                    break
        except LimitReached as e:
            self.mark_incomplete(str(e))
            # a path without end is one for the replay on the real code too
            self.deadline = time.time() + 10
            try:
                if self._check() == z3.sat:
                    self.witnesses.append(self.model_inputs())
            except (LimitReached, z3.Z3Exception):
                pass
        finally:
            ENGINE = None
        self.stats['wall_s'] = time.time() - self.start

    def want_witness(self, maxw):
        n = self.stats['paths']
        if len(self.witnesses) >= maxw:
            return False
        return n <= 4 or (n & (n - 1)) == 0 or n % 50 == 0

    def candidate(self, label, msg, term=None, tb=None):
        """Record a candidate violation: model of the path condition (and term)."""
        r = self._check(*([] if term is None else [term]))
        if r == z3.sat:
            self.candidates.append(dict(label=label, msg=msg, inputs=self.model_inputs(), tb=tb))
            return True
        if r == z3.unknown:
            self.stats['unsupported'] += 1
            self.unsupported.append('unknown verdict at %s: %s' % (label, msg))
        return False

    def model_inputs(self):
        m = self._model()
        res = {}
        for name, (kind, terms) in self.inputs.items():
            if kind == 'int':
                res[name] = ['int', m.eval(terms, model_completion=True).as_long()]
            elif kind == 'bool':
                res[name] = ['bool', z3.is_true(m.eval(terms, model_completion=True))]
            elif kind == 'real':
                res[name] = ['real', _frac(m.eval(terms, model_completion=True))]
            elif kind == 'str':
                res[name] = ['str', ''.join(chr(m.eval(t, model_completion=True).as_long())
                                            if not isinstance(t, int) else chr(t) for t in terms)]
            elif kind == 'const':
                res[name] = ['const', terms]
        return res

    def check(self, term, label, msg='', refine=None):
        """Assert term on the current path; refine: weaker violation term to be tried first."""
        self.stats['checks'] += 1
        self.check_sites[label] = self.check_sites.get(label, 0) + 1
        term = _simplify(term)
        if z3.is_true(term):
            self.stats['trivial'] += 1
            self.stats['discharged'] += 1
            return True
        nterm = z3.Not(term)
        if refine is not None:
            r = self._check(_simplify(refine))
            if r == z3.sat:
                self.candidates.append(dict(label=label, msg=msg, inputs=self.model_inputs(),
                                            tb=None))
                return False
            # only a violation below the margin is left
        r = self._check(nterm)
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return True
        if r == z3.sat:
            self.candidates.append(dict(label=label, msg=msg, inputs=self.model_inputs(), tb=None,
                                        within_margin=refine is not None))
            return False
        self.stats['unsupported'] += 1
        if len(self.unsupported) < 10:
            self.unsupported.append('unknown verdict at check %s' % label)
        return False


def _frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    f = Fraction(v.numerator_as_long(), v.denominator_as_long())
    return [f.numerator, f.denominator]
