"""Path-exploring symbolic execution: re-run a harness once per feasible path.

Each time the code under test asks for the truth of a symbolic condition the
engine asks z3 which answers are feasible under the path condition, takes one
and queues the other.  Every assertion of a harness becomes the query
"path condition and not assertion" - unsat discharges it for all values of all
symbols on that path, sat yields a concrete counterexample.
"""
import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym, poly, explog
from .z3load import z3
from .poly import q
from .sym import SymReal, SymInt, SymBool, SymComplex, Sym, rv, Unsupported


class PathAbort(BaseException):
    """Path is infeasible or has been pruned by an assumption."""


class Found(BaseException):
    """A candidate counterexample ends the path."""


class Limit(BaseException):
    """Exploration budget exhausted."""


class Stats:
    FIELDS = ('paths', 'aborted', 'branches', 'forced', 'feasibility_queries', 'assert_queries', 'discharged',
              'trivial', 'concretised', 'witnesses', 'witness_checked', 'solver_s', 'unknown', 'normal_form')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Candidate:
    def __init__(self, label, values, detail, kind='assert'):
        self.label, self.values, self.detail, self.kind = label, values, detail, kind


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=4000, deadline=None, seed=1):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.seed = seed
        self.notes = []
        self.conc_sites = {}

    # -- one path ----------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('random_seed', self.seed)
        self.pc = []
        self.nl = False
        self.linear = z3.Solver()
        self.linear.set('timeout', 2000)
        self.inputs = {}
        self.bounds = {}
        self.order = []
        self.known = {}
        self.keep = []
        self.ufs = {}
        self.signs = {}
        self.roots, self.root_vars = {}, set()
        self.fresh_n = 0
        self.path_concretised = 0
        self.cands = []
        self.observed = []

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if poly.nonlinear(e):
            self.nl = True
        else:
            self.linear.add(e)

    def _check(self, *assumps):
        if self.deadline and time.time() > self.deadline:
            raise Limit('time')
        t = time.time()
        if self.nl and assumps and self.linear.check(*assumps) == z3.unsat:
            # already impossible without the nonlinear facts
            self.stats.solver_s += time.time() - t
            return z3.unsat
        r = self.solver.check(*assumps)
        self.stats.solver_s += time.time() - t
        return r

    def positive(self, e):
        """known to be positive (for every input in its declared range)"""
        if z3.is_const(e):
            b = self.bounds.get(e.decl().name())
            if b and b[0] is not None and b[0] > 0:
                return True
        k = e.get_id()
        if k not in self.signs:
            self.keep.append(e)
            self.signs[k] = bool(self.ufs or poly.nonlinear(e) or self.bounds) and explog.positive(e, self.bounds, {r.e.get_id(): t for r, t in self.roots.values()})
        return self.signs[k]

    def decided(self, c):
        """the truth of a condition on this path, when it has one"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        if self._check(z3.Not(c)) == z3.unsat:
            return True
        if self._check(c) == z3.unsat:
            return False
        return None

    def assume(self, cond):
        cond = sym.truth(cond)
        if not isinstance(cond, SymBool):
            if not cond:
                raise PathAbort()
            return
        self.add(cond.e)
        # feasibility is re-checked lazily, except here to keep vacuity out
        self.stats.feasibility_queries += 1
        if self._check() == z3.unsat:
            raise PathAbort()

    def branch(self, e):
        if isinstance(e, (bool, np.bool_)):
            return bool(e)
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.known:
            return self.known[k]
        neg = False
        if z3.is_not(e):
            k2 = e.arg(0).get_id()
            if k2 in self.known:
                return not self.known[k2]
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
        else:
            if self.deadline and time.time() > self.deadline:
                raise Limit('time')
            self.stats.feasibility_queries += 1
            rt = self._check(e)
            if rt == z3.unsat:
                d = False
                self.stats.forced += 1
            else:
                self.stats.feasibility_queries += 1
                rf = self._check(z3.Not(e))
                if rf == z3.unsat:
                    d = True
                    self.stats.forced += 1
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.stats.unknown += 1
                    d = True
                    self.stats.branches += 1
                    self.pending.append(self.trace + [False])
            self.trace.append(d)
        self.add(e if d else z3.Not(e))
        self.known[k] = d
        self.keep.append(e)
        return d

    def model_value(self, e, is_int):
        r = self._check()
        if r != z3.sat:
            raise PathAbort()
        v = self.solver.model().eval(e, model_completion=True)
        if is_int:
            return v.as_long() if z3.is_int(e) else math.floor(num(v))
        return num(v)

    def concretise_int(self, e):
        """Enumerate the feasible values of an integer term by forking."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for n in range(200):
            # deterministic: smallest feasible value first
            v = self._next_int(e)
            if self.branch(e == v):
                return v
        raise Unsupported('integer with too many values used concretely')

    split_floors = False

    def concretise_floor(self, e):
        """floor of a term, by forking over its feasible values (keeps the path condition free of integers)"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return math.floor(num(e))
        for n in range(200):
            v = self._next_int(e)
            if self.branch(z3.And(e >= v, e < v + 1)):
                return v
        raise Unsupported('floor with too many values')

    def _next_int(self, e):
        # replays have to make the same choice, so the value is recorded in the trace
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            return v[1]
        v = ('v', self.model_value(e, True))
        self.trace.append(v)
        return v[1]

    def concretise_real(self, e):
        """Last resort: fix a symbolic real to one feasible value (loses coverage, recorded)."""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(num(e))
        self.stats.concretised += 1
        self.path_concretised += 1
        site = _site()
        self.conc_sites[site] = self.conc_sites.get(site, 0) + 1
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos][1]
            self.trace.append(self.prefix[pos])
        else:
            v = self.model_value(e, False)
            self.trace.append(('v', v))
        self.add(e == rv(v))
        return float(v)

    # -- inputs --------------------------------------------------------------
    def _decl(self, name, e, kind, lo, hi):
        if name in self.inputs:
            return
        self.inputs[name] = (e, kind)
        self.bounds[name] = (lo, hi)
        self.order.append(name)
        if lo is not None:
            self.add(e >= (rv(lo) if kind == 'real' else int(lo)))
        if hi is not None:
            self.add(e <= (rv(hi) if kind == 'real' else int(hi)))

    def real(self, name, lo=None, hi=None):
        e = z3.Real(name)
        self._decl(name, e, 'real', lo, hi)
        return SymReal(e)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self._decl(name, e, 'int', lo, hi)
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        if name not in self.inputs:
            self.inputs[name] = (e, 'bool')
            self.order.append(name)
        return SymBool(e)

    def fresh(self, hint='t'):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (hint, self.fresh_n))

    def root(self, e):
        """non-negative square root of a term known non-negative"""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return np.float64(math.sqrt(num(e)))
        k = e.get_id()
        if k in self.roots:
            return self.roots[k][0]
        r = self.fresh('root')
        if self.linear_roots and self._band(e, r):
            s = SymReal(r)
            self.roots[k] = (s, e)
            self.root_vars.add(r.get_id())
            self.keep.append(e)
            return s
        self.add(r >= 0)
        self.add(r * r == e)
        for _, (o, oe) in self.roots.items():
            # monotone in the argument
            self.add(z3.Implies(e <= oe, r <= o.e))
            self.add(z3.Implies(e >= oe, r >= o.e))
        s = SymReal(r)
        self.roots[k] = (s, e)
        self.keep.append(e)
        return s

    branch_ite = False          # choose between real numbers by forking
    linear_roots = False        # enclose roots of univariate quadratics between linear bounds

    def _band(self, e, r):
        atoms = {}
        try:
            p = {m: c for m, c in poly.normal(e, {}, atoms).items() if c}
        except poly.TooBig:
            return False
        v = {x for m in p for x in m}
        if len(v) != 1 or any(len(m) > 2 for m in p):
            return False
        (v,) = v
        a, b, c = p.get((v, v), Fraction(0)), p.get((v,), Fraction(0)), p.get((), Fraction(0))
        if a <= 0:
            return False
        lo, hi = self.bounds.get(str(atoms[v]), (None, None))
        if lo is not None and hi is not None:
            lo, hi = Fraction(lo), Fraction(hi)
            ends = [a * u * u + b * u + c for u in (lo, hi)]
            mid = -b / (2 * a)
            if lo < mid < hi:
                ends.append(a * mid * mid + b * mid + c)
            x, y = (math.sqrt(max(u, 0)) for u in (min(ends), max(ends)))
            if y - x < 1e-9 * max(y, 1):
                # (almost) constant
                sl = Fraction(1, 10 ** 9)
                self.add(z3.And(r >= 0, r >= q(Fraction(x) - sl), r <= q(Fraction(y) + sl)))
                return True
        # e = a (v + b / 2a)^2 + rest
        rest = c - b * b / (4 * a)
        w = Fraction(math.sqrt(a))
        t = q(w) * (atoms[v] + q(b / (2 * a)))
        up = bool(self.branch(t >= 0))
        t = t if up else -t
        slack = Fraction(1, 10 ** 9)
        if rest < 0:
            if rest < -Fraction(1, 10 ** 10):
                return False
            self.add(z3.And(r >= 0, r >= t - q(Fraction(1, 10 ** 5)), r <= t + q(slack)))
            return True
        z = Fraction(math.sqrt(rest))
        # sqrt(t^2 + rest) lies between these
        self.add(z3.And(r >= 0, r >= t - q(slack), r >= q(z - slack), r <= t + q(z + slack), r * q(Fraction(141422, 100000)) >= t + q(z - slack)))
        lo, hi = self.bounds.get(str(atoms[v]), (None, None))
        if lo is not None and hi is not None:
            lo, hi = (Fraction(x) + b / (2 * a) for x in (lo, hi))
            lo, hi = (w * lo, w * hi) if up else (-w * hi, -w * lo)
            if lo + 1 < hi < lo + 10 ** 4:
                # convex: above its tangents, below its chords
                n = 6
                x = [Fraction(round(float(lo + (hi - lo) * i / n) * 4096), 4096) for i in range(n + 1)]
                x[0], x[n] = x[0] - Fraction(1, 4096), x[n] + Fraction(1, 4096)
                f = [Fraction(math.sqrt(u * u + rest)) for u in x]
                for u, g in zip(x, f):
                    if g:
                        d = Fraction(float(u / g))
                        self.add(r >= q(g - slack) + q(d) * (t - q(u)) - q(Fraction(1, 10 ** 12) * 10 ** 4))
                for i in range(n):
                    d = Fraction(float((f[i + 1] - f[i]) / (x[i + 1] - x[i])))
                    self.add(z3.Implies(z3.And(t >= q(x[i]), t <= q(x[i + 1])), r <= q(f[i] + Fraction(1, 10 ** 8)) + q(d) * (t - q(x[i]))))
        return True

    MONO = {'exp': 1, 'log': 1, 'log10': 1, 'log2': 1, 'arctan': 1, 'arcsin': 1, 'arccos': -1, 'tanh': 1}
    INV = {'log': 'exp', 'exp': 'log', 'log10': 'cpow:10.0', 'cpow:10.0': 'log10', 'cpow:2.0': 'log2',
           'log2': 'cpow:2.0'}
    FIX = {'exp': [(0, 1)], 'log': [(1, 0)], 'log10': [(1, 0), (10, 1)], 'log2': [(1, 0), (2, 1)],
           'arctan': [(0, 0)], 'tanh': [(0, 0)], 'cpow:10.0': [(0, 1), (1, 10)], 'cpow:2.0': [(0, 1), (1, 2)]}

    def uf(self, name, args, mono=None, positive=False, fix=()):
        """Uninterpreted real function with the axioms that matter: congruence (from z3),
        monotonicity, positivity, known fixed points and inverse pairs."""
        zargs = [z3.simplify(sym.zr(a)) for a in args]
        if len(zargs) == 1:
            a = zargs[0]
            if z3.is_rational_value(a) and name in ('exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arctan',
                                                    'tanh', 'arcsin', 'arccos'):
                return np.float64(getattr(np, name)(float(num(a))))
            if z3.is_rational_value(a) and name.startswith('cpow:'):
                return np.float64(float(name[5:]) ** float(num(a)))
            inv = self.INV.get(name)
            if inv and z3.is_app(a) and a.decl().name() == 'uf_' + inv:
                return SymReal(a.arg(0))
        f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(zargs) + 1)))
        t = f(*zargs)
        k = t.get_id()
        tab = self.ufs.setdefault(name, {})
        if k in tab:
            return SymReal(t)
        self.keep.append(t)
        m = mono if mono is not None else self.MONO.get(name)
        if name.startswith('cpow:'):
            m = 1 if float(name[5:]) > 1 else -1
            positive = True
        if name == 'exp' or name == 'pow':
            positive = True
        if name in ('sin', 'cos', 'tanh'):
            self.add(z3.And(t >= -1, t <= 1))
        if name in ('arctan', 'arcsin'):
            self.add(z3.And(t >= rv(-math.pi / 2), t <= rv(math.pi / 2)))
        if name == 'arctan2':
            y, x = zargs
            self.add(z3.And(t >= rv(-math.pi), t <= rv(math.pi), (y < 0) == (t < 0), z3.Implies(y == 0, t == z3.If(x >= 0, rv(0), rv(math.pi)))))
            self.add(z3.And(z3.Implies(x > 0, z3.And(t < rv(math.pi / 2), t > rv(-math.pi / 2))), z3.Implies(x < 0, z3.Or(t > rv(math.pi / 2), t < rv(-math.pi / 2)))))
            self.add(z3.Implies(z3.And(x == 0, y != 0), z3.Or(t == rv(math.pi / 2), t == rv(-math.pi / 2))))
        if name == 'sin' or name == 'cos':
            other = 'cos' if name == 'sin' else 'sin'
            g = z3.Function('uf_' + other, z3.RealSort(), z3.RealSort())
            self.add(t * t + g(zargs[0]) * g(zargs[0]) == 1)
        if positive:
            self.add(t > 0)
        if m and len(zargs) == 1:
            a = zargs[0]
            for (oa, ot) in list(tab.values()) + [((rv(p),), rv(q)) for p, q in list(self.FIX.get(name, ())) + list(fix)]:
                o = oa[0]
                if m > 0:
                    self.add((a < o) == (t < ot))
                    self.add((a == o) == (t == ot))
                else:
                    self.add((a < o) == (t > ot))
                    self.add((a == o) == (t == ot))
        if m and name == 'pow' or name == 'pow':
            # monotone in the base for one exponent; sign of the exponent is a number here or symbolic
            for (oa, ot) in tab.values():
                same = oa[1] == zargs[1]
                up = zargs[1] > 0
                self.add(z3.Implies(z3.And(same, up), (zargs[0] < oa[0]) == (t < ot)))
            self.add(z3.Implies(zargs[0] == 1, t == 1))
        tab[k] = (tuple(zargs), t)
        return SymReal(t)

    # -- assertions -----------------------------------------------------------
    def values_from(self, extra, prefer_dyadic=True):
        """Concrete input values for path condition + extra, dyadic when possible."""
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        for c in self.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        res = None
        if prefer_dyadic and any(k == 'real' for _, k in self.inputs.values()):
            for bits in (4, 12, 20):
                s.push()
                s.set('timeout', 4000)
                for i, (n, (e, k)) in enumerate(self.inputs.items()):
                    if k == 'real':
                        s.add(e * (1 << bits) == z3.ToReal(z3.Int('dy!%d' % i)))
                if s.check() == z3.sat:
                    res = s.model()
                s.pop()
                if res is not None:
                    break
        if res is None:
            s.set('timeout', self.timeout_ms)
            if s.check() == z3.sat:
                res = s.model()
        self.stats.solver_s += time.time() - t
        if res is None:
            return None
        out = {}
        for n, (e, k) in self.inputs.items():
            v = res.eval(e, model_completion=True)
            if k == 'real':
                out[n] = float(num(v))
            elif k == 'int':
                out[n] = v.as_long()
            else:
                out[n] = bool(z3.is_true(v))
        return out, res

    def assertion(self, cond, label, strong=None):
        """cond: SymBool/bool to hold.  strong: violation with a margin, tried first for the counterexample."""
        cond = sym.truth(cond)
        if not isinstance(cond, SymBool):
            if cond:
                self.stats.trivial += 1
                self.stats.assert_queries += 1
                self.stats.discharged += 1
                return
            self.stats.assert_queries += 1
            r = self.values_from([])
            if r is None:
                if self._check() == z3.unsat:
                    raise PathAbort()
                raise Unsupported('solver gave no model for a failing path (%s)' % label)
            raise Found(Candidate(label, r[0], 'assertion is false on this path'))
        self.stats.assert_queries += 1
        neg = z3.Not(cond.e)
        r = self._check(neg)
        if r == z3.unknown:
            r = self._second_opinion(neg)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Unsupported('solver unknown on assertion %s' % label)
        cands = []
        if strong is not None:
            strong = sym.truth(strong)
            se = strong.e if isinstance(strong, SymBool) else z3.BoolVal(bool(strong))
            m = self.values_from([se])
            if m:
                cands.append(m[0])
        m = self.values_from([neg])
        if m:
            cands.append(m[0])
        # a second, different point, in case rounding hides the first
        m2 = self.values_from([neg], prefer_dyadic=False)
        if m2:
            cands.append(m2[0])
        if not cands:
            raise Unsupported('counterexample without a model: %s' % label)
        raise Found(Candidate(label, cands[0], 'solver counterexample'), cands)

    def _second_opinion(self, neg):
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout', self.timeout_ms * 2)
        s.set('random_seed', self.seed + 7)
        for c in self.pc:
            s.add(c)
        s.add(neg)
        t = time.time()
        try:
            g = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver()
            g.set('timeout', self.timeout_ms * 2)
            for c in self.pc:
                g.add(c)
            g.add(neg)
            r = g.check()
            if r != z3.unknown:
                return r
            return s.check()
        finally:
            self.stats.solver_s += time.time() - t


def num(v):
    """python Fraction of a z3 numeral"""
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise Unsupported('not numeric: %s' % v)


def _site():
    for f in reversed(traceback.extract_stack()):
        if '/vsx/' not in f.filename and 'numpy' not in f.filename:
            return '%s:%d' % (os.path.basename(f.filename), f.lineno)
    return '?'


def explore(engine, run_one, on_path):
    """Depth-first over decision prefixes.  run_one(engine) runs the harness once.
    Returns (complete, reason)."""
    work = [[]]
    sym.set_engine(engine)
    while work:
        if engine.stats.paths + engine.stats.aborted >= engine.max_paths:
            return False, 'path limit %d' % engine.max_paths
        if engine.deadline and time.time() > engine.deadline:
            return False, 'time limit'
        prefix = work.pop()
        engine.begin(prefix)
        outcome = None
        try:
            run_one(engine)
            outcome = ('ok', None)
        except PathAbort:
            engine.stats.aborted += 1
        except Limit as e:
            return False, 'limit: %s' % e
        except Found as e:
            outcome = ('found', e.args)
        work.extend(engine.pending)
        if outcome:
            engine.stats.paths += 1
            stop = on_path(outcome)
            if stop:
                return False, 'stopped'
    return True, ''
