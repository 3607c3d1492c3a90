"""Harness context, task execution, replay and the check driver."""
import importlib
import io
import json
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

from . import sym, snp, stubs, loader, poly, explog, text
from .sym import Sym, SymReal, SymInt, SymBool, SymComplex, Unsupported
from .z3load import z3
from .engine import Engine, explore, PathAbort, Found, Limit, Candidate, num

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SYM_TOL = 1e-5
CONC_TOL = 1e-6


class Violation(Exception):
    """concrete-mode assertion failure"""

    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class Skip(BaseException):
    """concrete values outside the harness' assumptions"""


class Ctx:
    symbolic = False

    # shared ------------------------------------------------------------------
    def _setup(self, scratch, worker):
        self.worker = worker
        self.env = worker.env(self.symbolic)
        self.env.reset()
        self.tmp = os.path.join(scratch, 'run')
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.np = self.env.numpy()
        self.labels = []

    def mod(self, name):
        return self.loader.load(name)

    @property
    def h5(self):
        if self.symbolic:
            return self.env.h5
        import h5py
        return h5py

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int('choice:' + name, 0, len(options) - 1)
        return options[int(i)]

    def array(self, name, shape, lo=-8.0, hi=8.0, kind='real'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for c in np.ndindex(*shape):
            n = '%s[%s]' % (name, ','.join(map(str, c)))
            out[c] = self.real(n, lo, hi) if kind == 'real' else self.int(n, lo, hi) if kind == 'int' else self.bool(n)
        return self.pack(out)

    def text(self, name, n, but='/'):
        """n characters, any printable ones but those given"""
        out = ''
        for i in range(n):
            c = self.int('%s.%d' % (name, i), 32, 126)
            for b in but:
                self.assume(c != ord(b))
            out += text.new(c) if self.symbolic else chr(c)
        return text.SymText(out) if self.symbolic else out

    def same(self, a, b):
        """two texts are equal"""
        if not isinstance(a, str) or not isinstance(b, str):
            return a is None and b is None
        return text.same(a, b) if self.symbolic else a == b

    def rng(self, tag='rng', bound=4.0):
        return stubs.ScriptRNG(self, tag, bound)

    def check_eq(self, got, want, label, scale=1.0, rel=None):
        raise NotImplementedError

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        except Unsupported:
            raise
        return False


def leaves(v, path=''):
    """flatten nested results to (path, scalar)"""
    if isinstance(v, dict):
        for k in sorted(v, key=str):
            yield from leaves(v[k], path + '.' + str(k))
    elif isinstance(v, np.ndarray):
        b = snp.base(v)
        yield path + '.shape', str(b.shape)
        for c in np.ndindex(*b.shape):
            yield path + str(list(c)), b[c]
    elif isinstance(v, (list, tuple)):
        yield path + '.len', len(v)
        for i, x in enumerate(v):
            yield from leaves(x, path + '[%d]' % i)
    else:
        yield path, v


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, engine, scratch, worker):
        self.eng = engine
        self._setup(scratch, worker)
        self.env.engine = lambda: engine
        self.loader = worker.fresh_loader(True)
        self.observed = []

    def real(self, name, lo=-8.0, hi=8.0):
        return self.eng.real(name, lo, hi)

    def int(self, name, lo=-8, hi=8):
        return self.eng.int(name, lo, hi)

    def bool(self, name):
        return self.eng.bool(name)

    def pack(self, a):
        r = snp.f_array(a)
        return r

    def assume(self, c):
        self.eng.assume(snp.f_all(c) if isinstance(c, np.ndarray) else c)

    def assume_branch(self, c):
        """prune by branch: cheaper than assume when c is decided elsewhere"""
        if not c:
            raise PathAbort()

    def check(self, cond, label):
        self.labels.append(label)
        if isinstance(cond, np.ndarray):
            cond = snp.f_all(cond)
        self.eng.assertion(cond, label)

    def fail(self, label):
        self.check(False, label)

    def check_eq(self, got, want, label, scale=1.0, rel=None):
        """equal up to an absolute tolerance (times scale), or up to a relative one"""
        self.labels.append(label)
        g, w = snp.toobj(got), snp.toobj(want)
        if g.shape != w.shape:
            self.eng.assertion(False, '%s (shape %s, expected %s)' % (label, g.shape, w.shape))
            return
        conds, strong = [], []
        tol = SYM_TOL * scale
        for a, b in zip(g.reshape(-1), w.reshape(-1)):
            ok, st = self._eq1(a, b, tol, scale, rel)
            if ok is True:
                continue
            conds.append(ok)
            strong.append(st)
        if not conds:
            self.eng.assertion(True, label)
            return
        c = z3.And(*[sym.zb(x) for x in conds])
        s = z3.Or(*[sym.zb(x) for x in strong])
        self.eng.assertion(sym.mkbool(z3.simplify(c)), label, strong=sym.mkbool(z3.simplify(s)))

    def _eq1(self, a, b, tol, scale, rel=None):
        if not sym.isnum(a) or not sym.isnum(b):
            ok = a is b or (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b)
            return (True, None) if ok else (np.bool_(False), np.bool_(True))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return (True, None) if conc_eq(a, b, scale, rel) else (np.bool_(False), np.bool_(True))
        if sym.special(a) or sym.special(b):
            return np.bool_(False), np.bool_(True)
        if sym.iscomplex_(a) or sym.iscomplex_(b):
            d = [sym.abs_(sym.sub(sym.cre(a), sym.cre(b))), sym.abs_(sym.sub(sym.cim(a), sym.cim(b)))]
            ok = sym.and_(sym.le(d[0], tol), sym.le(d[1], tol))
            st = sym.or_(sym.ge(d[0], 0.05 * scale), sym.ge(d[1], 0.05 * scale))
            return ok, st
        if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
            e = sym.eq(a, b)
            return e, sym.not_(e)
        d = sym.abs_(sym.sub(a, b))
        if not isinstance(d, Sym):
            ok = d <= (tol if rel is None else rel * abs(num_of(b)))
            return (True, None) if ok else (np.bool_(False), np.bool_(True))
        diff = sym.sub(a, b)
        if self.eng.ufs and explog.uses(sym.zr(a), sym.zr(b)) and explog.agree(sym.zr(a), sym.zr(b), self.eng.bounds, {r.e.get_id(): t for r, t in self.eng.roots.values()}, rel or 1e-9, self.eng.decided):
            self.eng.stats.normal_form += 1
            return True, None
        if rel is not None:
            m = sym.abs_(b)
            return sym.le(d, sym.mul(m, rel)), sym.gt(d, sym.mul(m, 100 * rel))
        if isinstance(diff, SymReal) and poly.nonlinear(diff.e) and poly.bounded(diff.e, self.eng.bounds, tol, {r.e.get_id(): t for r, t in self.eng.roots.values()}):
            self.eng.stats.normal_form += 1
            return True, None
        return sym.le(d, tol), sym.ge(d, 0.05 * scale)

    def observe(self, name, v):
        self.observed.append((name, _freeze(v)))


def _freeze(v):
    if isinstance(v, np.ndarray):
        return snp.base(v).copy() if snp.tdtype(v) == object else np.array(snp.base(v))
    if isinstance(v, dict):
        return {k: _freeze(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_freeze(x) for x in v]
    return v


def num_of(v):
    return float(v.real if isinstance(v, complex) else v)


def conc_eq(a, b, scale=1.0, rel=None):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a is b or a == b
    try:
        a, b = complex(a), complex(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if a == b:
        return True
    na, nb = (math.isnan(a.real) or math.isnan(a.imag)), (math.isnan(b.real) or math.isnan(b.imag))
    if na or nb:
        return na and nb
    if math.isinf(abs(a)) or math.isinf(abs(b)):
        return False
    if rel is not None:
        return abs(a - b) <= max(rel, 1e-9) * max(abs(a), abs(b))
    return abs(a - b) <= CONC_TOL * scale + 1e-7 * abs(b)


class ConcCtx(Ctx):
    symbolic = False

    def __init__(self, values, scratch, worker):
        self.values = values
        self._setup(scratch, worker)
        self.loader = worker.fresh_loader(False)
        self.observed = []
        self.checked = 0
        self.used = {}

    def _get(self, name, lo, hi, cast):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
        v = cast(v)
        self.used[name] = v
        return v

    def real(self, name, lo=-8.0, hi=8.0):
        return np.float64(self._get(name, lo, hi, float))

    def int(self, name, lo=-8, hi=8):
        return int(self._get(name, lo, hi, int))

    def bool(self, name):
        return bool(self._get(name, False, True, bool))

    def pack(self, a):
        a = np.array(a)
        if a.dtype == object:
            v = [x for x in a.reshape(-1)]
            if all(isinstance(x, (bool, np.bool_)) for x in v) and v:
                return a.astype(bool)
            if all(isinstance(x, (int, np.integer)) for x in v) and v:
                return a.astype(int)
            return a.astype(float)
        return a

    def assume(self, c):
        if not np.all(c):
            raise Skip()

    assume_branch = assume

    def check(self, cond, label):
        self.checked += 1
        self.labels.append(label)
        if not np.all(cond):
            raise Violation(label, 'condition is false')

    def fail(self, label):
        raise Violation(label, 'reached')

    def check_eq(self, got, want, label, scale=1.0, rel=None):
        self.checked += 1
        self.labels.append(label)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(label, 'shape %s, expected %s' % (g.shape, w.shape))
        gl, wl = g.reshape(-1), w.reshape(-1)
        for i in range(gl.size):
            if not conc_eq(gl[i], wl[i], scale, rel):
                raise Violation(label, 'element %d: got %r, expected %r' % (i, gl[i], wl[i]))

    def observe(self, name, v):
        self.observed.append((name, _freeze(v)))


# ---------------------------------------------------------------------------------------

class Worker:
    """per-process loaders and scratch space"""

    def __init__(self):
        self.scratch = loader.make_scratch()
        self.pkgdir = os.path.join(self.scratch, 'pkg')
        self._env = {s: stubs.Env(s, self.pkgdir) for s in (True, False)}
        self._code = {}
        import matplotlib
        matplotlib.use('Agg')

    def env(self, symbolic):
        return self._env[symbolic]

    def fresh_loader(self, symbolic):
        r = os.path.join(self.pkgdir, 'simim', 'resources', 'rootpath.txt')
        if os.path.exists(r):
            os.remove(r)
        env = self._env[symbolic]
        env.overrides = {}
        return CachedLoader(self.pkgdir, symbolic, env, self._code)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class CachedLoader(loader.Loader):
    def __init__(self, pkgdir, symbolic, env, code):
        self._codec = code
        super().__init__(pkgdir, symbolic, env)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        import types
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        code = self._codec.get(path)
        if code is None:
            with open(path) as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', SyntaxWarning)
                code = self._codec[path] = compile(src, path, 'exec')
        # the top package __init__ pulls in everything; load only what is asked for
        if name == 'simim':
            exec(compile('from ._paths import setupsimim\n', path, 'exec'), m.__dict__)
        else:
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m


_worker = None


def get_worker():
    global _worker
    if _worker is None:
        _worker = Worker()
        import atexit
        atexit.register(_worker.close)
    return _worker


def run_concrete(harness, cfg, values):
    r = run_concrete1(harness, cfg, values)
    if r[0] == 'violation' and harness.robust and not r[1].startswith('unexpected'):
        rnd = random.Random(0)
        for i in range(8):
            near = {k: v + rnd.choice((-1, 1)) * rnd.uniform(0.5, 1) * harness.robust * max(1.0, abs(v)) if type(v) is float else v for k, v in values.items()}
            r2 = run_concrete1(harness, cfg, near)
            if r2[0] == 'violation':
                return r
        return ('skip',)
    return r


def run_concrete1(harness, cfg, values):
    """-> ('ok', observed, checked) | ('violation', label, detail) | ('skip',)"""
    w = get_worker()
    c = ConcCtx(values, w.scratch, w)
    old = np.geterr()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.seterr(all='ignore')
            harness.fn(c, **cfg)
        return ('ok', c.observed, c.checked)
    except Violation as e:
        return ('violation', e.label, e.detail)
    except Skip:
        return ('skip',)
    except Unsupported as e:
        return ('error', str(e))
    except Exception as e:
        return ('violation', 'unexpected %s' % type(e).__name__, '%s\n%s' % (e, _tb(e)))
    finally:
        np.seterr(**old)


def _tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])


def eval_model(v, model):
    if isinstance(v, SymReal):
        return float(num(model.eval(v.e, model_completion=True)))
    if isinstance(v, SymInt):
        return int(num(model.eval(v.e, model_completion=True)))
    if isinstance(v, SymBool):
        return bool(z3.is_true(model.eval(v.e, model_completion=True)))
    if isinstance(v, SymComplex):
        return complex(eval_model(v.re, model), eval_model(v.im, model))
    return v


class Harness:
    def __init__(self, fn, configs, thorough, max_paths, uf, witness, name, doc, robust=None):
        self.robust = robust
        self.fn, self.configs, self.thorough = fn, configs, thorough
        self.max_paths, self.uf, self.witness, self.name, self.doc = max_paths, uf, witness, name, doc


REG = []


def harness(configs=None, thorough=None, max_paths=3000, uf=False, witness=12, robust=None):
    """uf=True: results contain uninterpreted functions, so model values of observations are not
    comparable with the real ones (the concrete run still checks every assertion).
    robust=eps: a violation counts only if it also occurs at points eps away from it (in some direction), so that
    rounding of values exactly at a threshold is not mistaken for one."""
    def d(fn):
        h = Harness(fn, [{}] if configs is None else configs, thorough, max_paths, uf, witness, fn.__name__, (fn.__doc__ or '').strip(), robust)
        REG.append(h)
        return h
    return d


def run_task(prop, hname, cfg, deadline, seed, known=()):
    """Explore one harness configuration completely."""
    mods = load_check(prop)
    h = next(x for x in mods if x.name == hname)
    w = get_worker()
    eng = Engine(max_paths=h.max_paths, deadline=deadline, seed=seed)
    res = {'harness': hname, 'cfg': cfg, 'violations': [], 'errors': [], 'known': [], 'samples': [], 'labels': {},
           'mismatch': []}
    wit = [0]

    def one(engine):
        ctx = SymCtx(engine, w.scratch, w)
        res['_ctx'] = ctx
        old = np.geterr()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                np.seterr(all='ignore')
                h.fn(ctx, **cfg)
        except Unsupported as e:
            r = engine.values_from([])
            raise Found(Candidate('unsupported', r[0] if r else {}, 'engine: %s at %s' % (e, _where(e)), 'unsupported'))
        except Exception as e:
            r = engine.values_from([])
            if r is None:
                if engine._check() == z3.unsat:
                    raise PathAbort()
                raise Found(Candidate('unexpected %s' % type(e).__name__, {}, 'no model: %s\n%s' % (e, _tb(e)), 'exc'))
            cands = [r[0]]
            r2 = engine.values_from([], prefer_dyadic=False)
            if r2:
                cands.append(r2[0])
            raise Found(Candidate('unexpected %s' % type(e).__name__, r[0], '%s\n%s' % (e, _tb(e)), 'exc'), cands)
        finally:
            np.seterr(**old)

    def known_match(label):
        for k in known:
            if k['harness'] == hname and label.startswith(k['label']) and all(cfg.get(a) == b for a, b in k.get('cfg', {}).items()):
                return k
        return None

    def on_path(outcome):
        kind, args = outcome
        ctx = res['_ctx']
        for l in ctx.labels:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        if kind == 'ok':
            if not ctx.labels:
                res['errors'].append('a path made no assertion (vacuous)')
                return True
            if wit[0] < h.witness:
                wit[0] += 1
                return witness(ctx)
            return False
        cand = args[0]
        cands = args[1] if len(args) > 1 else [cand.values]
        for vals in cands:
            r = run_concrete(h, cfg, vals)
            if r[0] == 'violation':
                k = known_match(r[1])
                if k:
                    if k['id'] not in res['known']:
                        res['known'].append(k['id'])
                    return False
                res['violations'].append({'label': r[1], 'detail': r[2][:3000], 'values': vals, 'sym_label': cand.label})
                return True
        # try other points on this path before giving up
        if True:
            for vals in more_models(eng, 6, seed):
                r = run_concrete(h, cfg, vals)
                if r[0] == 'violation' and not known_match(r[1]):
                    res['violations'].append({'label': r[1], 'detail': r[2][:3000], 'values': vals, 'sym_label': cand.label})
                    return True
        res['errors'].append('%s: %s: not reproduced on the real code (%s) %s' % (cand.kind, cand.label, cand.detail[:1500], json.dumps(cands[0], default=str)[:600]))
        return len(res['errors']) > 3

    def witness(ctx):
        r = next(iter(more_models(eng, 1, seed + wit[0], with_model=True)), None) or eng.values_from([])
        if r is None:
            eng.stats.unknown += 1
            return False
        vals, model = r
        eng.stats.witnesses += 1
        c = run_concrete(h, cfg, vals)
        if len(res['samples']) < 2:
            res['samples'].append({'harness': hname, 'cfg': _js(cfg), 'inputs': vals, 'outcome': c[0]})
        if c[0] == 'violation':
            k = known_match(c[1])
            if k:
                if k['id'] not in res['known']:
                    res['known'].append(k['id'])
                return False
            if h.uf and False:
                return False
            res['violations'].append({'label': c[1], 'detail': c[2][:3000], 'values': vals, 'sym_label': 'path witness'})
            return True
        if c[0] == 'skip':
            return False       # rounding moved the point out of the assumptions
        if c[0] == 'error':
            res['errors'].append('concrete run: ' + c[1])
            return True
        eng.stats.witness_checked += 1
        if not h.uf:
            m = compare(ctx.observed, c[1], model)
            if m:
                r2 = next(iter(more_models(eng, 1, seed, with_model=True)), None)
                if r2 is not None:
                    c2 = run_concrete(h, cfg, r2[0])
                    if c2[0] == 'ok' and not compare(ctx.observed, c2[1], r2[1]):
                        return False
                res['mismatch'].append('%s inputs %s' % (m, json.dumps(vals)[:800]))
                return True
        return False

    t = time.time()
    try:
        complete, why = explore(eng, one, on_path)
    except Exception as e:
        res['errors'].append('engine: %s' % ''.join(traceback.format_exception(e))[-3000:])
        complete, why = False, 'engine error'
    res.pop('_ctx', None)
    res['complete'] = complete or why == 'stopped'
    res['why'] = why
    res['wall'] = time.time() - t
    res['stats'] = eng.stats.dict()
    res['notes'] = sorted(set(eng.notes))[:10]
    res['conc_sites'] = eng.conc_sites
    if complete and eng.stats.paths == 0:
        res['errors'].append('no feasible path: vacuous harness')
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/vsx/' not in f.filename:
            return '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.line)
    return '?'


def more_models(eng, n, seed, with_model=False):
    """models of the path condition with inputs spread over their ranges (solver-checked one input at a time)"""
    rnd = random.Random(seed)
    sol = z3.Solver()
    sol.set('timeout', 2000)
    for c in eng.pc:
        sol.add(c)
    t0 = time.time()
    for it in range(n):
        if time.time() - t0 > 20:
            return
        sol.push()
        names = list(eng.inputs)
        rnd.shuffle(names)
        ok = sol.check() == z3.sat
        m = sol.model() if ok else None
        for name in names:
            if not ok or time.time() - t0 > 30:
                break
            e, k = eng.inputs[name]
            lo, hi = eng.bounds.get(name, (None, None))
            lo, hi = -8 if lo is None else lo, 8 if hi is None else hi
            if k == 'bool':
                c = e == z3.BoolVal(rnd.random() < 0.5)
            elif k == 'int':
                c = e == rnd.randint(int(lo), int(hi))
            else:
                a, b = math.ceil(float(lo) * 64), math.floor(float(hi) * 64)
                if b < a:
                    continue
                c = e == z3.Q(rnd.randint(a, b), 64)
                if name.startswith('choice:'):
                    continue
            sol.push()
            sol.add(c)
            r = sol.check()
            if r == z3.sat:
                m = sol.model()
            else:
                sol.pop()
        if m is not None:
            out = {}
            for name, (e, k) in eng.inputs.items():
                v = m.eval(e, model_completion=True)
                out[name] = float(num(v)) if k == 'real' else v.as_long() if k == 'int' else bool(z3.is_true(v))
            yield (out, m) if with_model else out
        sol = z3.Solver()
        sol.set('timeout', 2000)
        for c in eng.pc:
            sol.add(c)


def compare(symobs, concobs, model):
    if [n for n, _ in symobs] != [n for n, _ in concobs]:
        return 'observations differ: %s vs %s' % ([n for n, _ in symobs], [n for n, _ in concobs])
    for (n, a), (_, b) in zip(symobs, concobs):
        la, lb = list(leaves(a, n)), list(leaves(b, n))
        if len(la) != len(lb):
            return '%s: structure differs' % n
        for (pa, va), (pb, vb) in zip(la, lb):
            if pa != pb:
                return '%s vs %s' % (pa, pb)
            va = eval_model(va, model)
            if not (va is vb or conc_eq(va, vb, 1.0)):
                return '%s: symbolic %r, real %r' % (pa, va, vb)
    return None


def _js(x):
    return json.loads(json.dumps(x, default=str))


def load_check(prop):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    REG.clear()
    name = 'checks.' + prop.lower()
    if name in sys.modules:
        return sys.modules[name].HARNESSES
    m = importlib.import_module(name)
    m.HARNESSES = [h for h in REG if h.fn.__module__ == name]
    REG.clear()
    return m.HARNESSES
