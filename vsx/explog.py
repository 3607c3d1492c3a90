"""Normal form of terms built from exponentials, logarithms and powers:  sum of  c * (product of atoms) * exp(form).

A real that is positive over its declared range is exp(its logarithm), so that products, quotients, powers, 10**x, exp, log and log10 of such terms
meet in one form however they were written; the difference of two terms is then decided by a linear query in which every distinct
atoms-and-exponential product is a variable of its own.  Sound up to rounding (1e-9 relative), incomplete.
"""
import math
from fractions import Fraction
from .z3load import z3

LIMIT = 400


class No(Exception):
    pass


LN10 = math.log(10)
# a value is {key: coefficient}; a key is (atoms, form): atoms a sorted tuple of atom names, form a sorted tuple of (key, coefficient)
ONE = ((), ())


TOL = [1e-10]


def _close(x, y):
    return abs(x - y) <= TOL[0] * max(abs(x), abs(y), 1e-9)


def shape(k):
    return (k[0], tuple(shape(f) for f, _ in k[1]))


def coefs(k):
    out = []
    for f, c in k[1]:
        out += coefs(f)
        out.append(c)
    return out


def same(k, l):
    return k == l or (shape(k) == shape(l) and all(_close(a, b) for a, b in zip(coefs(k), coefs(l))))


def put(n, k, c):
    if k in n:
        n[k] += c
        return
    if k[1] and n:
        for l in n:
            if l[1] and same(k, l):
                n[l] += c
                return
    n[k] = c
    if len(n) > LIMIT:
        raise No()


def add(*ns):
    out, mag = {}, {}
    for n in ns:
        for k, c in n.items():
            put(out, k, c)
            put(mag, k, abs(c))
    return {k: c for k, c in out.items() if abs(c) > 1e-13 * mag.get(k, 0)}


def scale(n, s):
    return {k: c * s for k, c in n.items()} if s else {}


def _sorted(form):
    return tuple(sorted(((k, c) for k, c in form.items()), key=lambda t: (repr(shape(t[0])), t[1])))


def mulkey(k, l):
    if k == ONE:
        return l
    if l == ONE:
        return k
    if not k[1] or not l[1]:
        return (tuple(sorted(k[0] + l[0])), k[1] or l[1])
    return (tuple(sorted(k[0] + l[0])), _sorted(add(dict(k[1]), dict(l[1]))))


def mul(a, b):
    out = {}
    for k, c in a.items():
        for l, d in b.items():
            put(out, mulkey(k, l), c * d)
    return add(out)


def const(c):
    return {ONE: c} if c else {}


class Normal:
    def __init__(self, bounds, roots, decide=None):
        self.bounds, self.roots, self.decide = bounds, roots, decide
        self.cache = {}
        self.names = {}
        self.sums = []
        self.keep = []

    def positive(self, e):
        if z3.is_const(e):
            b = self.bounds.get(e.decl().name())
            return bool(b and b[0] is not None and b[0] > 0)
        return False

    def nonneg(self, name):
        b = self.bounds.get(name[1]) if name[0] == 'a' else None
        return bool(b and b[0] is not None and b[0] >= 0)

    def exp(self, n):
        if not n:
            return const(1.0)
        n = dict(n)
        c = n.pop(ONE, 0.0)
        if abs(c) > 600:
            raise No()
        # c log of an atom that is the logarithm of a single known sum stays in the form
        return {((), _sorted(n)): math.exp(c)}

    def log(self, n):
        if not n:
            raise No()
        if len(n) == 1:
            (k, c), = n.items()
            if c <= 0:
                raise No()
            out = const(math.log(c))
            for f, d in k[1]:
                out = add(out, {f: d})
            for a in k[0]:
                out = add(out, {((('log', a),), ()): 1.0})
            return out
        # divide by a positive term
        lead = sorted((k for k, c in n.items() if c > 0 and not k[0]), key=lambda k: (repr(shape(k)), coefs(k)))
        if lead:
            k0 = lead[0]
            t = {k0: n[k0]}
            return add(self.log(t), {((self.sum('logsum', mul(n, self.inv(t))),), ()): 1.0})
        k0 = sorted(n, key=lambda k: (repr(shape(k)), coefs(k)))[0]
        s = abs(n[k0])
        return add(const(math.log(s)), {((self.sum('logsum', scale(n, 1 / s)),), ()): 1.0})

    def sum(self, kind, n):
        """the atom that stands for a function of a sum: one per value"""
        for kd, m, name in self.sums:
            if kd == kind and equal(m, n):
                return name
        name = (kind, '%04d' % len(self.sums))
        self.sums.append((kind, n, name))
        return name

    def inv(self, n):
        if not n:
            raise No()
        if len(n) == 1:
            (k, c), = n.items()
            return {(tuple(sorted(self.inva(a) for a in k[0])), tuple((f, -d) for f, d in k[1])): 1 / c}
        if all(c > 0 and all(self.nonneg(a) for a in k[0]) for k, c in n.items()):
            return self.exp(scale(self.log(n), -1.0))
        k0 = sorted(n, key=lambda k: (repr(shape(k)), coefs(k)))[0]
        s = n[k0]
        return {((self.sum('inv', scale(n, 1 / s)),), ()): 1 / s}

    def inva(self, a):
        return a[1] if a[0] == 'over' else ('over', a)

    def powr(self, n, p):
        if len(p) == 0:
            return const(1.0)
        if len(p) == 1 and ONE in p and p[ONE] == int(p[ONE]) and 0 < abs(p[ONE]) <= 6:
            q = int(p[ONE])
            b = n if q > 0 else self.inv(n)
            out = const(1.0)
            for _ in range(abs(q)):
                out = mul(out, b)
            return out
        return self.exp(mul(p, self.log(n)))

    def atom(self, e):
        self.keep.append(e)
        if z3.is_const(e):
            if self.positive(e):
                return {((), ((((('a', 'ln ' + e.decl().name()),), ()), 1.0),)): 1.0}
            return {((('a', e.decl().name()),), ()): 1.0}
        return {((('t', str(e.get_id())),), ()): 1.0}

    def __call__(self, e):
        k = e.get_id()
        if k not in self.cache:
            self.keep.append(e)
            self.cache[k] = self.cancel(self._normal(e))
            if len(self.cache) > 4000:
                raise No()
        return self.cache[k]

    def cancel(self, n):
        """a * (1/a) is 1"""
        if not any(a[0] == 'over' for k in n for a in k[0]):
            return n
        out = {}
        for k, c in n.items():
            m = list(k[0])
            for a in list(m):
                if a[0] == 'over' and a in m and a[1] in m:
                    m.remove(a)
                    m.remove(a[1])
            put(out, (tuple(m), k[1]), c)
        return add(out)

    def _normal(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = float(Fraction(e.numerator_as_long(), e.denominator_as_long())) if z3.is_rational_value(e) else float(e.as_long())
            return const(v)
        if not z3.is_app(e):
            raise No()
        d, ch = e.decl().kind(), e.children()
        if d == z3.Z3_OP_ADD:
            return add(*[self(c) for c in ch])
        if d == z3.Z3_OP_SUB:
            return add(self(ch[0]), *[scale(self(c), -1.0) for c in ch[1:]])
        if d == z3.Z3_OP_UMINUS:
            return scale(self(ch[0]), -1.0)
        if d == z3.Z3_OP_MUL:
            out = const(1.0)
            for c in ch:
                out = mul(out, self(c))
            return out
        if d == z3.Z3_OP_DIV:
            return mul(self(ch[0]), self.inv(self(ch[1])))
        if d == z3.Z3_OP_POWER:
            return self.powr(self(ch[0]), self(ch[1]))
        if d == z3.Z3_OP_TO_REAL:
            return self(ch[0])
        if d == z3.Z3_OP_ITE:
            known = self.decide(ch[0]) if self.decide else None
            if known is not None:
                return self(ch[1] if known else ch[2])
            a, b = self(ch[1]), self(ch[2])
            return a if equal(a, b) else self.atom(e)
        name = e.decl().name()
        if name == 'uf_exp':
            return self.exp(self(ch[0]))
        if name.startswith('uf_cpow:'):
            return self.exp(scale(self(ch[0]), math.log(float(name[8:]))))
        if name == 'uf_log':
            return self.log(self(ch[0]))
        if name == 'uf_log10':
            return scale(self.log(self(ch[0])), 1 / LN10)
        if name == 'uf_log2':
            return scale(self.log(self(ch[0])), 1 / math.log(2))
        if name == 'uf_pow':
            return self.powr(self(ch[0]), self(ch[1]))
        if name.startswith('uf_') and ch:
            return {((('f:' + name, self.args([self(c) for c in ch])),), ()): 1.0}
        r = self.roots.get(e.get_id())
        if r is not None:
            return self.powr(self(r), const(0.5))
        return self.atom(e)

    def args(self, ns):
        """one name per value of the arguments of an uninterpreted function"""
        out = []
        for n in ns:
            out.append(self.sum('arg', n)[1])
        return ','.join(out)


def equal(a, b):
    d = add(a, scale(b, -1.0))
    up = {}
    for n in (a, b):
        for k, c in n.items():
            put(up, k, abs(c))
    return all(abs(c) <= 10 * TOL[0] * next(v for l, v in up.items() if same(k, l)) for k, c in d.items())


def agree(x, y, bounds, roots, rel=1e-9, decide=None):
    """True when x and y have one value, up to rounding, for every input in its range"""
    TOL[0] = max(1e-10, rel / 100)
    try:
        nf = Normal(bounds, roots, decide)
        a, b = nf(x), nf(y)
        d = add(a, scale(b, -1.0))
    except (No, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        return False
    if not d:
        return True
    if any(not math.isfinite(c) for c in list(d.values()) + list(a.values())):
        return False
    # every product of atoms and exponentials becomes a variable: |sum d_i m_i| <= rel * sum |a_i| |m_i| for every m
    sol = z3.Solver()
    sol.set('timeout', 5000)
    up = {}
    for k, c in a.items():
        put(up, k, abs(c))
    for k, c in b.items():
        put(up, k, abs(c))
    terms, mags = [], []
    for i, (k, c) in enumerate(d.items()):
        m, u = z3.Real('m!%d' % i), z3.Real('u!%d' % i)
        sol.add(u >= m, u >= -m)
        w = next((v for l, v in up.items() if same(k, l)), 0.0)
        terms.append(z3.Q(*Fraction(c).as_integer_ratio()) * m)
        mags.append(z3.Q(*Fraction(w).as_integer_ratio()) * u)
    y, t = z3.Sum(terms), z3.Q(*Fraction(rel).as_integer_ratio()) * z3.Sum(mags)
    sol.add(z3.Or(y > t, -y > t))
    return sol.check() == z3.unsat


def positive(e, bounds, roots):
    """is the term a sum of positive terms?"""
    try:
        nf = Normal(bounds, roots)
        n = nf(e)
    except (No, RecursionError, OverflowError, ZeroDivisionError, ValueError):
        return False
    return bool(n) and all(c > 0 and all(nf.nonneg(a) for a in k[0]) for k, c in n.items()) and any(not k[0] for k in n)


def uses(*es):
    """do the terms contain exponentials, logarithms or powers?"""
    stack, seen = list(es), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in ('uf_exp', 'uf_log', 'uf_log10', 'uf_log2', 'uf_pow') or x.decl().name().startswith('uf_cpow:'):
                return True
            stack.extend(x.children())
    return False
