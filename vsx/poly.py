"""Polynomial normal form of z3 real terms, and a bound of a polynomial over the box of its variables.

Used before the solver on nonlinear differences: |p| <= tol for every input in its declared range when it holds with every
monomial replaced by an independent variable in its bound (a linear query).  Sound, incomplete; the nonlinear solver decides the rest.
"""
from fractions import Fraction
from .z3load import z3


class TooBig(Exception):
    pass


LIMIT = 40000


def _mul(p, q):
    if len(p) * len(q) > LIMIT * 8:
        raise TooBig()
    out = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            out[k] = out.get(k, 0) + a * b
    if len(out) > LIMIT:
        raise TooBig()
    return out


def normal(e, cache, atoms):
    k = e.get_id()
    if k in cache:
        return cache[k]
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = {(): v} if v else {}
    elif z3.is_int_value(e):
        v = Fraction(e.as_long())
        r = {(): v} if v else {}
    elif z3.is_app(e):
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB or d == z3.Z3_OP_UMINUS:
            r = {}
            for i, c in enumerate(ch):
                s = -1 if d == z3.Z3_OP_UMINUS or (d == z3.Z3_OP_SUB and i > 0) else 1
                for m, a in normal(c, cache, atoms).items():
                    r[m] = r.get(m, 0) + s * a
        elif d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = _mul(r, normal(c, cache, atoms))
        elif d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 6:
            r = {(): Fraction(1)}
            b = normal(ch[0], cache, atoms)
            for _ in range(ch[1].numerator_as_long()):
                r = _mul(r, b)
        elif d == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].numerator_as_long() != 0:
            q = Fraction(ch[1].denominator_as_long(), ch[1].numerator_as_long())
            r = {m: a * q for m, a in normal(ch[0], cache, atoms).items()}
        elif d == z3.Z3_OP_TO_REAL:
            r = normal(ch[0], cache, atoms)
        else:
            atoms[k] = e
            r = {(k,): Fraction(1)}
    else:
        atoms[k] = e
        r = {(k,): Fraction(1)}
    if len(r) > LIMIT:
        raise TooBig()
    cache[k] = r
    return r


def reduce_roots(p, roots, cache, atoms):
    """replace r*r by the term under the root; roots: {atom id: term}"""
    for _ in range(8):
        out, changed = {}, False
        for m, a in p.items():
            r = next((k for k in set(m) if k in roots and m.count(k) >= 2), None)
            if r is None or a == 0:
                out[m] = out.get(m, 0) + a
                continue
            changed = True
            rest = list(m)
            rest.remove(r)
            rest.remove(r)
            for n, b in _mul({tuple(rest): a}, roots[r] if isinstance(roots[r], dict) else normal(roots[r], cache, atoms)).items():
                out[n] = out.get(n, 0) + b
        p = out
        if not changed:
            break
    return p


def bounded(e, bounds, tol, roots=None):
    """True when |e| <= tol over the box; bounds: {name: (lo, hi)}"""
    atoms = {}
    try:
        cache = {}
        p = normal(e, cache, atoms)
        roots = dict(roots or {})
        n = -1
        while n != len(atoms):
            n = len(atoms)
            for k, a in list(atoms.items()):
                if k not in roots and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:     # |x| * |x| is x * x
                    x, y = normal(a.arg(1), cache, atoms), normal(a.arg(2), cache, atoms)
                    if x.keys() == y.keys() and all(x[m] == -y[m] for m in x):
                        roots[k] = _mul(x, x)
            p = reduce_roots(p, roots, cache, atoms)
    except (TooBig, RecursionError):
        return False
    tol = Fraction(tol)
    lim = {}
    for k, a in atoms.items():
        b = bounds.get(a.decl().name()) if z3.is_const(a) else None
        lim[k] = max(abs(Fraction(b[0])), abs(Fraction(b[1]))) if b and b[0] is not None and b[1] is not None else None
    # linear query: every monomial becomes a variable within its bound
    sol = z3.Solver()
    sol.set('timeout', 5000)
    terms = []
    for i, (m, c) in enumerate(p.items()):
        if c == 0:
            continue
        t = Fraction(1)
        for k in m:
            if lim[k] is None:
                return False
            t *= lim[k]
        x = z3.Real('m!%d' % i)
        sol.add(x <= q(t), x >= (q(t) if not m else q(-t)))
        terms.append(q(c) * x)
    if not terms:
        return True
    y = z3.Sum(terms)
    sol.add(z3.Or(y > q(tol), y < q(-tol)))
    return sol.check() == z3.unsat


def q(f):
    return z3.Q(f.numerator, f.denominator)


def nonlinear(e, seen=None, budget=[0]):
    """does the term multiply variables?"""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 4000:
            return True
        if z3.is_app(x):
            d = x.decl().kind()
            ch = x.children()
            if d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1:
                return True
            if d in (z3.Z3_OP_POWER, z3.Z3_OP_DIV) and not z3.is_rational_value(ch[0]):
                return True
            stack.extend(ch)
    return False
