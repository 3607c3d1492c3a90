"""Symbolic scalars over z3 terms, with numpy's scalar semantics.

Every function here takes a mixture of ordinary numbers and symbolic values.
Reals are mathematical reals (no rounding), ints are mathematical integers.
A symbolic real is always finite; nan and +-inf stay concrete floats and are
produced by explicit forks (division by zero, log of zero, sqrt of a negative).
"""
import builtins
import math
from fractions import Fraction

import numpy as np

from .z3load import z3

ENG = None  # the current engine (one per process, set by engine.run)


def set_engine(e):
    global ENG
    ENG = e


class Unsupported(Exception):
    """The engine cannot encode an operation."""


_rv = {}


def rv(x):
    """z3 rational for a concrete number, exactly."""
    f = Fraction(x) if not isinstance(x, Fraction) else x
    r = _rv.get(f)
    if r is None:
        r = _rv[f] = z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    return r


class Sym:
    __array_priority__ = 1000.0
    __slots__ = ('e',)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        s = str(self.e)
        return '<%s %s>' % (type(self).__name__, s if len(s) < 80 else s[:77] + '...')

    # numpy protocol --------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import snp
        return snp.handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.handle_function(func, args, kwargs)

    # numpy-scalar-like attributes -------------------------------------------
    @property
    def T(self):
        return self

    @property
    def flat(self):
        return iter([self])

    def __format__(self, spec):
        return repr(self)           # (messages only)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    max = mean = squeeze = sum

    def flatten(self):
        from . import snp
        return snp.mk([self], (1,))

    ravel = flatten

    def any(self, *a, **k):
        return truth(self)

    all = any

    def reshape(self, *shape):
        from . import snp
        return snp.mk([self], ()).reshape(*shape)

    def astype(self, dt, **k):
        return cast(self, dt)

    def round(self, n=0):
        return round_(self, n)

    def conj(self):
        return self

    conjugate = conj

    # arithmetic --------------------------------------------------------------
    def _bin(op):
        def f(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            if not isnum(o):
                return NotImplemented
            return op(self, o)

        def r(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            if not isnum(o):
                return NotImplemented
            return op(o, self)
        return f, r

    __add__, __radd__ = _bin(lambda a, b: add(a, b))
    __sub__, __rsub__ = _bin(lambda a, b: sub(a, b))
    __mul__, __rmul__ = _bin(lambda a, b: mul(a, b))
    __truediv__, __rtruediv__ = _bin(lambda a, b: div(a, b))
    __floordiv__, __rfloordiv__ = _bin(lambda a, b: floordiv(a, b))
    __mod__, __rmod__ = _bin(lambda a, b: mod(a, b))
    __pow__, __rpow__ = _bin(lambda a, b: power(a, b))
    __and__, __rand__ = _bin(lambda a, b: and_(a, b))
    __or__, __ror__ = _bin(lambda a, b: or_(a, b))
    __xor__, __rxor__ = _bin(lambda a, b: ne(truth(a), truth(b)))
    __lt__, _ = _bin(lambda a, b: lt(a, b))
    __le__, _ = _bin(lambda a, b: le(a, b))
    __gt__, _ = _bin(lambda a, b: gt(a, b))
    __ge__, _ = _bin(lambda a, b: ge(a, b))
    del _bin, _

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return ne(self, o)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __round__(self, n=None):
        return cast(rint(self), int) if n is None else round_(self, n)

    def __floor__(self):
        return cast(floor(self), int)

    def __ceil__(self):
        return cast(ceil(self), int)

    def __trunc__(self):
        return cast(self, int)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        return ENG.branch(truth(self).e) if isinstance(truth(self), SymBool) else bool(truth(self))


class SymReal(Sym):
    __slots__ = ()
    real = property(lambda s: s)
    imag = property(lambda s: 0.0)
    dtype = property(lambda s: np.dtype('float64'))

    def __float__(self):
        return ENG.concretise_real(self.e)

    def __int__(self):
        return ENG.concretise_int(cast(self, int).e)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


class SymQuot(SymReal):
    """num / den with a positive symbolic den (kept apart so that comparisons with numbers stay linear)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        SymReal.__init__(self, zr(num) / zr(den))
        self.num, self.den = num, den


class SymInt(Sym):
    __slots__ = ()
    real = property(lambda s: s)
    imag = property(lambda s: 0)
    dtype = property(lambda s: np.dtype('int64'))

    def __float__(self):
        return float(ENG.concretise_int(self.e))

    def __int__(self):
        return ENG.concretise_int(self.e)

    __index__ = __int__


class SymBool(Sym):
    __slots__ = ()
    dtype = property(lambda s: np.dtype('bool'))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))


class SymComplex(Sym):
    """re and im are real scalars, symbolic or not."""
    __slots__ = ('re', 'im')
    dtype = property(lambda s: np.dtype('complex128'))

    def __init__(self, re, im):
        self.re, self.im = re, im
        self.e = None

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<SymComplex %r %r>' % (self.re, self.im)

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conj(self):
        return SymComplex(self.re, neg(self.im))

    conjugate = conj


def isnum(x):
    return isinstance(x, (Sym, int, float, complex, np.number, np.bool_, Fraction))


def isconc(x):
    return not isinstance(x, Sym)


def mkbool(e):
    if isinstance(e, (bool, np.bool_)):
        return np.bool_(e)
    if z3.is_true(e):
        return np.bool_(True)
    if z3.is_false(e):
        return np.bool_(False)
    return SymBool(e)


def isint(x):
    return isinstance(x, (SymInt, SymBool, int, np.integer, np.bool_))


def zi(x):
    """z3 Int term"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def zr(x):
    """z3 Real term"""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, rv(1), rv(0))
    if isinstance(x, (np.floating, float)):
        return rv(float(x))
    if isinstance(x, (np.integer, np.bool_, int)):
        return rv(int(x))
    if isinstance(x, Fraction):
        return rv(x)
    raise Unsupported('not a real number: %r' % (x,))


def zb(x):
    x = truth(x)
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mkbool(x.e != 0)
    if isinstance(x, SymReal):
        return mkbool(x.e != rv(0))
    if isinstance(x, SymComplex):
        return or_(truth(x.re), truth(x.im))
    return np.bool_(bool(x))


def special(x):
    """nan or inf"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def iscomplex_(x):
    return isinstance(x, (SymComplex, complex, np.complexfloating))


def cre(x):
    return x.real if iscomplex_(x) else x


def cim(x):
    return x.imag if iscomplex_(x) else 0.0


def _np(op, a, b):
    with np.errstate(all='ignore'):
        return op(a, b)


def conc1(op, a):
    with np.errstate(all='ignore'):
        return op(a)


def add(a, b):
    if isconc(a) and isconc(b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return np.bool_(a or b)
        return _np(np.add, a, b)
    if iscomplex_(a) or iscomplex_(b):
        return SymComplex(add(cre(a), cre(b)), add(cim(a), cim(b)))
    if special(a):
        return a
    if special(b):
        return b
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return or_(a, b)
    if isint(a) and isint(b):
        if isconc(a) and a == 0 and not isinstance(b, SymBool):
            return b
        if isconc(b) and b == 0 and not isinstance(a, SymBool):
            return a
        return SymInt(zi(a) + zi(b))
    if isconc(a) and a == 0:
        return asreal(b)
    if isconc(b) and b == 0:
        return asreal(a)
    return SymReal(zr(a) + zr(b))


def asreal(x):
    return x if isinstance(x, SymReal) else SymReal(zr(x))


def sub(a, b):
    if isconc(a) and isconc(b):
        return _np(np.subtract, a, b)
    if iscomplex_(a) or iscomplex_(b):
        return SymComplex(sub(cre(a), cre(b)), sub(cim(a), cim(b)))
    if special(a):
        return a
    if special(b):
        return -b
    if isint(a) and isint(b):
        return SymInt(zi(a) - zi(b))
    if isconc(b) and b == 0:
        return asreal(a)
    if isinstance(a, SymQuot) and isconc(b):
        return SymQuot(sub(a.num, mul(a.den, b)), a.den)
    if isinstance(b, SymQuot) and isconc(a):
        return SymQuot(sub(mul(b.den, a), b.num), b.den)
    return SymReal(zr(a) - zr(b))


def neg(a):
    if isconc(a):
        return -a
    if isinstance(a, SymQuot):
        return SymQuot(neg(a.num), a.den)
    if isinstance(a, SymComplex):
        return SymComplex(neg(a.re), neg(a.im))
    if isint(a):
        return SymInt(-zi(a))
    return SymReal(-a.e)


def _sign_fork(x):
    """concrete sign of a symbolic number, by forking"""
    if ENG.branch(zr(x) > 0):
        return 1
    if ENG.branch(zr(x) < 0):
        return -1
    return 0


def mul(a, b):
    if isconc(a) and isconc(b):
        return _np(np.multiply, a, b)
    if iscomplex_(a) or iscomplex_(b):
        ar, ai, br, bi = cre(a), cim(a), cre(b), cim(b)
        return SymComplex(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    for s, o in ((a, b), (b, a)):
        if special(s):
            if math.isnan(s):
                return np.float64('nan')
            sg = _sign_fork(o)
            return np.float64('nan') if sg == 0 else np.float64(sg * s)
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return and_(a, b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        s, o = (a, b) if isinstance(a, SymBool) else (b, a)
        if isinstance(o, (bool, np.bool_)):
            return s if o else np.bool_(False)
        return ite(s, o, 0 if isint(o) else 0.0)
    if isint(a) and isint(b):
        for c, o in ((a, b), (b, a)):
            if isconc(c):
                if c == 0:
                    return np.int64(0)
                if c == 1:
                    return o
        return SymInt(zi(a) * zi(b))
    for c, o in ((a, b), (b, a)):
        if isconc(c):
            if c == 0:
                return np.float64(0.0)
            if c == 1:
                return asreal(o)
    return SymReal(zr(a) * zr(b))


def div(a, b):
    if isconc(a) and isconc(b):
        return _np(np.true_divide, a, b)
    if iscomplex_(b):
        d = add(mul(cre(b), cre(b)), mul(cim(b), cim(b)))
        return div(mul(a, conj(b)), d)
    if iscomplex_(a):
        return SymComplex(div(cre(a), b), div(cim(a), b))
    if special(b):
        return np.float64('nan') if math.isnan(b) else np.float64(0.0)
    if special(a):
        if math.isnan(a):
            return a
        sg = _sign_fork(b)
        return np.float64(sg * a) if sg else np.float64(a)
    if isconc(b):
        if b == 0:
            sg = _sign_fork(a)
            return np.float64('nan') if sg == 0 else np.float64(sg * np.inf)
        if b == 1:
            return asreal(a)
        return SymReal(zr(a) * rv(1 / Fraction(float(b) if not isinstance(b, (int, np.integer)) else int(b))))
    if ENG.linear_roots and b.e.get_id() in ENG.root_vars and ENG.branch(zr(b) > 0):
        return SymQuot(asreal(a), b)
    if not ENG.positive(zr(b)) and ENG.branch(zr(b) == 0):
        if isconc(a):
            return np.float64('nan') if a == 0 else np.float64(np.inf if a > 0 else -np.inf)
        sg = _sign_fork(a)
        return np.float64('nan') if sg == 0 else np.float64(sg * np.inf)
    if isconc(a) and a == 0:
        return np.float64(0.0)
    return SymReal(zr(a) / zr(b))


def floor(a):
    if isconc(a):
        return conc1(np.floor, a)
    if isint(a):
        return a
    if ENG.split_floors:
        return np.float64(ENG.concretise_floor(a.e))
    return SymReal(z3.ToReal(z3.ToInt(a.e)))


def ceil(a):
    if isconc(a):
        return conc1(np.ceil, a)
    if isint(a):
        return a
    if ENG.split_floors:
        return np.float64(-ENG.concretise_floor(-a.e))
    return SymReal(-z3.ToReal(z3.ToInt(-a.e)))


def trunc(a):
    if isconc(a):
        return conc1(np.trunc, a)
    if isint(a):
        return a
    return SymReal(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e))))


def rint(a):
    """round half to even"""
    if isconc(a):
        return conc1(np.rint, a)
    if isint(a):
        return a
    k = z3.ToInt(a.e)
    fr = a.e - z3.ToReal(k)
    up = z3.Or(fr > rv(0.5), z3.And(fr == rv(0.5), k % 2 == 1))
    return SymReal(z3.ToReal(z3.If(up, k + 1, k)))


def round_(a, n=0):
    if isconc(a):
        return conc1(lambda v: np.round(v, n), a)
    if isint(a):
        return a
    s = Fraction(10) ** n
    return SymReal(rint(SymReal(a.e * rv(s))).e * rv(1 / s))


def floordiv(a, b):
    if isconc(a) and isconc(b):
        return _np(np.floor_divide, a, b)
    if isint(a) and isint(b) and isconc(b) and b > 0:
        return SymInt(zi(a) / z3.IntVal(int(b)))
    q = div(a, b)
    q = floor(q)
    if isint(a) and isint(b) and not isconc(q):
        return cast(q, int)
    return q


def mod(a, b):
    if isconc(a) and isconc(b):
        return _np(np.mod, a, b)
    if isint(a) and isint(b) and isconc(b) and b > 0:
        return SymInt(zi(a) % z3.IntVal(int(b)))
    q = floordiv(a, b)
    if special(q):
        return np.float64('nan')
    return sub(a, mul(b, q))


def power(a, b):
    if isconc(a) and isconc(b):
        return _np(np.power, a, b)
    if special(a) or special(b):
        raise Unsupported('power with nan or inf')
    if isconc(b):
        if float(b).is_integer() and abs(b) <= 8:
            n = int(b)
            if n == 0:
                return np.float64(1.0)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return div(1.0, r) if n < 0 else (r if isint(b) else asreal(r) if not isinstance(r, SymComplex) else r)
        if float(b) == 0.5:
            return sqrt(a)
        # x**b, real exponent
        if not ENG.positive(zr(a)):
            if ENG.branch(zr(a) < 0):
                return np.float64('nan')
            if ENG.branch(zr(a) == 0):
                return np.float64(0.0) if b > 0 else np.float64(np.inf)
        return ENG.uf('pow', (asreal(a), b))
    if isconc(a):
        if a > 0:
            return ENG.uf('cpow:%r' % (float(a),), (asreal(b),))
        raise Unsupported('symbolic power of non-positive base')
    if ENG.positive(zr(a)) or ENG.branch(zr(a) > 0):
        return ENG.uf('pow', (asreal(a), asreal(b)))
    raise Unsupported('symbolic power of non-positive base')


def sqrt(a):
    if isconc(a):
        return conc1(np.sqrt, a)
    if ENG.branch(zr(a) < 0):
        return np.float64('nan')
    return ENG.root(zr(a))


def square(a):
    return mul(a, a)


def exp(a):
    if isconc(a):
        return conc1(np.exp, a)
    if isinstance(a, SymComplex):
        raise Unsupported('complex exp')
    return ENG.uf('exp', (asreal(a),))


def _log(name, f):
    def g(a):
        if isconc(a):
            return conc1(f, a)
        if ENG.positive(zr(a)) or ENG.branch(zr(a) > 0):
            # the logarithm of a multiple: one function value for every way of writing it
            c, e = 1.0, asreal(a)
            z = e.e
            while z3.is_app(z) and z.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and z.num_args() == 2:
                p, q = z.arg(0), z.arg(1)
                if z.decl().kind() == z3.Z3_OP_DIV:
                    if not z3.is_rational_value(q):
                        break
                    k, z = 1.0 / float(q.as_fraction()), p
                elif z3.is_rational_value(p):
                    k, z = float(p.as_fraction()), q
                elif z3.is_rational_value(q):
                    k, z = float(q.as_fraction()), p
                else:
                    break
                if not (k > 0 and math.isfinite(k)):
                    z = None
                    break
                c *= k
            if z is None or c == 1.0 or not (1e-250 < c < 1e250):
                return ENG.uf(name, (e,))
            return add(ENG.uf(name, (type(e)(z),)), float(f(c)))
        if ENG.branch(zr(a) == 0):
            return np.float64(-np.inf)
        return np.float64('nan')
    return g


log = _log('log', np.log)
log10 = _log('log10', np.log10)
log2 = _log('log2', np.log2)


def _uf1(name, f):
    def g(a):
        if isconc(a):
            return conc1(f, a)
        return ENG.uf(name, (asreal(a),))
    return g


sin = _uf1('sin', np.sin)
cos = _uf1('cos', np.cos)
tan = _uf1('tan', np.tan)
arctan = _uf1('arctan', np.arctan)
arcsin = _uf1('arcsin', np.arcsin)


def arccos(a):
    # one function for both, so that either way of writing an angle is understood
    return conc1(np.arccos, a) if isconc(a) else sub(np.pi / 2, arcsin(a))



tanh = _uf1('tanh', np.tanh)


def exp2(a):
    return power(2.0, a) if not isconc(a) else conc1(np.exp2, a)


def log1p(a):
    return log(add(a, 1.0)) if not isconc(a) else conc1(np.log1p, a)


def expm1(a):
    return sub(exp(a), 1.0) if not isconc(a) else conc1(np.expm1, a)


def arctan2(a, b):
    if isconc(a) and isconc(b):
        return _np(np.arctan2, a, b)
    return ENG.uf('arctan2', (asreal(a), asreal(b)))


def hypot(a, b):
    return sqrt(add(mul(a, a), mul(b, b)))


def _cmp(name, npop, zop):
    def f(a, b):
        if isconc(a) and isconc(b):
            return np.bool_(npop(a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if name == 'eq':
                return np.bool_(False)
            if name == 'ne':
                return np.bool_(True)
            raise TypeError("'%s' not supported between these operands" % name)
        if not isnum(a) or not isnum(b):
            if name == 'eq':
                return np.bool_(False)
            if name == 'ne':
                return np.bool_(True)
            raise TypeError('unorderable')
        if iscomplex_(a) or iscomplex_(b):
            r = and_(eq(cre(a), cre(b)), eq(cim(a), cim(b)))
            if name == 'eq':
                return r
            if name == 'ne':
                return not_(r)
            raise Unsupported('complex ordering')
        if special(a) or special(b):
            av = a if special(a) else 0.0
            bv = b if special(b) else 0.0
            return np.bool_(npop(av, bv))
        if isinstance(a, SymBool) and isinstance(b, (SymBool, bool, np.bool_)) and name in ('eq', 'ne') or \
                isinstance(b, SymBool) and isinstance(a, (bool, np.bool_)) and name in ('eq', 'ne'):
            return mkbool(z3.simplify(zop(zb(a), zb(b))))
        if isint(a) and isint(b):
            return mkbool(z3.simplify(zop(zi(a), zi(b))))
        if isinstance(a, SymQuot) and isconc(b):
            a, b = a.num, mul(a.den, b)
        elif isinstance(b, SymQuot) and isconc(a):
            a, b = mul(b.den, a), b.num
        return mkbool(z3.simplify(zop(zr(a), zr(b))))
    return f


def _seq(a, b):
    try:
        r = a == b
        return bool(r)
    except Exception:
        return False


lt = _cmp('lt', lambda a, b: a < b, lambda a, b: a < b)
le = _cmp('le', lambda a, b: a <= b, lambda a, b: a <= b)
gt = _cmp('gt', lambda a, b: a > b, lambda a, b: a > b)
ge = _cmp('ge', lambda a, b: a >= b, lambda a, b: a >= b)
eq = _cmp('eq', _seq, lambda a, b: a == b)
ne = _cmp('ne', lambda a, b: not _seq(a, b), lambda a, b: a != b)


def and_(a, b):
    if isint(a) and isint(b) and not (isboolish(a) and isboolish(b)):
        if isconc(a) and isconc(b):
            return np.bitwise_and(a, b)
        raise Unsupported('bitwise and of ints')
    if not (isboolish(a) and isboolish(b)):
        raise TypeError('ufunc bitwise_and not supported for floats')
    if isconc(a):
        return b if a else np.bool_(False)
    if isconc(b):
        return a if b else np.bool_(False)
    return mkbool(z3.And(a.e, b.e))


def or_(a, b):
    if isint(a) and isint(b) and not (isboolish(a) and isboolish(b)):
        if isconc(a) and isconc(b):
            return np.bitwise_or(a, b)
        raise Unsupported('bitwise or of ints')
    if not (isboolish(a) and isboolish(b)):
        raise TypeError('ufunc bitwise_or not supported for floats')
    if isconc(a):
        return np.bool_(True) if a else b
    if isconc(b):
        return np.bool_(True) if b else a
    return mkbool(z3.Or(a.e, b.e))


def isboolish(a):
    return isinstance(a, (SymBool, bool, np.bool_))


def not_(a):
    if isinstance(a, SymBool):
        return mkbool(z3.simplify(z3.Not(a.e)))
    if isinstance(a, (bool, np.bool_)):
        return np.bool_(not a)
    if isconc(a):
        return np.invert(a)
    if isinstance(a, SymInt):
        return SymInt(-a.e - 1)
    raise TypeError('ufunc invert not supported')


def land(a, b):
    return and_(truth(a), truth(b))


def lor(a, b):
    return or_(truth(a), truth(b))


def lnot(a):
    return not_(truth(a))


def lxor(a, b):
    a, b = truth(a), truth(b)
    return ne(a, b)


def ite(c, a, b):
    """If(c, a, b) without forking when both arms are finite numbers of one family."""
    c = truth(c)
    if isconc(c):
        return a if c else b
    if a is b:
        return a
    if special(a) or special(b) or not isnum(a) or not isnum(b):
        if isconc(a) and isconc(b):
            try:
                if a == b or (a != a and b != b):
                    return a
            except Exception:
                pass
        return a if ENG.branch(c.e) else b
    if ENG.branch_ite and not (isint(a) and isint(b)):
        return a if ENG.branch(c.e) else b
    if iscomplex_(a) or iscomplex_(b):
        return SymComplex(ite(c, cre(a), cre(b)), ite(c, cim(a), cim(b)))
    if isboolish(a) and isboolish(b):
        return mkbool(z3.simplify(z3.If(c.e, zb(a), zb(b))))
    if isint(a) and isint(b):
        return SymInt(z3.If(c.e, zi(a), zi(b)))
    return SymReal(z3.If(c.e, zr(a), zr(b)))


def maximum(a, b):
    if isconc(a) and isconc(b):
        return _np(np.maximum, a, b)
    if special(a) and math.isnan(a) or special(b) and math.isnan(b):
        return np.float64('nan')
    return ite(ge(a, b), a, b)


def minimum(a, b):
    if isconc(a) and isconc(b):
        return _np(np.minimum, a, b)
    if special(a) and math.isnan(a) or special(b) and math.isnan(b):
        return np.float64('nan')
    return ite(le(a, b), a, b)


def fmax(a, b):
    if isconc(a) and isinstance(a, (float, np.floating)) and math.isnan(a):
        return b
    if isconc(b) and isinstance(b, (float, np.floating)) and math.isnan(b):
        return a
    return maximum(a, b)


def fmin(a, b):
    if isconc(a) and isinstance(a, (float, np.floating)) and math.isnan(a):
        return b
    if isconc(b) and isinstance(b, (float, np.floating)) and math.isnan(b):
        return a
    return minimum(a, b)


def abs_(a):
    if isconc(a):
        return np.abs(a) if isnum(a) else abs(a)
    if isinstance(a, SymComplex):
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)))
    if isint(a):
        return SymInt(z3.If(zi(a) >= 0, zi(a), -zi(a)))
    if isinstance(a, SymQuot):
        return SymQuot(abs_(a.num), a.den)
    return SymReal(z3.If(a.e >= 0, a.e, -a.e))


def sign(a):
    if isconc(a):
        return np.sign(a)
    if isint(a):
        z = zi(a)
        return SymInt(z3.If(z > 0, z3.IntVal(1), z3.If(z < 0, z3.IntVal(-1), z3.IntVal(0))))
    return SymReal(z3.If(a.e > 0, rv(1), z3.If(a.e < 0, rv(-1), rv(0))))


def isnan(a):
    return conc1(np.isnan, a) if isconc(a) else np.bool_(False)


def isfinite(a):
    return conc1(np.isfinite, a) if isconc(a) else np.bool_(True)


def isinf(a):
    return conc1(np.isinf, a) if isconc(a) else np.bool_(False)


def conj(a):
    return a.conj() if isinstance(a, Sym) else np.conj(a)


def real_(a):
    return cre(a)


def imag_(a):
    return cim(a)


def cast(x, dt):
    """numpy-like astype on one element"""
    k = kind(dt)
    if isconc(x):
        if k == 'O' or k in 'US':
            return x
        if x is None:
            return np.float64('nan') if k == 'f' else x
        with np.errstate(all='ignore'):
            if k == 'f':
                return np.float64(x)
            if k == 'i':
                v = np.asarray(x)
                return np.int64(v.astype('int64')) if v.dtype != object else np.int64(int(x))
            if k == 'b':
                return np.bool_(x)
            if k == 'c':
                return np.complex128(x)
        return x
    if k == 'O':
        return x
    if isinstance(x, SymComplex):
        if k == 'c':
            return x
        return cast(x.re, dt)
    if k == 'c':
        return SymComplex(asreal(x), 0.0)
    if k == 'f':
        return asreal(x)
    if k == 'b':
        return truth(x)
    if k == 'i':
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(zi(x))
        return SymInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    raise Unsupported('cast of a symbolic value to %r' % (dt,))


def kind(dt):
    """one of b i f c O U for a dtype-like (including the engine's stand-ins for int/float/bool)"""
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ('b', 'i', 'f', 'c', 'O', 'U'):
        return {'b': 'b', 'i': 'i', 'f': 'f', 'c': 'c', 'O': 'O', 'U': 'U'}[dt]
    base = getattr(dt, '_vsx_base', None)
    if base is not None:
        dt = base
    d = np.dtype(dt)
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c', 'O': 'O'}.get(d.kind, d.kind)


# ---------------------------------------------------------------------------
# stand-ins for builtins inside the code under test

class _NumMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, cls._vsx_inst)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(getattr(o, '_vsx_base', o), cls._vsx_base)

    def __eq__(cls, o):
        return o is cls._vsx_base or o is cls or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(cls._vsx_base)

    def __repr__(cls):
        return repr(cls._vsx_base)


class vfloat(metaclass=_NumMeta):
    _vsx_base = float
    _vsx_inst = (float, SymReal)

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            if isinstance(x, SymComplex):
                raise TypeError('float of complex')
            return asreal(x)
        return float(x)


class vint(metaclass=_NumMeta):
    _vsx_base = int
    _vsx_inst = (int, SymInt)

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            return cast(x, int)
        return int(x, *a)


class vbool(metaclass=_NumMeta):
    _vsx_base = bool
    _vsx_inst = (bool,)

    def __new__(cls, x=False):
        return bool(x)


class vcomplex(metaclass=_NumMeta):
    _vsx_base = complex
    _vsx_inst = (complex, SymComplex)

    def __new__(cls, re=0.0, im=0.0):
        if isinstance(re, Sym) or isinstance(im, Sym):
            return SymComplex(re, im)
        return complex(re, im)
