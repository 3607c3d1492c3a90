"""Scalar operations for specifications; they work on symbolic and on plain values."""
import numpy as np
from . import sym, snp


def all_(*c):
    r = np.bool_(True)
    for x in c:
        r = sym.and_(r, sym.truth(x))
    return r


def any_(*c):
    r = np.bool_(False)
    for x in c:
        r = sym.or_(r, sym.truth(x))
    return r


def not_(c):
    return sym.not_(sym.truth(c))


def ite(c, a, b):
    return sym.ite(sym.truth(c), a, b)


def iff(a, b):
    a, b = sym.truth(a), sym.truth(b)
    return sym.or_(sym.and_(a, b), sym.and_(sym.not_(a), sym.not_(b)))


def implies(a, b):
    return sym.or_(sym.not_(sym.truth(a)), sym.truth(b))


def obj(a):
    """plain object array of scalars (symbolic or not), detached from the code's array"""
    return np.array(snp.toobj(a), dtype=object)


def total(xs):
    r = 0.0
    for x in xs:
        r = sym.add(r, x)
    return r


def sqrt(x):
    return sym.sqrt(x)


def abs_(x):
    return sym.abs_(x)


def close(a, b, tol=1e-5):
    return sym.le(sym.abs_(sym.sub(a, b)), tol)
