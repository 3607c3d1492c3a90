"""numpy over symbolic elements.

SArr is an ndarray subclass.  It intercepts ufuncs, array functions, indexing
and the methods that matter, so code using plain numpy runs unchanged on
symbolic elements.  If no element involved is symbolic, the real numpy function
runs on native arrays.
"""
import builtins
import inspect
import itertools
import re
import types

import numpy as np

from . import sym
from .sym import Sym, SymReal, SymInt, SymBool, SymComplex, Unsupported, kind, cast

_nd = np.ndarray
BIG = 20000
_dtype_of = np.ndarray.dtype.__get__

DT = {'b': np.dtype(bool), 'i': np.dtype('int64'), 'f': np.dtype('float64'), 'c': np.dtype('complex128'),
      'O': np.dtype(object)}


def tdtype(a):
    """true dtype"""
    return _dtype_of(a)


def base(a):
    """plain ndarray view"""
    return a.view(_nd) if type(a) is not _nd else a


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, _nd):
        if tdtype(a) != object:
            return False
        for v in base(a).flat:
            if isinstance(v, Sym):
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    return False


def infer_kind(a):
    """b i f c O U... from the elements of an object array"""
    k = 'b'
    any_ = False
    rank = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
    for v in base(a).flat:
        any_ = True
        if isinstance(v, SymComplex) or isinstance(v, (complex, np.complexfloating)):
            kk = 'c'
        elif isinstance(v, SymReal) or isinstance(v, (float, np.floating)):
            kk = 'f'
        elif isinstance(v, SymBool) or isinstance(v, (bool, np.bool_)):
            kk = 'b'
        elif isinstance(v, SymInt) or isinstance(v, (int, np.integer)):
            kk = 'i'
        else:
            return 'O'
        if rank[kk] > rank[k]:
            k = kk
    return k if any_ else 'f'


def native(a):
    """object array of concrete elements -> native dtype ndarray (else unchanged)"""
    if isinstance(a, _nd):
        b = base(a)
        if tdtype(b) == object:
            if has_sym(b):
                return b
            k = getattr(a, '_k', None) or infer_kind(b)
            if k in DT and k != 'O':
                return b.astype(DT[k])
        return b
    return a


def mk(vals, shape, k=None):
    r = np.empty(shape, dtype=object)
    flat = r.reshape(-1)
    for i, v in enumerate(vals):
        flat[i] = v
    r = flat.reshape(shape)
    r = r.view(SArr)
    r._k = k
    return r


def toobj(a):
    """plain object-dtype ndarray with python/numpy scalars or Syms (a fresh copy unless already object)"""
    if isinstance(a, Sym) or not isinstance(a, (_nd, list, tuple)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, _nd):
        b = base(a)
        return b if tdtype(b) == object else b.astype(object)
    if has_sym(a) or _has_objarr(a):
        a = _strip(a)
        return base(np.array(a, dtype=object))
    return np.array(a).astype(object)


def _has_objarr(a):
    if isinstance(a, _nd):
        return tdtype(a) == object
    if isinstance(a, (list, tuple)):
        return any(_has_objarr(x) for x in a)
    return False


def _strip(a):
    if isinstance(a, SArr):
        return base(a)
    if isinstance(a, (list, tuple)):
        return [_strip(x) for x in a]
    return a


def wrap(r, k=None):
    """Wrap a result: object arrays and native arrays become SArr; 0-d object becomes its element."""
    if isinstance(r, SArr):
        return r
    if isinstance(r, _nd):
        t = r.dtype.kind
        if t in 'biufc' and r.size <= BIG:
            # keep every array the program may later store symbols into as an object array
            v = r.astype(object).view(SArr)
            v._k = 'i' if t == 'u' else t
            return v
        v = r.view(SArr)
        v._k = k
        return v
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return boxed(r)


def boxed(v):
    """python scalars out of object arrays look like numpy scalars"""
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int) and not isinstance(v, np.integer):
        return np.int64(v) if -2**63 <= v < 2**63 else v
    if type(v) is float:
        return np.float64(v)
    return v


def unwrap0(r):
    if isinstance(r, _nd) and r.ndim == 0 and tdtype(r) == object:
        return boxed(base(r)[()])
    return r


class SArr(np.ndarray):
    _k = None

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', None)

    # dtype as the program would see it
    @property
    def dtype(self):
        t = tdtype(self)
        if t != object:
            return t
        k = self._k or infer_kind(self)
        return DT.get(k, np.dtype(object))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return handle_function(func, args, kwargs)

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).reshape(-1)[0])
        return bool(base(self))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(base(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(base(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim == 0:
            return base(self)[()].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(f_any(eqarr(self, v)))

    def __eq__(self, o):
        return eqarr(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return f_not(eqarr(self, o))
        return handle_ufunc(np.not_equal, '__call__', (self, o), {})

    __hash__ = None

    # indexing -----------------------------------------------------------------
    def __getitem__(self, idx):
        idx, symbolic = prep_index(idx, self.shape)
        if not symbolic:
            r = base(self)[idx]
            if isinstance(r, _nd):
                r = r.view(SArr) if type(r) is _nd else r
                r._k = self._k
                return r
            return boxed(r)
        return sym_get(self, idx)

    def __setitem__(self, idx, val):
        masked = mask_assign(self, idx, val)
        if masked:
            return
        idx, symbolic = prep_index(idx, self.shape)
        b = base(self)
        k = self._k
        if symbolic:
            sym_set(self, idx, val)
            return
        if isinstance(val, (list, tuple)):
            val = f_array(val)
        if tdtype(b) != object:
            if has_sym(val):
                raise Unsupported('symbolic value stored in a native array')
            b[idx] = native(val) if isinstance(val, _nd) else val
            return
        if isinstance(val, _nd):
            v = toobj(val)
            if k:
                v = _castarr(v, k)
            if np.shares_memory(v, b):
                v = v.copy()
            if v.ndim == 0:
                v = v[()]
            elif not isinstance(b[idx], _nd):
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = v.reshape(-1)[0]
            b[idx] = v
        else:
            if k:
                val = cast(val, k)
            if isinstance(val, Sym) or not hasattr(val, '__len__') or isinstance(val, (str, bytes)):
                tgt = b[idx]
                if isinstance(tgt, _nd):
                    t = np.empty(tgt.shape, dtype=object)
                    t.fill(val) if not isinstance(val, Sym) else [t.reshape(-1).__setitem__(i, val) for i in range(t.size)]
                    b[idx] = t
                else:
                    b[idx] = val
            else:
                b[idx] = val

    # methods ------------------------------------------------------------------
    def astype(self, dt, copy=True, **kw):
        k = kind(dt)
        b = base(self)
        if tdtype(b) != object:
            base_dt = getattr(dt, '_vsx_base', dt)
            return b.astype(base_dt).view(SArr)
        r = _castarr(b.copy(), k).view(SArr)
        r._k = None if k not in ('i', 'b') else k
        if k not in ('b', 'i', 'f', 'c', 'O') and not has_sym(r):
            return b.astype(getattr(dt, '_vsx_base', dt)).view(SArr)
        return r

    def copy(self, order='C'):
        r = base(self).copy().view(SArr)
        r._k = self._k
        return r

    def tolist(self):
        b = base(self)
        return b.tolist()

    def item(self, *a):
        return boxed(base(self).item(*a)) if not has_sym(self) else (self.reshape(-1)[0] if not a else self[a])

    def fill(self, v):
        self[...] = v

    def sort(self, axis=-1, **k):
        base(self)[...] = base(f_sort(self, axis=axis)) if tdtype(self) != object else toobj(f_sort(self, axis=axis))

    def view(self, *a, **k):
        return np.ndarray.view(self, *a, **k)

    @property
    def real(self):
        return mapel(sym.cre, self)

    @property
    def imag(self):
        return mapel(sym.cim, self)

    def tobytes(self, *a):
        return native(self).tobytes(*a)


def _method(name):
    def m(self, *a, **k):
        return handle_function(getattr(np, name), (self,) + a, k)
    m.__name__ = name
    return m


for _n in ('sum', 'prod', 'mean', 'std', 'var', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'argsort', 'cumsum',
           'cumprod', 'round', 'nonzero', 'clip', 'dot', 'searchsorted', 'take', 'repeat', 'trace', 'diagonal',
           'compress', 'ptp'):
    if hasattr(np, _n):
        setattr(SArr, _n, _method(_n))
SArr.conj = SArr.conjugate = lambda self: mapel(sym.conj, self)


def _castarr(b, k):
    out = np.empty(b.shape, dtype=object)
    o, i = out.reshape(-1), b.reshape(-1)
    for n in range(i.size):
        o[n] = cast(i[n], k)
    return out


def mapel(f, a):
    b = toobj(a)
    out = np.empty(b.shape, dtype=object)
    o, i = out.reshape(-1), b.reshape(-1)
    for n in range(i.size):
        o[n] = f(i[n])
    out = o.reshape(b.shape)
    return unwrap0(out.view(SArr))


def eqarr(a, o):
    if o is None or isinstance(o, str):
        b = toobj(a)
        return mk([np.bool_(isinstance(v, str) and v == o or v is o) for v in b.reshape(-1)], b.shape)
    try:
        return handle_ufunc(np.equal, '__call__', (a, o), {})
    except ValueError:
        raise


# -- indexing ---------------------------------------------------------------------

def _fix_index(i, dimlen=None):
    """-> (index usable by numpy, is_symbolic)"""
    if isinstance(i, SymBool):
        return bool(i), False
    if isinstance(i, SymInt):
        return i, True
    if isinstance(i, SymReal):
        raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
    if isinstance(i, slice):
        return slice(*[None if v is None else int(v) if isinstance(v, Sym) or isinstance(v, _nd) else v
                       for v in (i.start, i.stop, i.step)]), False
    if isinstance(i, (list, tuple)):
        i = list(i)
        if has_sym(i) or _has_objarr(i):
            i = f_array(i)
        else:
            return i, False
    if isinstance(i, _nd):
        b = base(i)
        if tdtype(b) != object:
            return b, False
        if not has_sym(b):
            k = getattr(i, '_k', None) or infer_kind(b)
            if b.size == 0:
                return b.astype(DT[k] if k in 'bi' else np.int64), False
            if k not in ('b', 'i'):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            return b.astype(DT[k]), False
        k = infer_kind(b)
        if k == 'b':
            m = np.array([bool(v) for v in b.reshape(-1)], dtype=bool).reshape(b.shape)
            return m, False
        if k == 'i':
            return b, True
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, (float, np.floating)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    return i, False


def prep_index(idx, shape):
    if isinstance(idx, tuple):
        parts = [_fix_index(i) for i in idx]
        return tuple(p[0] for p in parts), any(p[1] for p in parts)
    p = _fix_index(idx)
    return p


def _split_full(idx, shape):
    """Symbolic index: returns (list of per-axis index arrays (object int), out shape) when every leading
    index is an integer or integer array and the remaining axes are untouched; else concretises."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    return list(idx)


def _conc_index(idx):
    """fork until the index is concrete"""
    out = []
    for i in idx:
        if isinstance(i, SymInt):
            i = int(i)
        elif isinstance(i, _nd) and tdtype(i) == object:
            i = np.array([int(v) for v in i.reshape(-1)], dtype=int).reshape(i.shape)
        out.append(i)
    return tuple(out)


def _int_like(i):
    return isinstance(i, (int, np.integer, SymInt)) and not isinstance(i, (bool, np.bool_)) or \
        (isinstance(i, _nd) and (tdtype(i) == object or tdtype(i).kind in 'iu'))


def _norm(v, n):
    """bounds-check one (possibly symbolic) index by forking on failure; returns normalised value"""
    if not isinstance(v, Sym):
        v = int(v)
        if v < -n or v >= n:
            raise IndexError('index %d is out of bounds for axis with size %d' % (v, n))
        return v % n
    ok = sym.and_(sym.ge(v, -n), sym.lt(v, n))
    if not bool(ok):
        raise IndexError('index out of bounds for axis with size %d' % n)
    neg = sym.lt(v, 0)
    if isinstance(neg, SymBool):
        return sym.ite(neg, sym.add(v, n), v)
    return sym.add(v, n) if neg else v


def _gather_idx(idx, shape):
    """broadcast integer indices -> list of (out position, [per axis index]) and out shape, or None"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    if not all(_int_like(i) for i in idx) or len(idx) > len(shape):
        return None
    arrs = [toobj(i) for i in idx]
    bshape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, bshape) for a in arrs]
    return arrs, bshape


def _cells(shape):
    return itertools.product(*[range(n) for n in shape])


def sym_get(arr, idx):
    shape = arr.shape
    g = _gather_idx(idx, shape)
    b = toobj(arr)
    if g is None:
        r = b[_conc_index(idx if isinstance(idx, tuple) else (idx,))]
        return wrap(r, arr._k) if isinstance(r, _nd) else boxed(r)
    arrs, bshape = g
    na = len(arrs)
    rest = shape[na:]
    out = np.empty(bshape + rest, dtype=object)
    for pos in _cells(bshape):
        ii = [_norm(a[pos], shape[d]) for d, a in enumerate(arrs)]
        for rc in _cells(rest):
            out[pos + rc] = _select(b, ii, rc, shape)
    if out.ndim == 0:
        return boxed(out[()])
    return wrap(out, arr._k)


def _select(b, ii, rc, shape):
    """nested ITE over the cells an index vector may denote"""
    if not ii:
        return b[rc] if rc else b[()] if isinstance(b, np.ndarray) else b
    i = ii[0]
    if not isinstance(i, Sym):
        return _select(b[i], ii[1:], rc, shape[1:])
    vals = [_select(b[c], ii[1:], rc, shape[1:]) for c in range(shape[0])]
    r = vals[-1]
    for c in range(shape[0] - 2, -1, -1):
        r = sym.ite(sym.eq(i, c), vals[c], r)
    return r


def sym_set(arr, idx, val, op=None):
    """arr[idx] = val (or accumulate with op) with symbolic integer indices; later entries win."""
    shape = arr.shape
    g = _gather_idx(idx, shape)
    b = base(arr)
    if tdtype(b) != object:
        raise Unsupported('symbolic index store into a native array')
    if g is None:
        ci = _conc_index(idx if isinstance(idx, tuple) else (idx,))
        if op is None:
            arr[ci] = val
        else:
            _at_concrete(arr, ci, val, op)
        return
    arrs, bshape = g
    na = len(arrs)
    rest = shape[na:]
    v = np.broadcast_to(toobj(val), bshape + rest)
    if arr._k:
        v = _castarr(v, arr._k)
    for pos in _cells(bshape):
        ii = [_norm(a[pos], shape[d]) for d, a in enumerate(arrs)]
        choices = [range(shape[d]) if isinstance(i, Sym) else [i] for d, i in enumerate(ii)]
        for c in itertools.product(*choices):
            cond = np.bool_(True)
            for d, i in enumerate(ii):
                if isinstance(i, Sym):
                    cond = sym.and_(cond, sym.eq(i, c[d]))
            if isinstance(cond, np.bool_) and not cond:
                continue
            for rc in _cells(rest):
                old = b[c + rc]
                new = v[pos + rc]
                if op is not None:
                    if op is sym.add and isinstance(cond, Sym) and not sym.special(new) and not sym.iscomplex_(new):
                        b[c + rc] = sym.add(old, sym.ite(cond, new, 0.0))
                        continue
                    new = op(old, new)
                b[c + rc] = sym.ite(cond, new, old)


def _at_concrete(arr, idx, val, op):
    b = base(arr)
    pos = np.arange(b.size).reshape(b.shape)[idx]
    v = np.broadcast_to(toobj(val), np.shape(pos)).reshape(-1)
    isobj = tdtype(b) == object
    for p, x in zip(np.asarray(pos).reshape(-1), v):
        c = np.unravel_index(p, b.shape)
        r = op(b[c], x)
        if not isobj and isinstance(r, Sym):
            raise Unsupported('symbolic value stored in a native array')
        if isobj and arr._k:
            r = cast(r, arr._k)
        b[c] = r


def mask_assign(arr, idx, val):
    """arr[symbolic mask] = scalar, without forking"""
    m = idx
    if isinstance(m, tuple) and len(m) == 1:
        m = m[0]
    if not (isinstance(m, SArr) and tdtype(m) == object and has_sym(m)):
        return False
    if tdtype(arr) != object:
        return False
    if isinstance(val, (_nd, list, tuple)) and np.size(val) != 1:
        return False
    if infer_kind(m) != 'b':
        return False
    if m.shape != arr.shape[:m.ndim]:
        raise IndexError('boolean index did not match indexed array')
    if isinstance(val, (_nd, list, tuple)):
        val = toobj(val).reshape(-1)[0]
    if arr._k:
        val = cast(val, arr._k)
    b = base(arr)
    mb = base(m)
    for c in _cells(mb.shape):
        if mb.ndim == b.ndim:
            b[c] = sym.ite(mb[c], val, b[c])
        else:
            for rc in _cells(b.shape[mb.ndim:]):
                b[c + rc] = sym.ite(mb[c], val, b[c + rc])
    return True


# -- ufuncs ------------------------------------------------------------------------

UF = {
    'add': sym.add, 'subtract': sym.sub, 'multiply': sym.mul, 'divide': sym.div, 'true_divide': sym.div,
    'floor_divide': sym.floordiv, 'remainder': sym.mod, 'mod': sym.mod, 'power': sym.power,
    'float_power': lambda a, b: sym.power(cast(a, 'f'), b),
    'negative': sym.neg, 'positive': lambda a: a, 'absolute': sym.abs_, 'fabs': sym.abs_, 'floor': sym.floor,
    'ceil': sym.ceil, 'trunc': sym.trunc, 'rint': sym.rint, 'sqrt': sym.sqrt, 'square': sym.square,
    'cbrt': lambda a: sym.power(a, 1 / 3), 'exp': sym.exp, 'exp2': sym.exp2, 'expm1': sym.expm1, 'log': sym.log,
    'log10': sym.log10, 'log2': sym.log2, 'log1p': sym.log1p, 'sin': sym.sin, 'cos': sym.cos, 'tan': sym.tan,
    'arcsin': sym.arcsin, 'arccos': sym.arccos, 'arctan': sym.arctan, 'arctan2': sym.arctan2, 'tanh': sym.tanh,
    'hypot': sym.hypot, 'less': sym.lt, 'less_equal': sym.le, 'greater': sym.gt, 'greater_equal': sym.ge,
    'equal': sym.eq, 'not_equal': sym.ne, 'logical_and': sym.land, 'logical_or': sym.lor, 'logical_not': sym.lnot,
    'logical_xor': sym.lxor, 'bitwise_and': sym.and_, 'bitwise_or': sym.or_, 'invert': sym.not_,
    'bitwise_xor': lambda a, b: sym.lxor(a, b), 'maximum': sym.maximum, 'minimum': sym.minimum, 'fmax': sym.fmax,
    'fmin': sym.fmin, 'sign': sym.sign, 'isnan': sym.isnan, 'isfinite': sym.isfinite, 'isinf': sym.isinf,
    'conjugate': sym.conj, 'reciprocal': lambda a: sym.div(1.0, a), 'deg2rad': lambda a: sym.mul(a, np.pi / 180),
    'radians': lambda a: sym.mul(a, np.pi / 180), 'rad2deg': lambda a: sym.mul(a, 180 / np.pi),
    'degrees': lambda a: sym.mul(a, 180 / np.pi),
}
_fp = {}


def elementwise(f, *arrs):
    os_ = [toobj(a) for a in arrs]
    shape = np.broadcast_shapes(*[o.shape for o in os_])
    os_ = [np.broadcast_to(o, shape) for o in os_]
    out = np.empty(shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[o[()] for o in os_])
        return out
    flat = out.reshape(-1)
    n = 0
    for vs in zip(*[o.flat for o in os_]):
        flat[n] = f(*vs)
        n += 1
    return out


def reduce_(f, a, axis, keepdims=False, initial=None, identity=None):
    b = toobj(a)
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % b.ndim for x in axis)
    else:
        ax = int(axis)
        if ax < -b.ndim or ax >= b.ndim:
            raise np.exceptions.AxisError(ax, b.ndim)
        axes = (ax % b.ndim,)
    keep = [i for i in range(b.ndim) if i not in axes]
    t = np.transpose(b, keep + list(axes)).reshape([b.shape[i] for i in keep] + [-1] if b.size else
                                                   [b.shape[i] for i in keep] + [0 if axes else 1])
    oshape = tuple(b.shape[i] for i in keep)
    out = np.empty(oshape, dtype=object)
    for c in _cells(oshape):
        vs = list(t[c])
        if initial is not None:
            vs = [initial] + vs
        if not vs:
            if identity is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            out[c] = identity
        else:
            r = vs[0]
            for v in vs[1:]:
                r = f(r, v)
            out[c] = r
    if keepdims:
        out = out.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    return unwrap0(out.view(SArr)) if out.ndim == 0 else wrap(out)


IDENT = {'add': 0.0, 'multiply': 1.0, 'logical_and': np.bool_(True), 'logical_or': np.bool_(False),
         'bitwise_and': np.bool_(True), 'bitwise_or': np.bool_(False)}


def handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    for i in inputs:
        if not isinstance(i, (_nd, list, tuple)) and not sym.isnum(i) and i is not None and not isinstance(i, (str, bytes)) \
                and hasattr(type(i), '__array_ufunc__') and not isinstance(i, Sym):
            return NotImplemented
    where = kw.pop('where', True)
    for k in ('casting', 'order', 'subok', 'signature'):
        kw.pop(k, None)
    symb = any(has_sym(i) for i in inputs) or has_sym(where)
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        f = UF.get(name)
        if f is None:
            raise Unsupported('ufunc.at ' + name)
        idx2, isym = prep_index(idx if not isinstance(idx, list) else f_array(idx), a.shape)
        if len(inputs) == 2:
            val, op = 0, lambda o, v: f(o)
        else:
            val, op = inputs[2], f
        if isym:
            if not isinstance(a, SArr):
                raise Unsupported('symbolic ufunc.at on a foreign array')
            sym_set(a, idx2, val, op=op)
        else:
            if not isinstance(a, SArr):
                a = a.view(SArr)
            if tdtype(a) != object and not has_sym(val):
                getattr(ufunc, 'at')(base(a), idx2, *([native(val)] if len(inputs) > 2 else []))
            else:
                _at_concrete(a, idx2, val, op)
        return None
    if not symb and not has_sym(out):
        ins = [native(i) if isinstance(i, _nd) else [native(x) for x in i] if isinstance(i, list) else i for i in inputs]
        kk = dict(kw)
        if isinstance(where, _nd):
            kk['where'] = native(where)
        elif where is not True:
            kk['where'] = where
        if 'dtype' in kk and kk['dtype'] is not None:
            kk['dtype'] = getattr(kk['dtype'], '_vsx_base', kk['dtype'])
        if out is not None and 'where' in kk:
            kk['out'] = tuple(native(o).copy() for o in out)
        r = getattr(ufunc, method)(*ins, **kk)
        if out is not None:
            rs = r if isinstance(r, tuple) else (r,)
            for o, v in zip(out, rs):
                if isinstance(o, SArr) and tdtype(o) == object:
                    if o._k and isinstance(v, (_nd, np.generic)) and DT.get(o._k) is not None and \
                            not np.can_cast(v.dtype, DT[o._k], 'same_kind'):
                        raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', v.dtype, DT[o._k], 0)
                    if not o._k and has_intkind(o) and isinstance(v, (_nd, np.generic)) and v.dtype.kind == 'f':
                        raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', v.dtype, DT['i'], 0)
                    o[...] = v
                else:
                    if not np.can_cast(np.asarray(v).dtype, tdtype(o), 'same_kind'):
                        raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', np.asarray(v).dtype,
                                                                             tdtype(o), 0)
                    base(o)[...] = v
            return out[0] if len(out) == 1 else out
        return wrap(r)
    if name == 'divmod':
        return (handle_ufunc(np.floor_divide, method, inputs, {}), handle_ufunc(np.remainder, method, inputs, {}))
    if name == 'modf':
        t = handle_ufunc(np.trunc, method, inputs, {})
        return handle_ufunc(np.subtract, method, (inputs[0], t), {}), t
    if name == 'matmul':
        r = s_matmul(*inputs)
    else:
        f = UF.get(name)
        if f is None:
            raise Unsupported('ufunc ' + name)
        if method == '__call__':
            dt = kw.get('dtype')
            if where is not True:
                if out is None:
                    raise Unsupported('ufunc where without out')
                r = elementwise(lambda w, o, *v: sym.ite(w, f(*v), o), where, out[0], *inputs)
            else:
                r = elementwise(f, *inputs)
            if dt is not None and r.ndim:
                r = _castarr(r, kind(dt))
        elif method == 'reduce':
            ax = kw.get('axis', 0)
            r = reduce_(f, inputs[0], ax, kw.get('keepdims', False), kw.get('initial'), IDENT.get(name))
            if out is None:
                return r
        elif method == 'accumulate':
            ax = kw.get('axis', 0)
            b = np.moveaxis(toobj(inputs[0]), ax, 0).copy()
            for i in range(1, b.shape[0]):
                for c in _cells(b.shape[1:]):
                    b[(i,) + c] = f(b[(i - 1,) + c], b[(i,) + c])
            r = np.moveaxis(b, 0, ax)
        elif method == 'outer':
            a, b = toobj(inputs[0]), toobj(inputs[1])
            r = elementwise(f, a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == 'reduceat':
            b = toobj(inputs[0])
            ix = [int(i) for i in inputs[1]]
            outv = []
            for n, i in enumerate(ix):
                j = ix[n + 1] if n + 1 < len(ix) else len(b)
                outv.append(reduce_(f, b[i:max(j, i + 1)], 0))
            r = toobj(outv)
        else:
            raise Unsupported('ufunc method ' + method)
    if out is not None:
        o = out[0]
        if not isinstance(o, SArr) or tdtype(o) != object:
            raise Unsupported('symbolic result into a native array (in-place %s)' % name)
        k = o._k or ('i' if has_intkind(o) else None)
        if k in ('i', 'b') and infer_kind(toobj(r)) in ('f', 'c'):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', DT[infer_kind(toobj(r))], DT[k], 0)
        o[...] = wrap(toobj(r))
        return o
    return unwrap0(wrap(r) if isinstance(r, _nd) else r)


def has_intkind(o):
    return tdtype(o) == object and o.size > 0 and infer_kind(o) == 'i'


def s_matmul(a, b):
    a, b = toobj(a), toobj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: 0-d operand')
    a1 = a.ndim == 1
    b1 = b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: mismatch in core dimension')
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, bs + a.shape[-2:])
    B = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for c in _cells(out.shape):
        acc = None
        for k in range(a.shape[-1]):
            p = sym.mul(A[c[:-2] + (c[-2], k)], B[c[:-2] + (k, c[-1])])
            acc = p if acc is None else sym.add(acc, p)
        out[c] = 0.0 if acc is None else acc
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out


# -- array functions ------------------------------------------------------------------

FN = {}


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def fname(func):
    mod = getattr(func, '__module__', '') or ''
    n = getattr(func, '__name__', str(func))
    if 'linalg' in mod:
        return 'linalg.' + n
    if 'fft' in mod:
        return 'fft.' + n
    return n


ALLOC = ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'copy')


def handle_function(func, args, kwargs):
    n = fname(func)
    if any(struct.involved(x) for x in args):
        return struct.dispatch(func, args, kwargs)
    kwargs = {k: (getattr(v, '_vsx_base', v)) for k, v in kwargs.items()}
    if n in FN:
        if kwargs and not kwargs.keys() <= _params(n)[0]:
            return _with_keywords(n, func, args, kwargs)
        return FN[n](*args, **kwargs)
    symb = has_sym(args) or has_sym(kwargs)
    if not symb:
        a = [_deepnative(x) for x in args]
        k = {x: _deepnative(v) for x, v in kwargs.items()}
        return wrap(func(*a, **k))
    return structural(func, args, kwargs)


_PARAMS = {}
_HARMLESS = {'order', 'subok', 'device', 'overwrite_input', 'stable', 'kind', 'optimize', 'assume_unique', 'like', 'sorted'}


def _params(n):
    """(own keywords, numpy's names in order, whether the function looks at further keywords itself)"""
    if n not in _PARAMS:
        own = list(inspect.signature(FN[n]).parameters.values())
        names = [p.name for p in own if p.kind == p.POSITIONAL_OR_KEYWORD]
        try:
            f = np
            for part in n.split('.'):
                f = getattr(f, part)
            theirs = [p.name for p in inspect.signature(f).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD or p.kind == p.KEYWORD_ONLY]
            pos = [p.name for p in inspect.signature(f).parameters.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY)]
        except (AttributeError, ValueError, TypeError):
            theirs = pos = []
        var = next((p.name for p in own if p.kind == p.VAR_KEYWORD), None)
        src = inspect.getsource(FN[n])
        body = src[src.index('def '):].split('\n', 1)[1] if 'def ' in src else src.split(':', 1)[1]
        uses = bool(var) and bool(re.search(r'(\*\*%s\b|\b%s\.|\b%s\[|\bin %s\b)' % ((var,) * 4), body))
        _PARAMS[n] = (frozenset(names), pos, theirs, names, uses)
    return _PARAMS[n]


def _with_keywords(n, func, args, kwargs):
    """a call by numpy's own keyword names, or with keywords the stand-in does not have"""
    own, pos, theirs, names, uses = _params(n)
    kw, rest = {}, {}
    for k, v in kwargs.items():
        if k in own:
            kw[k] = v
        elif k in pos and pos.index(k) < len(names) and names[pos.index(k)] not in theirs:
            kw[names[pos.index(k)]] = v
        else:
            rest[k] = v
    if uses or not rest:
        return FN[n](*args, **kw, **rest)
    out = rest.pop('out', None)
    keep = rest.pop('keepdims', False)
    for k, v in list(rest.items()):
        if k in _HARMLESS or v is None or v is np._NoValue or (k == 'dtype' and np.dtype(v).kind == 'f'):
            rest.pop(k)
    if rest and not has_sym(args) and not has_sym(kwargs):
        return wrap(func(*[_deepnative(x) for x in args], **{x: _deepnative(v) for x, v in kwargs.items()}))
    if rest:
        raise Unsupported('numpy.%s with %s' % (n, ', '.join(rest)))
    r = FN[n](*args, **kw)
    if keep:
        ax = kw.get('axis')
        a = f_asarray(args[0] if args else kw[names[0]])
        r = f_asarray(r).reshape((1,) * a.ndim) if ax is None else handle_function(np.expand_dims, (r, ax), {})
    if out is not None:
        out[...] = r
        return out
    return r


def _deepnative(x):
    if isinstance(x, _nd):
        return native(x)
    if isinstance(x, list):
        return [_deepnative(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_deepnative(v) for v in x)
    if isinstance(x, slice):
        return x
    b = getattr(x, '_vsx_base', None) if isinstance(x, type) else None
    return b if b is not None else x


def _deepobj(x):
    if isinstance(x, Sym):
        return toobj(x)
    if isinstance(x, SArr):
        return base(x)
    if isinstance(x, list):
        return [_deepobj(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_deepobj(v) for v in x)
    return x


STRUCT = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'reshape', 'moveaxis', 'expand_dims',
          'split', 'array_split', 'vsplit', 'hsplit', 'pad', 'roll', 'flip', 'flipud', 'fliplr', 'tile', 'repeat',
          'meshgrid', 'broadcast_to', 'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze',
          'transpose', 'swapaxes', 'append', 'insert', 'diag', 'ravel', 'rollaxis', 'rot90', 'shape', 'size', 'ndim',
          'resize', 'diff', 'diagonal', 'fft.fftshift', 'fft.ifftshift', 'indices', 'ix_', 'tril', 'triu',
          'unstack', 'block'}


def structural(func, args, kwargs):
    n = fname(func)
    a = [_deepobj(x) for x in args]
    k = {x: _deepobj(v) for x, v in kwargs.items()}
    if n in STRUCT:
        return wrap(func(*a, **k))
    try:
        # generic numpy code over object arrays, using the scalar operators
        r = func(*a, **k)
        return wrap(r)
    except (TypeError, AttributeError, np.exceptions.DTypePromotionError) as e:
        # last resort: fix the symbols involved
        sym.ENG.notes.append('concretised arguments of numpy.%s' % n)
        a = [_deepconc(x) for x in args]
        k = {x: _deepconc(v) for x, v in kwargs.items()}
        return wrap(func(*a, **k))


def concval(v):
    if isinstance(v, SymReal):
        return float(v)
    if isinstance(v, SymInt):
        return int(v)
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymComplex):
        return complex(float(v.re), float(v.im))
    return v


def _deepconc(x):
    if isinstance(x, Sym):
        return concval(x)
    if isinstance(x, _nd):
        if has_sym(x):
            r = mk([concval(v) for v in base(x).reshape(-1)], x.shape)
            return native(r)
        return native(x)
    if isinstance(x, list):
        return [_deepconc(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_deepconc(v) for v in x)
    return x


def _axis_reduce(name, f, identity):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        if isinstance(keepdims, type(np._NoValue)):
            keepdims = False
        if where is not None and not isinstance(where, type(np._NoValue)):
            a = f_where(where, a, identity)
        if not has_sym(a):
            kk = {}
            if keepdims:
                kk['keepdims'] = True
            if initial is not None and not isinstance(initial, type(np._NoValue)):
                kk['initial'] = initial
            if dtype is not None and name in ('sum', 'prod'):
                kk['dtype'] = getattr(dtype, '_vsx_base', dtype)
            r = wrap(getattr(np, name)(_deepnative(a) if not isinstance(a, tuple) else native(f_array(a)), axis=axis, **kk))
        else:
            if isinstance(initial, type(np._NoValue)):
                initial = None
            if isinstance(a, (list, tuple)):
                a = f_array(a)
            ident = identity
            aa = a
            if name in ('sum', 'prod') and infer_kind(toobj(a)) == 'b':
                aa = mapel(lambda v: cast(v, 'i'), a)
            r = reduce_(f, aa, axis, keepdims, initial, ident)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


FN['sum'] = _axis_reduce('sum', sym.add, 0.0)
FN['prod'] = _axis_reduce('prod', sym.mul, 1.0)
FN['min'] = FN['amin'] = _axis_reduce('min', sym.minimum, None)
FN['max'] = FN['amax'] = _axis_reduce('max', sym.maximum, None)
FN['any'] = _axis_reduce('any', sym.lor, np.bool_(False))
FN['all'] = _axis_reduce('all', sym.land, np.bool_(True))
f_sum, f_min, f_max, f_any, f_all = FN['sum'], FN['min'], FN['max'], FN['any'], FN['all']
_r_any, _r_all = f_any, f_all


def _truthy(r):
    return r


@fn('any')
def f_any(a, axis=None, **k):
    r = _r_any(a, axis=axis, **k)
    if axis is None and not isinstance(r, _nd):
        return sym.truth(r)
    return r


@fn('all')
def f_all(a, axis=None, **k):
    r = _r_all(a, axis=axis, **k)
    if axis is None and not isinstance(r, _nd):
        return sym.truth(r)
    return r


def f_not(a):
    return mapel(sym.not_, a)


def _isnanel(v):
    return isinstance(v, (float, np.floating)) and v != v


def _nan_reduce(name, f, identity):
    def g(a, axis=None, **kw):
        if not has_sym(a):
            return wrap(getattr(np, name)(_deepnative(a), axis=axis, **{k: v for k, v in kw.items()
                                                                        if not isinstance(v, type(np._NoValue))}))
        a = f_asarray(a)
        a2 = mapel(lambda v: identity if _isnanel(v) else v, a)
        return reduce_(f, a2, axis, kw.get('keepdims', False) is True, None, identity)
    return g


FN['nansum'] = _nan_reduce('nansum', sym.add, 0.0)
FN['nanprod'] = _nan_reduce('nanprod', sym.mul, 1.0)
FN['nanmin'] = _nan_reduce('nanmin', sym.fmin, np.float64('nan'))
FN['nanmax'] = _nan_reduce('nanmax', sym.fmax, np.float64('nan'))


def _count(a, axis):
    shape = np.shape(toobj(a))
    if axis is None:
        return int(np.prod(shape)) if shape else 1
    if isinstance(axis, (tuple, list)):
        return int(np.prod([shape[i] for i in axis]))
    return shape[int(axis)]


@fn('mean')
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    keepdims = keepdims is True
    if not has_sym(a):
        return wrap(np.mean(_deepnative(a), axis=axis, keepdims=keepdims))
    n = _count(a, axis)
    if n == 0:
        return np.float64('nan')
    return f_sum(a, axis=axis, keepdims=keepdims) / float(n)


@fn('nanmean')
def f_nanmean(a, axis=None, **k):
    if not has_sym(a):
        return wrap(np.nanmean(_deepnative(a), axis=axis))
    cnt = f_sum(mapel(lambda v: 0.0 if _isnanel(v) else 1.0, a), axis=axis)
    return handle_ufunc(np.divide, '__call__', (FN['nansum'](a, axis=axis), cnt), {})


@fn('average')
def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        r = f_mean(a, axis=axis)
        return (r, _count(a, axis)) if returned else r
    if not has_sym(a) and not has_sym(weights):
        return wrap(np.average(_deepnative(a), axis=axis, weights=_deepnative(weights), returned=returned))
    a = f_asarray(a)
    w = f_asarray(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        if w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise ValueError('Shape of weights must be consistent with shape of a along specified axis.')
        w = wrap(np.swapaxes(np.broadcast_to(toobj(w), (a.ndim - 1) * (1,) + w.shape), -1, axis))
    s = f_sum(w * wrap(np.ones(a.shape)), axis=axis)
    if bool(f_any(s == 0.0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = f_sum(a * w, axis=axis) / s
    return (r, s) if returned else r


@fn('var')
def f_var(a, axis=None, ddof=0, keepdims=False, **k):
    if not has_sym(a):
        return wrap(np.var(_deepnative(a), axis=axis, ddof=ddof))
    m = f_mean(a, axis=axis, keepdims=True) if axis is not None else f_mean(a)
    d = f_asarray(a) - m
    n = _count(a, axis) - ddof
    return f_sum(d * d, axis=axis) / (float(n) if n else 0.0)


@fn('std')
def f_std(a, axis=None, ddof=0, **k):
    if not has_sym(a):
        return wrap(np.std(_deepnative(a), axis=axis, ddof=ddof))
    v = f_var(a, axis=axis, ddof=ddof)
    return mapel(sym.sqrt, v)


@fn('ptp')
def f_ptp(a, axis=None, **k):
    return f_max(a, axis=axis) - f_min(a, axis=axis)


@fn('count_nonzero')
def f_count_nonzero(a, axis=None, **k):
    if not has_sym(a):
        return wrap(np.count_nonzero(_deepnative(a), axis=axis))
    return reduce_(sym.add, mapel(lambda v: cast(sym.truth(v), 'i'), a), axis, False, None, 0)


@fn('cumsum')
def f_cumsum(a, axis=None, **k):
    a = f_asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if not has_sym(a):
        return wrap(np.cumsum(native(a), axis=axis))
    return handle_ufunc(np.add, 'accumulate', (a,), {'axis': axis})


@fn('cumprod')
def f_cumprod(a, axis=None, **k):
    a = f_asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if not has_sym(a):
        return wrap(np.cumprod(native(a), axis=axis))
    return handle_ufunc(np.multiply, 'accumulate', (a,), {'axis': axis})


def _argbest(better):
    def g(a, axis=None, **k):
        a = f_asarray(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        b = np.moveaxis(toobj(a), axis, 0)
        if b.shape[0] == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        out = np.empty(b.shape[1:], dtype=object)
        for c in _cells(b.shape[1:]):
            bi, bv = np.int64(0), b[(0,) + c]
            for i in range(1, b.shape[0]):
                v = b[(i,) + c]
                w = better(v, bv)
                bi, bv = sym.ite(w, np.int64(i), bi), sym.ite(w, v, bv)
            out[c] = bi
        return unwrap0(wrap(out))
    return g


_argmax = _argbest(lambda v, b: sym.or_(sym.gt(v, b), np.bool_(_isnanel(v) and not _isnanel(b))) if not _isnanel(b) else np.bool_(False))
_argmin = _argbest(lambda v, b: sym.or_(sym.lt(v, b), np.bool_(_isnanel(v) and not _isnanel(b))) if not _isnanel(b) else np.bool_(False))


@fn('argmax')
def f_argmax(a, axis=None, **k):
    return _argmax(a, axis) if has_sym(a) else wrap(np.argmax(_deepnative(a), axis=axis))


@fn('argmin')
def f_argmin(a, axis=None, **k):
    return _argmin(a, axis) if has_sym(a) else wrap(np.argmin(_deepnative(a), axis=axis))


@fn('nanargmax')
def f_nanargmax(a, axis=None, **k):
    if not has_sym(a):
        return wrap(np.nanargmax(_deepnative(a), axis=axis))
    return _argmax(mapel(lambda v: np.float64(-np.inf) if _isnanel(v) else v, a), axis)


@fn('nanargmin')
def f_nanargmin(a, axis=None, **k):
    if not has_sym(a):
        return wrap(np.nanargmin(_deepnative(a), axis=axis))
    return _argmin(mapel(lambda v: np.float64(np.inf) if _isnanel(v) else v, a), axis)


# sorting: forks on comparisons (stable insertion sort) --------------------------------

def _less(x, y):
    """x sorts strictly before y (nan last)"""
    if _isnanel(x):
        return False
    if _isnanel(y):
        return True
    return bool(sym.lt(x, y))


def _order(vals):
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and _less(v, vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


@fn('argsort')
def f_argsort(a, axis=-1, kind=None, order=None, stable=None, **k):
    a = f_asarray(a)
    if not has_sym(a):
        return wrap(np.argsort(native(a), axis=axis, kind=kind if kind else None))
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    b = np.moveaxis(toobj(a), axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    for c in _cells(b.shape[:-1]):
        out[c] = _order(list(b[c]))
    return wrap(np.moveaxis(out, -1, axis))


@fn('sort')
def f_sort(a, axis=-1, kind=None, **k):
    a = f_asarray(a)
    if not has_sym(a):
        return wrap(np.sort(native(a), axis=axis))
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    b = np.moveaxis(toobj(a), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for c in _cells(b.shape[:-1]):
        v = list(b[c])
        for n, i in enumerate(_order(v)):
            out[c + (n,)] = v[i]
    return wrap(np.moveaxis(out, -1, axis))


@fn('lexsort')
def f_lexsort(keys, axis=-1):
    ks = [list(toobj(k)) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        o = _order([k[i] for i in idx])
        idx = [idx[i] for i in o]
    return wrap(np.array(idx, dtype=int))


@fn('unique')
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = f_asarray(a)
    if not has_sym(a):
        nb = native(a)
        if tdtype(nb) == object:
            vals = sorted(set(nb.reshape(-1).tolist()), key=lambda v: (str(type(v)), v))
            return wrap(toobj(vals))
        return wrap(np.unique(nb, return_index=return_index, return_inverse=return_inverse,
                              return_counts=return_counts, axis=axis))
    if axis is not None:
        raise Unsupported('unique with axis on symbolic data')
    v = list(toobj(a).reshape(-1))
    o = _order(v)
    groups = []
    for i in o:
        if groups and bool(sym.eq(v[groups[-1][0]], v[i])):
            groups[-1].append(i)
        else:
            groups.append([i])
    res = [mk([v[g[0]] for g in groups], (len(groups),))]
    if return_index:
        res.append(wrap(np.array([min(g) for g in groups], dtype=int)))
    if return_inverse:
        inv = np.zeros(len(v), dtype=int)
        for n, g in enumerate(groups):
            inv[g] = n
        res.append(wrap(inv.reshape(a.shape)))
    if return_counts:
        res.append(wrap(np.array([len(g) for g in groups], dtype=int)))
    return res[0] if len(res) == 1 else tuple(res)


@fn('isin', 'in1d')
def f_isin(el, test, assume_unique=False, invert=False, **k):
    if not has_sym(el) and not has_sym(test):
        e, t = _deepnative(el), _deepnative(test)
        return wrap(np.isin(e, t, invert=invert))
    ts = list(toobj(test).reshape(-1))

    def f(v):
        r = np.bool_(False)
        for t in ts:
            r = sym.or_(r, sym.eq(v, t))
        return sym.not_(r) if invert else r
    return mapel(f, el)


@fn('intersect1d')
def f_intersect1d(a, b, assume_unique=False, return_indices=False):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.intersect1d(_deepnative(a), _deepnative(b), assume_unique=assume_unique,
                                   return_indices=return_indices))
    ua, ia = f_unique(a, return_index=True)
    ub, ib = f_unique(b, return_index=True)
    v, i1, i2 = [], [], []
    for x, i in zip(list(toobj(ua)), ia):
        for y, j in zip(list(toobj(ub)), ib):
            if bool(sym.eq(x, y)):
                v.append(x)
                i1.append(int(i))
                i2.append(int(j))
                break
    r = mk(v, (len(v),))
    return (r, wrap(np.array(i1, dtype=int)), wrap(np.array(i2, dtype=int))) if return_indices else r


@fn('setdiff1d')
def f_setdiff1d(a, b, assume_unique=False):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.setdiff1d(_deepnative(a), _deepnative(b), assume_unique=assume_unique))
    u = f_unique(a) if not assume_unique else f_asarray(a).reshape(-1)
    return u[f_isin(u, b, invert=True)]


@fn('union1d')
def f_union1d(a, b):
    return f_unique(f_concatenate((f_asarray(a).reshape(-1), f_asarray(b).reshape(-1))))


def f_concatenate(arrs, axis=0):
    return handle_function(np.concatenate, (list(arrs),), {'axis': axis})


@fn('concatenate')
def f_concat(arrs, axis=0, out=None, dtype=None, **k):
    arrs = list(arrs)
    if has_sym(arrs) or any(isinstance(x, SArr) and tdtype(x) == object for x in arrs):
        ks = [getattr(x, '_k', None) for x in arrs]
        r = wrap(np.concatenate([toobj(x) for x in arrs], axis=axis))
        r._k = ks[0] if ks and all(q == ks[0] for q in ks) else None
        if any(isinstance(x, (_nd, list)) and np.ndim(toobj(x)) and (x.dtype if isinstance(x, SArr) else np.asarray(native(toobj(x)) if not has_sym(x) else np.zeros(1)).dtype).kind == 'f' for x in arrs):
            # mixed int / float promotes
            r = wrap(_castarr(base(r), 'f')) if infer_kind(r) in ('i', 'f', 'b') else r
        return r
    return wrap(np.concatenate([_deepnative(x) for x in arrs], axis=axis))


@fn('searchsorted')
def f_searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a) and not has_sym(v):
        return wrap(np.searchsorted(_deepnative(a), _deepnative(v), side=side, sorter=_deepnative(sorter)))
    a = f_asarray(a)
    if sorter is not None:
        a = a[sorter]
    av = list(toobj(a))

    def f(x):
        n = np.int64(0)
        for t in av:
            c = sym.lt(t, x) if side == 'left' else sym.le(t, x)
            n = sym.add(n, cast(c, 'i'))
        return n
    return mapel(f, v)


@fn('digitize')
def f_digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return wrap(np.digitize(_deepnative(x), _deepnative(bins), right=right))
    b = f_asarray(bins)
    bv = list(toobj(b))
    inc = all(bool(sym.le(p, q)) for p, q in zip(bv, bv[1:]))
    if inc:
        return f_searchsorted(b, x, side='left' if right else 'right')
    dec = all(bool(sym.ge(p, q)) for p, q in zip(bv, bv[1:]))
    if not dec:
        raise ValueError('bins must be monotonically increasing or decreasing')
    r = f_searchsorted(b[::-1], x, side='left' if right else 'right')
    return len(bv) - r


@fn('interp')
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return wrap(np.interp(_deepnative(x), _deepnative(xp), _deepnative(fp), left=left, right=right))
    if period is not None:
        raise Unsupported('interp with period')
    xs, fs = list(toobj(f_asarray(xp))), list(toobj(f_asarray(fp)))
    if len(xs) == 0 or len(xs) != len(fs):
        raise ValueError('fp and xp are not of the same length.')
    lv = fs[0] if left is None else left
    rv_ = fs[-1] if right is None else right

    def f(v):
        if not isinstance(v, Sym) and _isnanel(v):
            return np.float64('nan')
        r = rv_
        r = sym.ite(sym.eq(v, xs[-1]), fs[-1], r)
        for i in range(len(xs) - 2, -1, -1):
            d = sym.sub(xs[i + 1], xs[i])
            if not isinstance(d, Sym) and d == 0:
                continue
            slope = sym.div(sym.sub(fs[i + 1], fs[i]), d)
            seg = sym.add(sym.mul(slope, sym.sub(v, xs[i])), fs[i])
            r = sym.ite(sym.lt(v, xs[i + 1]), seg, r)
        return sym.ite(sym.lt(v, xs[0]), lv, r)
    return mapel(f, x)


@fn('histogram')
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    if not has_sym(a) and not has_sym(bins) and not has_sym(weights):
        return wrap(np.histogram(_deepnative(a), bins=_deepnative(bins), range=_deepnative(range), density=density,
                                 weights=_deepnative(weights)))
    av = list(toobj(a).reshape(-1))
    if isinstance(bins, (int, np.integer)):
        if range is None:
            lo, hi = f_min(a), f_max(a)
        else:
            lo, hi = range
        e = f_linspace(lo, hi, bins + 1)
    else:
        e = f_asarray(bins)
    ev = list(toobj(e))
    w = list(toobj(weights).reshape(-1)) if weights is not None else [1] * len(av)
    out = []
    for i in builtins.range(len(ev) - 1):
        acc = 0
        for v, ww in zip(av, w):
            c = sym.and_(sym.ge(v, ev[i]), sym.lt(v, ev[i + 1]) if i < len(ev) - 2 else sym.le(v, ev[i + 1]))
            acc = sym.add(acc, sym.ite(c, ww, 0 if sym.isint(ww) else 0.0))
        out.append(acc)
    h = mk(out, (len(out),))
    if density:
        d = handle_function(np.diff, (e,), {})
        h = h / d / f_sum(h)
    return h, e


@fn('bincount')
def f_bincount(x, weights=None, minlength=0):
    if not has_sym(x) and not has_sym(weights):
        return wrap(np.bincount(_deepnative(x), weights=_deepnative(weights), minlength=minlength))
    xs = list(toobj(x).reshape(-1))
    w = list(toobj(weights).reshape(-1)) if weights is not None else [1] * len(xs)
    n = int(minlength)
    if xs:
        m = f_max(x)
        n = max(n, int(m) + 1)
    out = []
    for i in range(n):
        acc = 0 if weights is None else 0.0
        for v, ww in zip(xs, w):
            acc = sym.add(acc, sym.ite(sym.eq(v, i), ww, 0 if sym.isint(ww) else 0.0))
        out.append(acc)
    return mk(out, (n,))


@fn('where')
def f_where(c, *xy):
    if not xy:
        return f_nonzero(c)
    x, y = xy
    if not has_sym(c) and not has_sym(x) and not has_sym(y):
        return wrap(np.where(_deepnative(c), _deepnative(x), _deepnative(y)))
    return unwrap0(wrap(elementwise(sym.ite, c, x, y)))


@fn('select')
def f_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = f_where(c, v, r)
    return r


@fn('nonzero', 'flatnonzero', 'argwhere')
def f_nonzero(a):
    a = f_asarray(a)
    m = np.array([bool(v) for v in toobj(a).reshape(-1)], dtype=bool).reshape(a.shape)
    return wrap(np.nonzero(m))


FN['flatnonzero'] = lambda a: f_nonzero(f_asarray(a).reshape(-1))[0]
FN['argwhere'] = lambda a: wrap(np.transpose(f_nonzero(a)))


@fn('extract', 'compress')
def f_extract(c, a, *r):
    return f_asarray(a)[f_asarray(c)]


@fn('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.isclose(_deepnative(a), _deepnative(b), rtol=rtol, atol=atol, equal_nan=equal_nan))

    def f(x, y):
        if sym.special(x) or sym.special(y):
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                return np.bool_(np.isclose(x, y, rtol, atol, equal_nan))
            return np.bool_(False)
        return sym.le(sym.abs_(sym.sub(x, y)), sym.add(atol, sym.mul(rtol, sym.abs_(y))))
    return unwrap0(wrap(elementwise(f, a, b)))


@fn('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(f_all(f_isclose(a, b, rtol, atol, equal_nan)))


@fn('array_equal')
def f_array_equal(a, b, equal_nan=False):
    if np.shape(toobj(a)) != np.shape(toobj(b)):
        return False
    if not has_sym(a) and not has_sym(b):
        return bool(np.array_equal(_deepnative(a), _deepnative(b), equal_nan=equal_nan))
    return bool(f_all(eqarr(f_asarray(a), f_asarray(b))))


@fn('round', 'around', 'round_')
def f_round(a, decimals=0, out=None):
    if not has_sym(a):
        return wrap(np.round(_deepnative(a), decimals))
    return mapel(lambda v: sym.round_(v, decimals), a)


@fn('clip')
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = handle_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = handle_ufunc(np.minimum, '__call__', (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


@fn('nan_to_num')
def f_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    if not has_sym(a):
        return wrap(np.nan_to_num(_deepnative(a), nan=nan, posinf=posinf, neginf=neginf))
    return mapel(lambda v: v if isinstance(v, Sym) else np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf), a)


@fn('piecewise')
def f_piecewise(x, condlist, funclist, *args, **kw):
    if not has_sym(x) and not has_sym(condlist):
        return wrap(np.piecewise(_deepnative(x), _deepnative(condlist), funclist, *args, **kw))
    x = f_asarray(x)
    if isinstance(condlist, _nd) and condlist.ndim == np.ndim(x):
        condlist = [condlist]
    condlist = list(condlist)
    n = len(condlist)
    funcs = list(funclist)
    if len(funcs) == n + 1:
        condlist.append(None)
    # numpy evaluates each function on the selected sub-array; later conditions win
    res = np.zeros(x.shape, dtype=object)
    xf = toobj(x)
    for c in _cells(x.shape):
        v = 0.0
        chosen = None
        anyc = np.bool_(False)
        for cond, fnc in zip(condlist, funcs):
            if cond is None:
                continue
            cc = toobj(cond)[c] if x.shape else toobj(cond)[()]
            if bool(cc):
                chosen = fnc
        if chosen is None and len(funcs) == n + 1:
            chosen = funcs[-1]
        if chosen is None:
            res[c] = 0.0
        elif callable(chosen):
            r = chosen(mk([xf[c]], (1,)), *args, **kw)
            res[c] = toobj(r).reshape(-1)[0]
        else:
            res[c] = chosen
    return wrap(res)


@fn('linspace')
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        r = np.linspace(_deepnative(start), _deepnative(stop), int(num), endpoint=endpoint, retstep=retstep)
        return wrap(r)
    num = int(num)
    d = (num - 1) if endpoint else num
    step = sym.div(sym.sub(stop, start), float(d)) if d else np.float64('nan')
    vals = [sym.add(start, sym.mul(step, float(i))) for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop
    r = mk(vals, (num,))
    return (r, step) if retstep else r


@fn('logspace')
def f_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not has_sym(start) and not has_sym(stop):
        return wrap(np.logspace(_deepnative(start), _deepnative(stop), int(num), endpoint=endpoint, base=base))
    return handle_ufunc(np.power, '__call__', (float(base), f_linspace(start, stop, num, endpoint)), {})


@fn('dot')
def f_dot(a, b, out=None):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.dot(_deepnative(a), _deepnative(b)))
    A, B = toobj(a), toobj(b)
    if A.ndim == 0 or B.ndim == 0:
        return handle_ufunc(np.multiply, '__call__', (a, b), {})
    if B.ndim > 2 or A.ndim > 2 and B.ndim > 1:
        raise Unsupported('dot of high-dimensional arrays')
    return unwrap0(wrap(s_matmul(A, B)))


FN['inner'] = lambda a, b: f_dot(a, np.transpose(toobj(b)) if np.ndim(toobj(b)) == 2 else b)
FN['vdot'] = lambda a, b: f_dot(f_asarray(a).reshape(-1), f_asarray(b).reshape(-1))
FN['outer'] = lambda a, b, out=None: handle_ufunc(np.multiply, 'outer', (f_asarray(a).reshape(-1), f_asarray(b).reshape(-1)), {})


@fn('einsum')
def f_einsum(spec, *ops, **k):
    if not has_sym(ops):
        return wrap(np.einsum(spec, *[_deepnative(o) for o in ops]))
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        rhs = ''.join(sorted(c for c in set(lhs) if c != ',' and lhs.count(c) == 1))
    ops = [toobj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for oc in _cells(out.shape):
        env = dict(zip(rhs, oc))
        acc = 0.0
        for sc in _cells([dims[c] for c in summed]):
            env.update(zip(summed, sc))
            p = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)]
                p = v if p is None else sym.mul(p, v)
            acc = sym.add(acc, p)
        out[oc] = acc
    return unwrap0(wrap(out))


@fn('tensordot')
def f_tensordot(a, b, axes=2):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.tensordot(_deepnative(a), _deepnative(b), axes))
    A, B = toobj(a), toobj(b)
    if isinstance(axes, (int, np.integer)):
        aa = list(range(A.ndim - axes, A.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        bb = [bb] if isinstance(bb, (int, np.integer)) else list(bb)
        aa = [x % A.ndim for x in aa]
        bb = [x % B.ndim for x in bb]
    ka = [i for i in range(A.ndim) if i not in aa]
    kb = [i for i in range(B.ndim) if i not in bb]
    n = int(np.prod([A.shape[i] for i in aa])) if aa else 1
    A2 = A.transpose(ka + aa).reshape(-1, n)
    B2 = B.transpose(bb + kb).reshape(n, -1)
    r = s_matmul(A2, B2).reshape([A.shape[i] for i in ka] + [B.shape[i] for i in kb])
    return unwrap0(wrap(r))


@fn('cross')
def f_cross(a, b, axis=-1, **k):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.cross(_deepnative(a), _deepnative(b), axis=axis))
    A = np.moveaxis(toobj(a), axis, -1)
    B = np.moveaxis(toobj(b), axis, -1)
    A, B = np.broadcast_arrays(A, B)
    if A.shape[-1] != 3:
        raise Unsupported('2-d cross')
    out = np.empty(A.shape, dtype=object)
    for c in _cells(A.shape[:-1]):
        x, y = A[c], B[c]
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            out[c + (i,)] = sym.sub(sym.mul(x[j], y[l]), sym.mul(x[l], y[j]))
    return wrap(np.moveaxis(out, -1, axis))


@fn('trapezoid', 'trapz')
def f_trapz(y, x=None, dx=1.0, axis=-1):
    if not has_sym(y) and not has_sym(x):
        return wrap(np.trapezoid(_deepnative(y), x=_deepnative(x), dx=dx, axis=axis))
    y = np.moveaxis(toobj(y), axis, -1)
    d = wrap(np.diff(toobj(x))) if x is not None else dx
    return f_sum(wrap(y)[..., 1:] * d + wrap(y)[..., :-1] * d, axis=-1) * 0.5


@fn('linalg.norm')
def f_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return wrap(np.linalg.norm(_deepnative(x), ord=ord, axis=axis, keepdims=keepdims))
    if ord not in (None, 2):
        raise Unsupported('norm ord')
    x = f_asarray(x)
    s = f_sum(mapel(lambda v: sym.mul(v, sym.conj(v)) if sym.iscomplex_(v) else sym.mul(v, v), x), axis=axis,
              keepdims=keepdims)
    return mapel(sym.sqrt, s)


@fn('median')
def f_median(a, axis=None, **k):
    if not has_sym(a):
        return wrap(np.median(_deepnative(a), axis=axis))
    s = f_sort(a, axis=-1 if axis is not None else None)
    if axis is not None and f_asarray(a).ndim > 1:
        raise Unsupported('median along an axis')
    n = s.shape[0]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


@fn('take')
def f_take(a, idx, axis=None, out=None, mode='raise'):
    a = f_asarray(a)
    if axis is None:
        return a.reshape(-1)[f_asarray(idx) if isinstance(idx, (list, tuple)) else idx]
    axis = int(axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    sl = [slice(None)] * a.ndim
    sl[axis] = f_asarray(idx) if isinstance(idx, (list, tuple)) else idx
    return a[tuple(sl)].copy() if isinstance(a[tuple(sl)], _nd) else a[tuple(sl)]


@fn('take_along_axis')
def f_take_along(a, idx, axis=-1):
    i = f_asarray(idx)
    if has_sym(i):
        raise Unsupported('take_along_axis with symbolic indices')
    return wrap(np.take_along_axis(base(f_asarray(a)), native(i).astype(int), axis))


@fn('delete')
def f_delete(a, obj, axis=None):
    b = base(f_asarray(a))
    if isinstance(obj, (Sym, list)) or isinstance(obj, _nd):
        o, s = _fix_index(obj)
        if s:
            o = _conc_index((o,))[0]
        obj = o
    return wrap(np.delete(b, obj, axis))


@fn('copy')
def f_copy(a, order='K', subok=False):
    return f_array(a)


@fn('copyto')
def f_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = f_where(where, src, dst)


@fn('place')
def f_place(arr, mask, vals):
    mask, vals = np.asarray(_deepnative(mask)).astype(bool).reshape(-1), list(toobj(vals).reshape(-1))
    if not vals and mask.any():
        raise ValueError('Cannot insert from an empty array!')
    flat = [c for c in np.ndindex(*np.shape(arr))]
    k = 0
    for c, m in zip(flat, mask):
        if m:
            arr[c] = vals[k % len(vals)]
            k += 1


@fn('put', 'putmask')
def f_put(*a, **k):
    raise Unsupported('np.put')


@fn('fill_diagonal')
def f_fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


@fn('zeros_like')
def f_zeros_like(a, dtype=None, **k):
    a = f_asarray(a)
    return f_zeros(a.shape, dtype if dtype is not None else a.dtype)


@fn('ones_like')
def f_ones_like(a, dtype=None, **k):
    a = f_asarray(a)
    return f_ones(a.shape, dtype if dtype is not None else a.dtype)


@fn('empty_like')
def f_empty_like(a, dtype=None, **k):
    return f_zeros_like(a, dtype)


@fn('full_like')
def f_full_like(a, v, dtype=None, **k):
    a = f_asarray(a)
    return f_full(a.shape, v, dtype if dtype is not None else a.dtype)


@fn('isscalar')
def f_isscalar(a):
    return isinstance(a, Sym) or np.isscalar(a)


@fn('iscomplexobj')
def f_iscomplexobj(a):
    return f_asarray(a).dtype.kind == 'c'


@fn('isrealobj')
def f_isrealobj(a):
    return f_asarray(a).dtype.kind != 'c'


@fn('real')
def f_real(a):
    return mapel(sym.cre, a) if has_sym(a) else wrap(np.real(_deepnative(a)))


@fn('imag')
def f_imag(a):
    return mapel(sym.cim, a) if has_sym(a) else wrap(np.imag(_deepnative(a)))


@fn('reshape')
def f_reshape(a, shape=None, order='C', newshape=None, copy=None):
    a = f_asarray(a)
    shape = shape if shape is not None else newshape
    r = np.ndarray.reshape(base(a), tuple(int(x) for x in shape) if isinstance(shape, (tuple, list, _nd)) else int(shape))
    return wrap(r, a._k)


@fn('linalg.inv')
def f_inv(a):
    if not has_sym(a):
        return wrap(np.linalg.inv(_deepnative(a)))
    raise Unsupported('symbolic matrix inverse')


# -- fft ---------------------------------------------------------------------------------

def _root(n, k):
    """exp(2 pi i k / n), exact where it is rational"""
    k %= n
    tab = {(1, 0): (1, 0), (2, 0): (1, 0), (2, 1): (-1, 0), (4, 0): (1, 0), (4, 1): (0, 1), (4, 2): (-1, 0),
           (4, 3): (0, -1)}
    from math import gcd
    g = gcd(n, k) if k else n
    key = (n // g, k // g)
    if key in tab:
        return tuple(float(v) for v in tab[key])
    w = np.exp(2j * np.pi * k / n)
    return float(w.real), float(w.imag)


def _dft1(vals, sign, n):
    out = []
    for k in range(n):
        re, im = 0.0, 0.0
        for j, v in enumerate(vals):
            c, s = _root(n, j * k)
            s = s * sign
            vr, vi = sym.cre(v), sym.cim(v)
            re = sym.add(re, sym.sub(sym.mul(vr, c), sym.mul(vi, s)))
            im = sym.add(im, sym.add(sym.mul(vr, s), sym.mul(vi, c)))
        out.append((re, im))
    return out


def _dft(a, axes, inverse, norm=None, ns=None):
    b = toobj(a)
    if axes is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axes, (int, np.integer)):
        axes = (axes,)
    axes = tuple(int(x) for x in axes)
    for ax in axes:
        t = np.moveaxis(b, ax, -1)
        n = t.shape[-1]
        out = np.empty(t.shape, dtype=object)
        if n == 0:
            raise ValueError('Invalid number of FFT data points (0) specified.')
        if norm in (None, 'backward'):
            sc = 1.0 / n if inverse else 1.0
        elif norm == 'forward':
            sc = 1.0 if inverse else 1.0 / n
        else:
            sc = 1.0 / np.sqrt(n)
        for c in _cells(t.shape[:-1]):
            for k, (re, im) in enumerate(_dft1(list(t[c]), 1 if inverse else -1, n)):
                out[c + (k,)] = SymComplex(sym.mul(re, sc), sym.mul(im, sc))
        b = np.moveaxis(out, -1, ax)
    return wrap(b)


def _fftfn(name, inverse, nd):
    real = getattr(np.fft, name)

    def g(a, *args, **kw):
        if not has_sym(a):
            return wrap(real(_deepnative(a), *[_deepnative(x) for x in args], **{k: _deepnative(v) for k, v in kw.items()}))
        n = args[0] if args else kw.get('s', kw.get('n'))
        ax = args[1] if len(args) > 1 else kw.get('axes', kw.get('axis', None if nd else -1))
        norm = args[2] if len(args) > 2 else kw.get('norm')
        if n is not None:
            raise Unsupported('fft with explicit length')
        if nd == 2 and ax is None:
            ax = (-2, -1)
        if isinstance(ax, _nd):
            ax = tuple(int(x) for x in ax)
        return _dft(a, ax, inverse, norm)
    FN['fft.' + name] = g


for _n, _i, _d in (('fft', False, 0), ('ifft', True, 0), ('fftn', False, 1), ('ifftn', True, 1), ('fft2', False, 2),
                   ('ifft2', True, 2)):
    _fftfn(_n, _i, _d)


@fn('fft.fftfreq')
def f_fftfreq(n, d=1.0, **kw):
    n = int(n)
    idx = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    return mk([sym.div(np.float64(i), sym.mul(np.float64(n), _sc(d))) for i in idx], (n,), 'f')


@fn('fft.rfftfreq')
def f_rfftfreq(n, d=1.0, **kw):
    n = int(n)
    return mk([sym.div(np.float64(i), sym.mul(np.float64(n), _sc(d))) for i in range(n // 2 + 1)], (n // 2 + 1,), 'f')


def _sc(x):
    if isinstance(x, _nd):
        return toobj(x).reshape(-1)[0]
    return boxed(x)


# -- creation -------------------------------------------------------------------------------

def _dtkind(dt):
    dt = getattr(dt, '_vsx_base', dt)
    return kind(dt)


def _ishape(shape):
    if isinstance(shape, (int, np.integer, Sym)):
        return (int(shape),)
    return tuple(int(x) for x in shape)


def f_full(shape, val, dtype=None, **k):
    shape = _ishape(shape)
    sdt = struct.names_of(dtype)
    if sdt is not None:
        return struct.full(shape, val, sdt)
    kk = _dtkind(dtype) if dtype is not None else None
    dtype = getattr(dtype, '_vsx_base', dtype)
    if kk is not None and kk not in DT:
        return np.full(shape, val, dtype=dtype).view(SArr)
    n = int(np.prod(shape)) if shape else 1
    if n > BIG and not has_sym(val):
        return np.full(shape, val, dtype=dtype).view(SArr)
    if isinstance(val, (_nd, list)):
        r = np.empty(shape, dtype=object)
        r[...] = toobj(val)
        return wrap(r)
    if kk:
        val = cast(val, kk)
    r = mk([val] * n, shape)
    r._k = kk if kk in ('i', 'b') else ('i' if kk is None and isinstance(val, (int, np.integer)) and not isinstance(val, (bool, np.bool_)) else None)
    if kk in ('f', 'c') :
        r._k = kk
    return r


def f_zeros(shape, dtype=float, order='C', **k):
    if struct.names_of(dtype) is not None:
        return struct.empty(shape, struct.names_of(dtype))
    return f_full(shape, False if _dtkind(dtype) == 'b' else 0, float if dtype is None else dtype)


def f_ones(shape, dtype=None, order='C', **k):
    return f_full(shape, 1, float if dtype is None else dtype)


def f_empty(shape, dtype=float, order='C', **k):
    if struct.names_of(dtype) is not None:
        return struct.empty(shape, struct.names_of(dtype))
    k = _dtkind(dtype)
    if k == 'O':
        return wrap(np.empty(_ishape(shape), dtype=object))
    return f_zeros(shape, dtype)


def f_array(obj, dtype=None, copy=True, ndmin=0, order='K', subok=False, **kw):
    sdt = struct.names_of(dtype)
    if sdt is not None or struct.involved(obj) or (isinstance(obj, _nd) and tdtype(obj).names):
        return struct.array(obj, sdt)
    dtk = _dtkind(dtype) if dtype is not None else None
    dtype = getattr(dtype, '_vsx_base', dtype)
    if isinstance(obj, (range, types.GeneratorType, map, zip)):
        obj = list(obj) if isinstance(obj, range) else obj
    if has_sym(obj) or _has_objarr(obj):
        k = getattr(obj, '_k', None)
        b = toobj(obj)
        r = b.copy()
        if dtk:
            r = _castarr(r, dtk)
            k = dtk if dtk in ('i', 'b') else None
        elif k is None and not has_sym(r):
            ki = infer_kind(r)
            k = 'i' if ki == 'i' else None
            if ki == 'f' and not isinstance(obj, SArr):
                r = _castarr(r, 'f')
        elif k is None and infer_kind(r) == 'f':
            r = _castarr(r, 'f')
        if r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return wrap(r, k)
    r = np.array(_deepnative(obj) if isinstance(obj, (list, tuple, _nd)) else obj, dtype=dtype, ndmin=ndmin)
    if r.dtype.kind in 'bifc' and r.size <= BIG and r.dtype.itemsize >= 1:
        o = mk([boxed(v) for v in r.astype(object).reshape(-1)], r.shape)
        o._k = {'b': 'b', 'i': 'i', 'f': 'f', 'c': 'c'}[r.dtype.kind]
        return o
    return r.view(SArr)


def f_asarray(obj, dtype=None, order=None, copy=None, **k):
    if isinstance(obj, struct.SStruct) and dtype is None:
        return obj
    if isinstance(obj, _nd):
        if dtype is not None and _dtkind(dtype) != kind(obj.dtype):
            return (obj if isinstance(obj, SArr) else obj.view(SArr)).astype(dtype)
        return obj if isinstance(obj, SArr) else obj.view(SArr)
    return f_array(obj, dtype=dtype)


def f_arange(*a, dtype=None, **k):
    a = [int(x) if isinstance(x, SymInt) else x for x in a]
    if has_sym(a):
        raise Unsupported('arange with symbolic real arguments')
    r = np.arange(*[_scal(x) for x in a], dtype=getattr(dtype, '_vsx_base', dtype), **k)
    return f_array(r)


def _scal(x):
    if isinstance(x, _nd):
        return native(x).reshape(-1)[0] if x.size == 1 else native(x)
    return x


def f_eye(*a, dtype=None, **k):
    return f_array(np.eye(*[int(x) for x in a]))


def f_vectorize(f, *a, **k):
    def g(*args):
        return unwrap0(wrap(elementwise(f, *args)))
    return g


def f_apply_along_axis(f, axis, arr, *args, **kw):
    t = np.moveaxis(toobj(arr), axis, -1)
    res = {}
    for c in _cells(t.shape[:-1]):
        res[c] = toobj(f(wrap(t[c].copy()), *args, **kw))
    s = next(iter(res.values())).shape
    out = np.empty(t.shape[:-1] + s, dtype=object)
    for c, v in res.items():
        out[c] = v if s else v[()]
    return wrap(np.moveaxis(out, -1, axis) if s else out)


CREATE = {'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray, 'ascontiguousarray': f_asarray,
          'asfarray': lambda a, **k: f_asarray(a).astype(float),
          'zeros': f_zeros, 'ones': f_ones, 'empty': f_empty, 'full': f_full, 'arange': f_arange, 'eye': f_eye,
          'identity': f_eye, 'linspace': f_linspace, 'logspace': f_logspace, 'vectorize': f_vectorize,
          'apply_along_axis': f_apply_along_axis, 'isscalar': f_isscalar, 'einsum': f_einsum}


class _Sub:
    """np.linalg, np.fft, np.random proxies"""

    def __init__(self, mod, over=None):
        self._m = mod
        self._o = over or {}

    def __getattr__(self, n):
        if n in self._o:
            return self._o[n]
        return _wrapfn(getattr(self._m, n))


_wf = {}


def _wrapfn(f):
    if isinstance(f, np.ufunc):
        return _UFProxy(f)
    if isinstance(f, (types.FunctionType, types.BuiltinFunctionType)) or type(f).__name__ in ('_ArrayFunctionDispatcher', 'array_function_dispatch'):
        def g(*a, **k):
            return handle_function(f, tuple(getattr(x, '_vsx_base', x) if isinstance(x, type) else x for x in a), k)
        g.__name__ = getattr(f, '__name__', '?')
        return g
    return f


class _UFProxy:
    def __init__(self, u):
        self._u = u

    def __getattr__(self, n):
        if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            def g(*a, **k):
                a = [f_asarray(x) if isinstance(x, (list, tuple)) and n != 'at' else x for x in a]
                if n == 'reduce' and len(a) > 1:
                    k['axis'] = a[1]
                    a = a[:1]
                return handle_ufunc(self._u, n, tuple(a), dict(k))
            return g
        return getattr(self._u, n)

    def __call__(self, *a, **k):
        n = self._u.nin
        a = list(a)
        if len(a) > n:
            k['out'] = tuple(a[n:])
            a = a[:n]
        a = [f_asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
        if k.get('out', 0) is None:
            k.pop('out')
        return handle_ufunc(self._u, '__call__', tuple(a), dict(k))


class NP(types.ModuleType):
    """What `import numpy as np` gives inside the code under test."""

    def __init__(self, rng_factory=None):
        super().__init__('numpy')
        self.__dict__['_rngf'] = rng_factory
        self.__dict__['linalg'] = _Sub(np.linalg)
        self.__dict__['fft'] = _Sub(np.fft)
        self.__dict__['ndarray'] = np.ndarray
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n in CREATE:
            return CREATE[n]
        v = getattr(np, n)
        w = _wrapfn(v)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ == '_ArrayFunctionDispatcher' or isinstance(v, np.ufunc):
            self.__dict__[n] = w
        if n in ('float64', 'float32', 'double'):
            w = _SymType(v, lambda x: sym.cast(x, 'f'))
        if n in ('int64', 'int32', 'intp'):
            w = _SymType(v, lambda x: sym.cast(x, 'i'))
        return w


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._vsx_base) or isinstance(o, SymReal if cls._vsx_base in (np.float64, np.float32) else SymInt)

    def __eq__(cls, o):
        return o is cls or o is cls._vsx_base

    def __hash__(cls):
        return hash(cls._vsx_base)


def _SymType(t, conv):
    def new(cls, x=0):
        if isinstance(x, _nd):
            return f_asarray(x).astype(t) if x.ndim else conv(x[()])
        if isinstance(x, Sym):
            return conv(x)
        return t(x)
    return _TypeMeta(t.__name__, (), {'_vsx_base': t, '__new__': new})


from . import struct  # noqa: E402
