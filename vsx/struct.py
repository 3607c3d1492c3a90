"""Structured arrays whose fields may hold symbols.

Kept as a native structured array of object fields (so slicing, masking, record views and
concatenation are numpy's own) together with the dtype the program asked for.
"""
import numpy as np

from . import sym, snp
from .sym import Sym, Unsupported


def _objdt(dt):
    return np.dtype([(n, object, dt.fields[n][0].shape) for n in dt.names])


def names_of(dtype):
    """the structured dtype meant by an argument, or None"""
    if dtype is None or isinstance(dtype, (str, type)):
        return None
    d = getattr(dtype, '_vsx_base', dtype)
    if isinstance(d, np.dtype):
        return d if d.names else None
    if isinstance(d, list) and d and isinstance(d[0], tuple):
        d = np.dtype(d)
        return d if d.names else None
    return None


def _k(dt, name):
    return snp.kind(dt.fields[name][0].base)


class SRec:
    """one element; a view of the array it came from"""

    def __init__(self, v, dt):
        self._v, self._dt = v, dt

    @property
    def dtype(self):
        return self._dt

    def __getitem__(self, n):
        if isinstance(n, (list, tuple)):
            return tuple(self[x] for x in n)
        return snp.boxed(self._v[n])

    def __setitem__(self, n, x):
        name = n if isinstance(n, str) else self._dt.names[n]
        self._v[name] = _cast1(x, self._dt, name)

    def __iter__(self):
        return iter([self[n] for n in self._dt.names])

    def __len__(self):
        return len(self._dt.names)

    def tolist(self):
        return tuple(self[n] for n in self._dt.names)
    item = tolist


def _cast1(x, dt, name):
    k = _k(dt, name)
    if isinstance(x, np.ndarray):
        x = snp.toobj(x).reshape(-1)[0]
    return sym.cast(x, k) if k in ('b', 'i', 'f', 'c') else x


class SStruct:
    _vsx_struct = True
    __array_priority__ = 1000

    def __init__(self, b, dt):
        self._b, self._dt = b, dt

    # description
    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self._b.shape

    @property
    def ndim(self):
        return self._b.ndim

    @property
    def size(self):
        return self._b.size

    def __len__(self):
        return len(self._b)

    # access
    def __getitem__(self, i):
        if isinstance(i, str):
            r = self._b[i].view(snp.SArr)
            k = _k(self._dt, i)
            r._k = k if k in ('b', 'i', 'f', 'c') else None
            return r
        if isinstance(i, list) and i and isinstance(i[0], str):
            return SStruct(self._b[i], np.dtype([(n, self._dt.fields[n][0]) for n in i]))
        i, symbolic = snp.prep_index(i, self.shape)
        if symbolic:
            i = snp._conc_index(i if isinstance(i, tuple) else (i,))
        r = self._b[i]
        return SStruct(r, self._dt) if isinstance(r, np.ndarray) else SRec(r, self._dt)

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self[i][...] = v
            return
        i, symbolic = snp.prep_index(i, self.shape)
        if symbolic:
            i = snp._conc_index(i if isinstance(i, tuple) else (i,))
        if isinstance(v, (SRec, tuple)):
            v = tuple(v)
            v = tuple(_cast1(x, self._dt, n) for x, n in zip(v, self._dt.names))
            self._b[i] = v
        elif isinstance(v, SStruct):
            for n, m in zip(self._dt.names, v._dt.names):
                SStruct(self._b[i], self._dt)[n][...] = v[m]
        else:
            for n in self._dt.names:
                SStruct(self._b[i], self._dt)[n][...] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def copy(self, *a):
        return SStruct(self._b.copy(), self._dt)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self):
        return SStruct(self._b.flatten(), self._dt)

    def reshape(self, *s):
        return SStruct(self._b.reshape(*s), self._dt)

    def astype(self, dt):
        d = names_of(dt) or dt
        r = empty(self.shape, np.dtype(d))
        for n, m in zip(r._dt.names, self._dt.names):
            r[n][...] = self[m]
        return r

    def sort(self, order=None, **k):
        self._b[...] = f_sort(self, order=order)._b

    def tolist(self):
        return [tuple(r) for r in self]

    def item(self):
        return self[(0,) * self.ndim].tolist()

    def __eq__(self, o):
        if not isinstance(o, SStruct):
            return NotImplemented
        r = np.bool_(True)
        for n in self._dt.names:
            r = (self[n] == o[n]) if r is np.bool_(True) else snp.handle_ufunc(np.logical_and, '__call__', (r, self[n] == o[n]), {})
        return r
    __hash__ = None

    def __array_function__(self, func, types, args, kwargs):
        return dispatch(func, args, kwargs)


def empty(shape, dt):
    b = np.empty(snp._ishape(shape), dtype=_objdt(dt))
    for n in dt.names:
        k = _k(dt, n)
        z = {'b': np.bool_(False), 'i': np.int64(0), 'f': np.float64(0.0), 'c': 0j}.get(k, '')
        f = b[n].reshape(-1)
        for j in range(f.size):
            f[j] = z
        b[n] = f.reshape(b[n].shape)
    return SStruct(b, dt)


def full(shape, val, dt):
    r = empty(shape, dt)
    if not (isinstance(val, (int, float)) and val == 0):
        r[...] = val
    return r


def array(obj, dt=None, copy=True):
    if isinstance(obj, SStruct):
        r = obj.copy() if copy else obj
        return r if dt is None or dt == obj._dt else r.astype(dt)
    if isinstance(obj, SRec):
        r = empty((), obj._dt)
        r._b[()] = tuple(obj)
        return r
    if isinstance(obj, np.ndarray) and obj.dtype.names:
        r = empty(obj.shape, dt or obj.dtype)
        for n in r._dt.names:
            r[n][...] = snp.wrap(np.ascontiguousarray(obj[n]))
        return r
    if isinstance(obj, tuple):
        r = empty((), dt)
        r._b[()] = tuple(_cast1(x, dt, n) for x, n in zip(obj, dt.names))
        return r
    obj = list(obj)
    if dt is None:
        dt = obj[0]._dt
    if obj and isinstance(obj[0], SStruct):
        return SStruct(np.array([o._b for o in obj]), dt)
    r = empty((len(obj),), dt)
    for i, x in enumerate(obj):
        r[i] = x if isinstance(x, SRec) else tuple(x)
    return r


def native(a):
    """to an ordinary structured array (all fields concrete)"""
    r = np.zeros(a.shape, dtype=a._dt)
    for n in a._dt.names:
        r[n] = snp.native(a[n])
    return r


def involved(x, depth=0):
    if isinstance(x, (SStruct, SRec)):
        return True
    return depth < 2 and isinstance(x, (list, tuple)) and any(involved(y, depth + 1) for y in x)


def f_sort(a, axis=-1, kind=None, order=None, **k):
    names = [order] if isinstance(order, str) else list(order) if order else []
    names += [n for n in a._dt.names if n not in names]
    keys = [list(snp.toobj(a[n])) for n in names]

    def less(i, j):
        for q in keys:
            if bool(sym.lt(q[i], q[j])):
                return True
            if not bool(sym.eq(q[i], q[j])):
                return False
        return False
    idx = []
    for i in range(len(a)):
        j = len(idx)
        while j > 0 and less(i, idx[j - 1]):
            j -= 1
        idx.insert(j, i)
    return SStruct(a._b[np.array(idx, dtype=int)], a._dt)


def dispatch(func, args, kwargs):
    n = snp.fname(func)
    a = args[0]
    if n == 'sort':
        return f_sort(*args, **kwargs)
    if n == 'argsort':
        raise Unsupported('argsort of a structured array')
    if n in ('copy', 'array', 'asarray'):
        return array(a)
    if n in ('concatenate', 'append', 'hstack'):
        parts = list(a) if n != 'append' else [args[0], args[1]]
        dt = next(p._dt for p in parts if isinstance(p, SStruct)) if any(isinstance(p, SStruct) for p in parts) else None
        parts = [array(p, dt) if not isinstance(p, SStruct) else p for p in parts]
        for p in parts:
            if p.ndim == 0:
                raise ValueError('zero-dimensional arrays cannot be concatenated')
            if p._dt.names != parts[0]._dt.names:
                raise TypeError('invalid type promotion with structured datatypes')
        return SStruct(np.concatenate([p._b for p in parts]), parts[0]._dt)
    if n in ('shape', 'ndim', 'size'):
        return getattr(array(a, copy=False), n)
    if n in ('empty_like', 'zeros_like'):
        return empty(a.shape, a._dt)
    if n == 'flip':
        return a[::-1]
    if n == 'take':
        return a[args[1]]
    if n == 'delete':
        keep = np.ones(len(a), dtype=bool)
        keep[snp._deepnative(args[1])] = False
        return a[keep]
    if n in ('array_equal',):
        b = args[1]
        return snp.f_all(a == b) if a.shape == b.shape else np.bool_(False)
    raise Unsupported('numpy.%s of a structured array' % n)
