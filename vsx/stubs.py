"""Stand-ins for the environment of the code under test.

In symbolic mode h5py is an in-memory store (so datasets can hold symbols), the
numpy file functions likewise, scipy's interpolators and convolution are modelled
from their documentation, and random generators return arbitrary values of their
documented range.  In concrete mode (replay and trace validation) everything is real
except random draws, which are read back from the solver's assignment.
"""
import builtins
import io
import os
import sys
import types
import pathlib

import numpy as np

from . import sym, snp, struct, text
from .sym import Sym, Unsupported


class InputExhausted(Exception):
    pass


class Env:
    def __init__(self, symbolic, pkgdir=None):
        self.symbolic = symbolic
        self.pkgdir = pkgdir
        self.printed = []
        self.answers = []
        self.rng_factory = None      # called for np.random.default_rng(...)
        self.random_used = []
        self.overrides = {}          # module name -> replacement
        self.npstore = {}
        self.h5 = FakeH5() if symbolic else None
        self._np = None
        self._scipy = {}
        self.scratch = os.path.dirname(pkgdir) if pkgdir else None
        self.engine = None
        self.escapes, self.commands, self.tables = [], [], {}
        self.confined = text.Confined(self)
        self.runners = {}            # shell command -> function of its words

    def reset(self):
        self.runners = {}
        self.escapes, self.commands, self.tables = [], [], {}
        text.reset()
        self.printed = []
        self.answers = []
        self.rng_factory = None
        self.random_used = []
        self.npstore.clear()
        if self.h5:
            self.h5._files.clear()

    # builtins
    def print(self, *a, **k):
        try:
            self.printed.append(' '.join(str(x) for x in a))
        except Exception:
            self.printed.append('?')

    def input(self, prompt=''):
        self.printed.append(str(prompt))
        if not self.answers:
            raise InputExhausted('the program asked for more input than given: %s' % prompt)
        return self.answers.pop(0)

    def open(self, path, *a, **k):
        p = os.path.realpath(str(path))
        mode = a[0] if a else k.get('mode', 'r')
        if any(c in mode for c in 'wax+') and p.startswith(('/repo', '/verif', '/opt', '/etc', '/usr')) and '/vsx_' not in p:
            raise PermissionError('write outside the scratch area: %s' % p)
        f = builtins.open(text.plain(path), *a, **k)
        return text.TextFile(f) if text.CODES and 'b' not in mode else f

    # imports
    def import_hook(self, name, fromlist):
        top = name.split('.')[0]
        if name in self.overrides:
            return self.overrides[name if fromlist else top]
        if name == 'importlib.resources' or name == 'importlib_resources':
            m = types.ModuleType(name)
            m.files = lambda pkg, _d=self: pathlib.Path(_d.pkgdir) / str(pkg if isinstance(pkg, str) else pkg.__name__).replace('.', '/')
            if not fromlist:
                import importlib
                return importlib
            return m
        if top == 'numpy':
            if name == 'numpy.typing':
                return None
            n = self.numpy()
            if name == 'numpy' or not fromlist:
                return n
            return getattr(n, name.split('.', 1)[1].split('.')[0])
        if name in ('os', 'shutil', 'subprocess'):
            return getattr(self.confined, name)
        if name == 'os.path':
            return self.confined.path if fromlist else self.confined.os
        if top == 'h5py' and self.symbolic:
            return self.h5
        if top == 'scipy' and self.symbolic:
            return self.scipy(name, fromlist)
        if top in ('requests',) or name == 'urllib.request':
            m = types.ModuleType(name)

            def blocked(*a, **k):
                raise OSError('network access is not available')
            m.get = m.post = m.urlretrieve = m.urlopen = blocked
            return m
        return None

    def numpy(self):
        if self._np is None:
            self._np = snp.NP() if self.symbolic else types.ModuleType('numpy')
            n = self._np
            r = RandomModule(self)
            if self.symbolic:
                n.__dict__['random'] = r
                n.__dict__['save'] = self.np_save
                n.__dict__['load'] = self.np_load
                n.__dict__['savez'] = self.np_savez
                n.__dict__['savez_compressed'] = self.np_savez
                n.__dict__['loadtxt'] = n.__dict__['genfromtxt'] = self.np_loadtxt
                n.__dict__['fromfile'] = self.np_fromfile
            else:
                n.__dict__.update(np.__dict__)
                n.__dict__['random'] = r
        return self._np

    def np_save(self, file, arr, **k):
        file = str(file)
        if not file.endswith('.npy'):
            file += '.npy'
        if isinstance(arr, dict):
            box = np.empty((), dtype=object)
            box[()] = dict(arr)
            arr = box
        self.npstore[os.path.realpath(file)] = arr if tuple(np.shape(arr)) == () and isinstance(arr, np.ndarray) else _deepcopy(arr)
        with builtins.open(file, 'wb'):
            pass

    def np_savez(self, file, *args, **kw):
        file = str(file)
        if not file.endswith('.npz'):
            file += '.npz'
        d = {'arr_%d' % i: a for i, a in enumerate(args)}
        d.update(kw)
        self.npstore[os.path.realpath(file)] = NpzStub({k: snp.f_array(v) for k, v in d.items()})
        with builtins.open(file, 'wb'):
            pass

    def np_load(self, file, *a, **k):
        p = os.path.realpath(str(file))
        if p in self.npstore and os.path.exists(p):
            v = self.npstore[p]
            if isinstance(v, np.ndarray) and v.shape == () and type(v) is np.ndarray and isinstance(v[()], dict):
                return snp_box(v)
            return NpzStub({a: snp.f_array(b) for a, b in v.items()}) if isinstance(v, NpzStub) else _deepcopy(v)
        return snp.wrap(np.load(file, *a, **k))

    # raw catalogs: a table is ('text', [columns]) or ('binary', native dtype, {field: column})
    def np_loadtxt(self, file, dtype=float, comments='#', ndmin=0, **k):
        t = self.tables.get(os.path.realpath(str(file)))
        if t is None:
            return snp.wrap(np.loadtxt(file, dtype=dtype, comments=comments, ndmin=ndmin, **k))
        dt = struct.names_of(dtype)
        if t[0] != 'text' or k or dt is None or comments != '#':
            raise Unsupported('loadtxt')
        if len(t[1]) != len(dt.names):
            raise ValueError('the dtype passed requires %d columns but %d were found' % (len(dt.names), len(t[1])))
        r = struct.empty((len(t[1][0]),), dt)
        for n, c in zip(dt.names, t[1]):
            r[n][...] = c
        return r.reshape(()) if len(t[1][0]) == 1 and ndmin == 0 else r

    def np_fromfile(self, file, dtype=float, **k):
        t = self.tables.get(os.path.realpath(str(file)))
        if t is None:
            return snp.wrap(np.fromfile(file, dtype=dtype, **k))
        dt = struct.names_of(dtype)
        if t[0] != 'binary' or k or dt is None or dt.itemsize != t[1].itemsize:
            raise Unsupported('fromfile')
        n = len(next(iter(t[2].values())))
        r = struct.empty((n,), dt)
        at = {t[1].fields[f][1]: f for f in t[1].names}
        for f in dt.names:
            d, off = dt.fields[f]
            src = at.get(off)
            if src is not None and t[1].fields[src][0] == d:
                r[f][...] = t[2][src]
            elif src is not None and d.shape == () and t[1].fields[src][0].itemsize == d.itemsize and d.kind in 'iuf':
                # other bytes than were written: any number
                for i in range(n):
                    r[f][i] = sym.cast(self.engine().real('bytes:%s:%d' % (f, i), -1e9, 1e9), snp.kind(d)) if self.engine else 0
            else:
                raise Unsupported('fromfile: field %s' % f)
        return r

    def scipy(self, name, fromlist):
        import importlib
        m = importlib.import_module(name)
        if name in self._scipy and fromlist:
            return self._scipy[name]
        if not fromlist or name == 'scipy':
            t = self._scipy.get('scipy')
            if t is None:
                t = self._scipy['scipy'] = types.ModuleType('scipy')
                real = sys.modules['scipy']

                def get(k):
                    v = getattr(real, k)
                    return self.scipy('scipy.' + k, (k,)) if isinstance(v, types.ModuleType) else v
                t.__getattr__ = get
                t.__path__ = []
            return t
        p = types.ModuleType(name)
        p.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith('__')})
        if name == 'scipy.signal':
            p.fftconvolve = s_fftconvolve
            p.convolve = s_convolve
        elif name == 'scipy.interpolate':
            p.interp1d = SInterp1d
            p.RegularGridInterpolator = SRegular
            p.RectBivariateSpline = SRectBi
        elif name == 'scipy.special':
            for f in ('erf', 'erfc', 'gamma', 'gammaincc', 'gammainc', 'expi', 'erfinv'):
                p.__dict__[f] = special_fn(f, getattr(m, f))
        elif name == 'scipy.stats':
            pass
        self._scipy[name] = p
        return p


def snp_box(v):
    r = np.empty((), dtype=object)
    r[()] = dict(v[()])
    return r


def _deepcopy(v):
    if isinstance(v, (np.ndarray, struct.SStruct)):
        return snp.f_array(v)
    if isinstance(v, (list, tuple)):
        return snp.f_array(v)
    return v


class NpzStub(dict):
    @property
    def files(self):
        return list(self.keys())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- random ------------------------------------------------------------------------------

class RandomModule(types.ModuleType):
    """numpy.random: default_rng comes from the harness, the legacy global functions are recorded"""

    def __init__(self, env):
        super().__init__('numpy.random')
        self.__dict__['_env'] = env

    def default_rng(self, *a, **k):
        if a and hasattr(a[0], '_vsx_rng'):
            return a[0]
        self._env.random_used.append(('default_rng', a))
        if self._env.rng_factory is None:
            return LateRNG(self._env, a, k)
        return self._env.rng_factory(*a)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        env = self.__dict__['_env']
        if n in ('Generator', 'RandomState', 'BitGenerator', 'SeedSequence', 'PCG64'):
            return getattr(np.random, n)
        if n == 'seed':
            return lambda *a, **k: env.random_used.append(('seed', a))

        def legacy(*a, **k):
            env.random_used.append((n, a))
            g = env.rng_factory('legacy') if env.rng_factory else None
            if g is None:
                if env.symbolic:
                    raise Unsupported('harness gave no random generator')
                return getattr(np.random, n)(*a, **k)
            if n in ('rand', 'random_sample', 'ranf'):
                return g.random(a if n == 'rand' else (a[0] if a else k.get('size')))
            if n == 'randn':
                return g.standard_normal(a)
            if n == 'randint':
                return g.integers(*a, **k)
            return getattr(g, n)(*a, **k)
        return legacy


class LateRNG:
    """a generator made before the harness said what random draws are (default arguments)"""
    _vsx_rng = True

    def __init__(self, env, a, k):
        self.__dict__.update(_env=env, _a=a, _k=k, _g=None)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if self._g is None:
            if self._env.rng_factory is not None:
                self.__dict__['_g'] = self._env.rng_factory(*self._a)
            elif self._env.symbolic:
                raise Unsupported('harness gave no random generator')
            else:
                self.__dict__['_g'] = np.random.default_rng(*self._a, **self._k)
        return getattr(self._g, n)


class ScriptRNG:
    """A generator whose draws are symbols (symbolic mode) or values read from the assignment."""
    _vsx_rng = True
    bit_generator = None

    def __init__(self, ctx, tag, bound=4.0):
        self.ctx, self.tag, self.n, self.bound = ctx, tag, 0, bound
        self.log = []

    def _draw(self, size, lo, hi, strict_hi=False, integer=False):
        shape = () if size is None else (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)
        out = np.empty(shape, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.size):
            name = '%s#%d' % (self.tag, self.n)
            self.n += 1
            if integer:
                v = self.ctx.int(name, lo, hi)
            else:
                v = self.ctx.real(name, lo, hi)
                if strict_hi:
                    self.ctx.assume(v < hi)
            flat[i] = v
        out = flat.reshape(shape)
        if shape == ():
            return out[()]
        return self.ctx.pack(out)

    def standard_normal(self, size=None, *a, **k):
        self.log.append('standard_normal')
        return self._draw(size, -self.bound, self.bound)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.log.append('normal')
        if size is None:
            s = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = s if s != () else None
        return loc + scale * self._draw(size, -self.bound, self.bound)

    def random(self, size=None, *a, **k):
        self.log.append('random')
        return self._draw(size, 0.0, 1.0, strict_hi=True)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append('uniform')
        if size is None:
            s = np.broadcast_shapes(np.shape(low), np.shape(high))
            size = s if s != () else None
        return low + (high - low) * self._draw(size, 0.0, 1.0, strict_hi=True)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        self.log.append('integers')
        if high is None:
            low, high = 0, low
        return self._draw(size, int(low), int(high) if endpoint else int(high) - 1, integer=True)

    def choice(self, a, size=None, replace=True, p=None, **k):
        self.log.append('choice')
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        if p is not None:
            raise Unsupported('choice with probabilities')
        if not replace:
            cnt = int(np.prod(size)) if size is not None else 1
            perm = self.permutation(n)[:cnt]
            idx = perm if size is not None else perm[0]
        else:
            idx = self._draw(size, 0, n - 1, integer=True)
        return idx if isinstance(a, (int, np.integer)) else a[idx]

    def permutation(self, x):
        self.log.append('permutation')
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        rest = list(range(n))
        out = []
        while rest:
            name = '%s#%d' % (self.tag, self.n)
            self.n += 1
            k = int(self.ctx.int(name, 0, len(rest) - 1))
            out.append(rest.pop(k))
        out = np.array(out, dtype=int)
        if isinstance(x, (int, np.integer)):
            return self.ctx.pack(out)
        return x[out]

    def shuffle(self, x, axis=0):
        p = self.permutation(len(x))
        x[:] = x[p].copy() if hasattr(x, 'copy') else [x[i] for i in p]

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        raise Unsupported('lognormal draws')


# -- h5py ------------------------------------------------------------------------------------

class Attrs(dict):
    def create(self, k, v, **kw):
        self[k] = v

    def modify(self, k, v):
        self[k] = v

    def __setitem__(self, k, v):
        if isinstance(v, (np.ndarray, struct.SStruct, struct.SRec)):
            v = snp.f_array(v)
        elif isinstance(v, (list, tuple)):
            v = snp.f_array(v)
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        try:
            v = dict.__getitem__(self, k)
            return snp.f_array(v) if isinstance(v, (np.ndarray, struct.SStruct)) else snp.boxed(v)
        except KeyError:
            raise KeyError("Can't open attribute (can't locate attribute: '%s')" % k)


class Dataset:
    def __init__(self, arr, file, name):
        self._a, self._f, self.name = arr, file, name
        self.attrs = Attrs()
        self._valid = True
        self._resizable, self._chunks = False, None

    def _chk(self):
        if not self._f[0].open:
            raise ValueError('Not a dataset (closed file)')

    @property
    def shape(self):
        return self._a.shape

    @property
    def size(self):
        return self._a.size

    @property
    def ndim(self):
        return self._a.ndim

    @property
    def dtype(self):
        return self._a.dtype

    def __len__(self):
        return self._a.shape[0]

    def __getitem__(self, i):
        self._chk()
        if isinstance(i, np.ndarray) and i.ndim == 1 and i.size == 0 and i.dtype.kind != 'b':
            return self._a[np.array([], dtype=int)]
        if isinstance(i, tuple) and i == () and self._a.ndim == 0:
            return snp.boxed(self._a[()]) if not isinstance(self._a, struct.SStruct) else self._a[()]
        r = self._a[i]
        return snp.f_array(r) if isinstance(r, (np.ndarray, struct.SStruct)) else r

    def __setitem__(self, i, v):
        self._chk()
        self._f[0].need_write()
        self._a[i] = v

    def __array__(self, *a, **k):
        return self._a

    def __iter__(self):
        return iter(self._a)

    def resize(self, size, axis=None):
        self._chk()
        self._f[0].need_write()
        if not self._resizable:
            raise TypeError('Only chunked datasets can be resized')
        if axis is not None:
            s = list(self.shape)
            s[axis] = int(size)
        else:
            s = [int(size)] if not isinstance(size, (tuple, list)) else [int(x) for x in size]
        old = self._a
        new = snp.f_zeros(tuple(s), old.dtype)
        sl = tuple(slice(0, min(x, y)) for x, y in zip(s, old.shape))
        new[sl] = old[sl]
        if not isinstance(old, struct.SStruct):
            new._k = old._k
        self._a = new

    @property
    def chunks(self):
        return self._chunks

    def astype(self, d):
        return self._a.astype(d)

    def read_direct(self, *a, **k):
        raise Unsupported('read_direct')


class Group:
    def __init__(self, file, name='/'):
        self._d, self._f, self.name = {}, file, name
        self.attrs = Attrs()

    def _chk(self):
        if not self._f[0].open:
            raise ValueError('Invalid location identifier (closed file)')

    def keys(self):
        self._chk()
        return sorted(self._d.keys())

    def values(self):
        return [self._d[k] for k in self.keys()]

    def items(self):
        return [(k, self._d[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def __getitem__(self, k):
        self._chk()
        cur = self
        for p in str(k).strip('/').split('/'):
            if not p:
                continue
            if not isinstance(cur, Group) or p not in cur._d:
                raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % k)
            cur = cur._d[p]
        return cur

    def get(self, k, default=None):
        return self[k] if k in self else default

    def _parent(self, k, make):
        parts = str(k).strip('/').split('/')
        cur = self
        for p in parts[:-1]:
            if p not in cur._d:
                if not make:
                    raise KeyError(k)
                cur._d[p] = Group(self._f, cur.name.rstrip('/') + '/' + p)
            cur = cur._d[p]
        return cur, parts[-1]

    def create_group(self, k, **kw):
        self._chk()
        self._f[0].need_write()
        g, n = self._parent(k, True)
        if n in g._d:
            raise ValueError('Unable to synchronously create group (name already exists)')
        g._d[n] = Group(self._f, g.name.rstrip('/') + '/' + n)
        return g._d[n]

    def require_group(self, k):
        return self[k] if k in self else self.create_group(k)

    def create_dataset(self, k, shape=None, dtype=None, data=None, **kw):
        self._chk()
        self._f[0].need_write()
        g, n = self._parent(k, True)
        if n in g._d:
            raise ValueError('Unable to synchronously create dataset (name already exists)')
        if data is None:
            arr = snp.f_zeros(shape if shape is not None else (), dtype or float)
        else:
            if isinstance(data, Dataset):
                data = data._a
            arr = snp.f_array(data)
            if shape is not None:
                arr = arr.reshape(shape)
            if dtype is not None:
                kk = snp._dtkind(dtype)
                if kk in ('i', 'b', 'f', 'c'):
                    arr = arr.astype(kk if kk != 'b' else bool) if False else snp.wrap(snp._castarr(snp.toobj(arr), kk), kk)
        d = Dataset(arr, self._f, g.name.rstrip('/') + '/' + n)
        ch, mx = kw.pop('chunks', None), kw.pop('maxshape', None)
        if mx is not None and not isinstance(mx, tuple):
            mx = (mx,)
        if isinstance(ch, int) and not isinstance(ch, bool):
            ch = (ch,)
        if ch is not None and ch is not True and ch is not False:
            if any(int(c) < 1 for c in ch):
                raise ValueError('Chunk sizes must be positive')
            if len(ch) != arr.ndim or (mx is None and any(c > s for c, s in zip(ch, arr.shape))):
                raise ValueError('Chunk shape must not be greater than data shape in any dimension.')
        if ch or mx is not None:
            d._resizable, d._chunks = True, tuple(ch) if isinstance(ch, tuple) else tuple(max(1, x) for x in arr.shape)
        if set(kw) - {'compression', 'compression_opts', 'fillvalue', 'track_times', 'track_order'}:
            raise Unsupported('create_dataset options %s' % sorted(kw))
        g._d[n] = d
        return d

    def require_dataset(self, k, *a, **kw):
        return self[k] if k in self else self.create_dataset(k, *a, **kw)

    def __setitem__(self, k, v):
        if isinstance(v, (Dataset, Group)):     # a hard link
            self._chk()
            self._f[0].need_write()
            g, n = self._parent(k, True)
            if n in g._d:
                raise OSError('Unable to create link (name already exists)')
            g._d[n] = v
            return
        self.create_dataset(k, data=v)

    def __delitem__(self, k):
        self._chk()
        self._f[0].need_write()
        g, n = self._parent(k, False)
        if n not in g._d:
            raise KeyError("Couldn't delete link (object '%s' doesn't exist)" % k)
        del g._d[n]

    def copy(self, src, dst, **kw):
        raise Unsupported('h5 copy')

    def move(self, a, b):
        g, n = self._parent(a, False)
        o = g._d.pop(n)
        g, n = self._parent(b, True)
        g._d[n] = o

    def visit(self, f):
        for k, v in self.items():
            f(k)


class _State:
    def __init__(self, mode):
        self.open, self.mode = True, mode

    def need_write(self):
        if self.mode == 'r':
            raise OSError('Unable to write (no write intent on file)')


class FakeH5(types.ModuleType):
    def __init__(self):
        super().__init__('h5py')
        self._files = {}
        self.Dataset, self.Group = Dataset, Group
        store = self._files

        class File(Group):
            def __init__(f, path, mode='r', **kw):
                p = os.path.realpath(str(path))
                exists = os.path.exists(p) and p in store
                if mode in ('r', 'r+'):
                    if not exists:
                        raise FileNotFoundError("[Errno 2] Unable to synchronously open file (unable to open file: name = '%s')" % path)
                elif mode in ('w-', 'x') and os.path.exists(p):
                    raise FileExistsError('Unable to synchronously create file (unable to open file: file exists)')
                if mode in ('w', 'w-', 'x') or (mode == 'a' and not exists):
                    if not os.path.isdir(os.path.dirname(p)):
                        raise FileNotFoundError('Unable to synchronously create file: %s' % path)
                    if exists and store[p][1][1:] and store[p][1][1]:
                        raise OSError('Unable to synchronously create file (unable to truncate a file which is already open)')
                    with builtins.open(p, 'wb'):
                        pass
                    cell = [None]
                    store[p] = (Group(cell), cell)
                root, cell = store[p]
                # handles opened while the file is already open share its access mode
                if len(cell) == 1:
                    cell.append([])
                live = f._live = cell[1]
                st = _State('r' if mode == 'r' else 'w')
                if live:
                    if st.mode == 'w' and live[0].mode == 'r':
                        raise OSError('Unable to synchronously open file (file is already open for read-only)')
                    st.mode = live[0].mode
                live.append(st)
                cell[0] = st
                f._d, f._f, f.name, f.attrs = root._d, cell, '/', root.attrs
                f.filename = str(path)
                f._st = cell[0]
                f.mode = 'r' if mode == 'r' else 'r+'

            def close(f):
                f._st.open = False
                if f._st in f._live:
                    f._live.remove(f._st)
                if f._live:
                    f._f[0] = f._live[-1]

            def flush(f):
                pass

            def __del__(f):
                if '_live' in f.__dict__:
                    f.close()

            def __enter__(f):
                return f

            def __exit__(f, *a):
                f.close()
                return False

            def __bool__(f):
                return f._st.open
        self.File = File

        class version:
            version = '3.0'
        self.version = version


# -- scipy ---------------------------------------------------------------------------------

def s_convolve(a, b, mode='full', method='auto', axes=None):
    return s_fftconvolve(a, b, mode, axes)


def s_fftconvolve(a, b, mode='full', axes=None):
    """Direct convolution along axes, with scipy's definition of full / same / valid."""
    A, B = snp.toobj(a), snp.toobj(b)
    if A.ndim != B.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    nd = A.ndim
    if axes is None:
        axes = tuple(range(nd))
    elif isinstance(axes, (int, np.integer)):
        axes = (int(axes) % nd,)
    else:
        axes = tuple(int(x) % nd for x in axes)
    for i in range(nd):
        if i not in axes and A.shape[i] != B.shape[i] and A.shape[i] != 1 and B.shape[i] != 1:
            raise ValueError('incompatible shapes for in1 and in2: %s and %s' % (A.shape, B.shape))
    if mode == 'valid' and not all(A.shape[i] >= B.shape[i] for i in axes):
        if all(B.shape[i] >= A.shape[i] for i in axes):
            A, B = B, A
        else:
            raise ValueError('For valid mode, one must be at least as large as the other in every dimension')
    full = [A.shape[i] + B.shape[i] - 1 if i in axes else max(A.shape[i], B.shape[i]) for i in range(nd)]
    out = np.empty(full, dtype=object)
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = 0.0
    out = flat.reshape(full)
    for ib in np.ndindex(*[B.shape[i] if i in axes else 1 for i in range(nd)]):
        for ia in np.ndindex(*A.shape):
            rng_ = [range(1) if i in axes or A.shape[i] != 1 else range(full[i]) for i in range(nd)]
            for ext in np.ndindex(*[len(r) for r in rng_]):
                pos = tuple(ia[i] + ib[i] if i in axes else (ia[i] if A.shape[i] != 1 else ext[i]) for i in range(nd))
                bi = tuple(ib[i] if i in axes else (pos[i] if B.shape[i] != 1 else 0) for i in range(nd))
                v = B[bi]
                if not isinstance(v, Sym) and v == 0:
                    continue
                out[pos] = sym.add(out[pos], sym.mul(A[ia], v))
    if mode == 'same':
        sl = []
        for i in range(nd):
            if i in axes:
                st = (full[i] - A.shape[i]) // 2
                sl.append(slice(st, st + A.shape[i]))
            else:
                sl.append(slice(0, full[i]))
        out = out[tuple(sl)]
    elif mode == 'valid':
        sl = []
        for i in range(nd):
            if i in axes:
                n = A.shape[i] - B.shape[i] + 1
                st = (full[i] - n) // 2
                sl.append(slice(st, st + n))
            else:
                sl.append(slice(0, full[i]))
        out = out[tuple(sl)]
    return snp.wrap(out)


class SInterp1d:
    """linear interp1d"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind != 'linear':
            raise Unsupported('interp1d kind %s' % kind)
        self.x, self.y = snp.f_asarray(x), snp.f_asarray(y)
        if self.y.ndim != 1:
            raise Unsupported('multi-dimensional interp1d')
        if not assume_sorted:
            o = snp.f_argsort(self.x)
            self.x, self.y = self.x[o], self.y[o]
        self._compress()
        self.fill = fill_value
        self.bounds_error = (not isinstance(fill_value, str) and not isinstance(fill_value, tuple) and fill_value is np.nan) if bounds_error is None else bounds_error

    def _compress(self):
        """drop nodes which lie on the line through their neighbours"""
        if len(self.x) < 200 or snp.tdtype(self.x) == object or snp.tdtype(self.y) == object:
            return
        x, y = np.array(snp.base(self.x), float), np.array(snp.base(self.y), float)
        s = np.diff(y) / np.diff(x)
        keep = np.concatenate(([True], np.abs(np.diff(s)) > 1e-8 * np.abs(s).max(), [True]))
        if keep.sum() < 200:
            self.x, self.y = snp.f_array(x[keep]), snp.f_array(y[keep])

    def __call__(self, v):
        xs, ys = list(snp.toobj(self.x)), list(snp.toobj(self.y))
        n = len(xs)

        def f(q):
            if not isinstance(q, Sym) and q != q:
                return np.float64('nan')
            extr = isinstance(self.fill, str) and self.fill == 'extrapolate'
            segs = []
            for i in range(n - 1):
                sl = sym.div(sym.sub(ys[i + 1], ys[i]), sym.sub(xs[i + 1], xs[i]))
                segs.append(sym.add(ys[i], sym.mul(sl, sym.sub(q, xs[i]))))
            r = segs[-1]
            for i in range(n - 2, -1, -1):
                r = sym.ite(sym.le(q, xs[i + 1]), segs[i], r)
            if extr:
                return r
            lo, hi = self.fill if isinstance(self.fill, tuple) else (self.fill, self.fill)
            below, above = sym.lt(q, xs[0]), sym.gt(q, xs[-1])
            if self.bounds_error and (bool(below) or bool(above)):
                raise ValueError('A value in x_new is outside the interpolation range.')
            r = sym.ite(above, hi, r)
            return sym.ite(below, lo, r)
        r = snp.mapel(f, v)
        return r if isinstance(r, np.ndarray) else snp.mk([r], ())


class SRegular:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan, **k):
        if method != 'linear':
            raise Unsupported('RegularGridInterpolator method')
        self.p = [snp.f_asarray(p) for p in points]
        self.v = snp.f_asarray(values)
        self.be, self.fv = bounds_error, fill_value

    def __call__(self, xi, method=None):
        if isinstance(xi, tuple):
            cols = [snp.toobj(c) for c in xi]
            shape = np.broadcast_shapes(*[c.shape for c in cols])
            cols = [np.broadcast_to(c, shape) for c in cols]
        else:
            b = snp.toobj(xi)
            if b.ndim == 1:
                b = b[None, :]
            shape = b.shape[:-1]
            cols = [b[..., i] for i in range(b.shape[-1])]
        out = np.empty(shape, dtype=object)
        for c in np.ndindex(*shape):
            out[c] = self._one([col[c] for col in cols])
        return snp.wrap(out)

    def _one(self, q):
        inside = np.bool_(True)
        for x, g in zip(q, self.p):
            inside = sym.and_(inside, sym.and_(sym.ge(x, g[0]), sym.le(x, g[-1])))
        if self.be:
            if not bool(inside):
                raise ValueError('One of the requested xi is out of bounds')
        r = self._rec(q, snp.toobj(self.v), 0)
        if self.be or self.fv is None:
            return r
        return sym.ite(inside, r, self.fv)

    def _rec(self, q, v, d):
        if d == len(self.p):
            return v[()] if isinstance(v, np.ndarray) else v
        g = list(snp.toobj(self.p[d]))
        if not any(isinstance(k, sym.Sym) for k in g) and not isinstance(q[d], sym.Sym) and len(g) > 2 and g[0] < g[-1] and q[d] == q[d]:
            i = min(max(int(np.searchsorted(np.array(g, dtype=float), float(q[d]), 'right')) - 1, 0), len(g) - 2)
            g, v = g[i:i + 2], v[i:i + 2]
        sub = [self._rec(q, v[i], d + 1) for i in range(len(g))]
        r = None
        for i in range(len(g) - 2, -1, -1):
            w = sym.div(sym.sub(q[d], g[i]), sym.sub(g[i + 1], g[i]))
            s = sym.add(sub[i], sym.mul(w, sym.sub(sub[i + 1], sub[i])))
            r = s if r is None else sym.ite(sym.lt(q[d], g[i + 1]), s, r)
        return r


class SRectBi:
    """bilinear interpolation that continues flat outside the table"""
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        from scipy.interpolate import RectBivariateSpline
        self.o = None
        if not any(snp.has_sym(q) for q in (x, y, z)):
            self.o = RectBivariateSpline(*[snp._deepnative(q) for q in (x, y, z)], bbox=[None] * 4 if bbox is None else bbox, kx=kx, ky=ky, s=s)
        self.lin = (kx, ky, s) == (1, 1, 0) and bbox is None
        if self.lin:
            self.g = SRegular((x, y), z)
            if tuple(self.g.v.shape) != (len(self.g.p[0]), len(self.g.p[1])):
                raise ValueError('z does not match the axes')

    def ev(self, xi, yi, dx=0, dy=0):
        if self.o is not None and not (snp.has_sym(xi) or snp.has_sym(yi)):
            return snp.wrap(self.o.ev(snp._deepnative(xi), snp._deepnative(yi), dx=dx, dy=dy))
        if not self.lin or dx or dy:
            raise Unsupported('spline on symbolic arguments')
        return snp.unwrap0(snp.wrap(snp.elementwise(self._at, xi, yi)))

    def _at(self, *q):
        r = []
        for v, g in zip(q, self.g.p):
            g = snp.toobj(g)
            v = sym.ite(sym.lt(v, g[0]), g[0], v)
            r.append(sym.ite(sym.gt(v, g[-1]), g[-1], v))
        return self.g._rec(r, snp.toobj(self.g.v), 0)

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if grid and (np.ndim(x) or np.ndim(y)):
            if snp.has_sym(x) or snp.has_sym(y):
                raise Unsupported('spline on a symbolic grid')
            return snp.wrap(self.o(snp._deepnative(x), snp._deepnative(y), dx=dx, dy=dy))
        return self.ev(x, y, dx, dy)


def make_concrete_callable(cls):
    class C:
        def __init__(self, *a, **k):
            self._o = cls(*[snp._deepnative(x) for x in a], **k)

        def __call__(self, *a, **k):
            if snp.has_sym(a):
                raise Unsupported('spline on symbolic arguments')
            return snp.wrap(self._o(*[snp._deepnative(x) for x in a], **k))
        ev = __call__
    return C


def special_fn(name, f):
    def g(*a):
        if not any(snp.has_sym(x) for x in a):
            return snp.wrap(f(*[snp._deepnative(x) for x in a]))

        def g0(*v):
            return sym.ENG.uf('erf', v, mono=1) if name == 'erfc' else sym.ENG.uf('gammaincc', [x if isinstance(x, Sym) else float(x) for x in v])

        def el(*v):
            if not any(isinstance(x, Sym) for x in v):
                return f(*[float(x) for x in v])
            if name in ('erfc', 'gammainc'):
                return sym.sub(1.0, g0(*v))
            if name in ('erf', 'gamma', 'expi'):
                return sym.ENG.uf(name, v, mono={'erf': 1}.get(name))
            return sym.ENG.uf(name, [x if isinstance(x, Sym) else float(x) for x in v])
        return snp.unwrap0(snp.wrap(snp.elementwise(el, *a)))
    return g
