"""Load /repo's simim twice: once as it is, and once with symbolic stand-ins for its libraries.

A scratch copy of the package is made per process group, so nothing the code does
(resource files, caches) touches /repo.  Function bodies are compiled from the
current source; only the names bound by import statements and a few builtins
differ in the symbolic copy.
"""
import builtins
import importlib
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from . import sym, snp, stubs

REPO = os.environ.get('VSX_REPO', '/repo')


def make_scratch(setup_root=True):
    d = tempfile.mkdtemp(prefix='vsx_')
    shutil.copytree(os.path.join(REPO, 'simim'), os.path.join(d, 'pkg', 'simim'),
                    ignore=shutil.ignore_patterns('__pycache__', 'rootpath.txt', '*.so'))
    return d


class Loader:
    """A private import universe for the package."""

    def __init__(self, pkgdir, symbolic, env=None):
        self.pkgdir = pkgdir
        self.symbolic = symbolic
        self.mods = {}
        self.env = env or stubs.Env(symbolic)
        self.builtins = self._builtins()

    def _builtins(self):
        d = dict(vars(builtins))
        d['__import__'] = self._import
        d['print'] = self.env.print
        d['input'] = self.env.input
        d['open'] = self.env.open
        if self.symbolic:
            d['float'] = sym.vfloat
            d['int'] = sym.vint
            d['max'] = vmax
            d['min'] = vmin
            d['isinstance'] = v_isinstance
        return d

    # -- import machinery ------------------------------------------------------
    def _path(self, name):
        p = os.path.join(self.pkgdir, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', SyntaxWarning)
                code = compile(src, path, 'exec')
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            parts = parts[:len(parts) - (level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == 'simim' or name.startswith('simim.'):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and self._path(name + '.' + f)[0]:
                    self.load(name + '.' + f)
            return m
        r = self.env.import_hook(name, fromlist)
        if r is not None:
            return r
        m = importlib.import_module(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        importlib.import_module(name + '.' + f)
                    except ImportError:
                        pass
            return m
        return sys.modules[name.split('.')[0]]


def v_isinstance(o, c):
    return builtins.isinstance(o, c)


def vmax(*a, **k):
    return _ext(builtins.max, sym.maximum, a, k)


def vmin(*a, **k):
    return _ext(builtins.min, sym.minimum, a, k)


def _ext(real, f, a, k):
    if k:
        return real(*a, **k)
    items = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, sym.Sym) for x in items):
        return real(*items) if len(items) > 1 else real(items)
    r = items[0]
    for x in items[1:]:
        r = f(r, x)
    return r
