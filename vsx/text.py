"""Strings with symbolic characters, and file operations confined to the scratch directory.

A symbolic character is a private-use code point standing for an integer (its code, printable ASCII).
Operations which look at characters fork on whether a symbolic one is among those looked for.
"""
import builtins
import os
import posixpath
import shlex
import shutil
import types

from . import sym
from .sym import Unsupported

BASE = 0xE000
CODES = {}          # placeholder -> symbolic code
WHITE = ' \t\n\r\x0b\x0c'


def reset():
    CODES.clear()


def new(code):
    c = chr(BASE + len(CODES))
    CODES[c] = code
    return c


def holes(s):
    return any(c in CODES for c in s)


def resolve(s, chars):
    """s with every symbolic character that is one of chars made concrete"""
    if not CODES or not holes(s):
        return str.__str__(s)
    out = []
    for c in str.__str__(s):
        if c in CODES:
            for k in dict.fromkeys(chars):
                if 32 <= ord(k) <= 126 and bool(sym.eq(CODES[c], ord(k))):
                    c = k
                    break
        out.append(c)
    return ''.join(out)


def wrap(v):
    if isinstance(v, SymText):
        return v
    if isinstance(v, str):
        return SymText(v) if CODES and holes(v) else v
    if isinstance(v, list):
        return [wrap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(wrap(x) for x in v)
    return v


def _m(name, default=WHITE):
    """a method which looks for characters but does not build new text"""
    f = getattr(str, name)

    def go(self, *a, **k):
        chars = ''.join(x for x in list(a) + list(k.values()) if isinstance(x, str)) or default
        return f(resolve(self, chars), *a, **k)
    return go


def _cut(s, parts, sep):
    """the parts as they are in s; sep: what lies between them, None for white space"""
    out, at, r = [], 0, resolve(s, sep or WHITE)
    for i, p in enumerate(parts):
        at = r.index(p, at) if sep is None else at
        out.append(wrap(str.__getitem__(s, slice(at, at + len(p)))))
        at += len(p) + len(sep or '')
    return out


class SymText(str):
    find = _m('find')
    rfind = _m('rfind')
    index = _m('index')
    count = _m('count')

    def startswith(self, p, *a):
        if a:
            return str.startswith(resolve(self, ''.join(p)), p, *a)
        return any(bool(same(str.__getitem__(self, slice(0, len(q))), q)) for q in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, *a):
        if a:
            return str.endswith(resolve(self, ''.join(p)), p, *a)
        return any(bool(same(str.__getitem__(self, slice(max(0, len(self) - len(q)), None)), q)) for q in (p if isinstance(p, tuple) else (p,)))

    def split(self, sep=None, maxsplit=-1):
        return _cut(self, str.split(resolve(self, sep or WHITE), sep, maxsplit), sep)

    def rsplit(self, sep=None, maxsplit=-1):
        return _cut(self, str.rsplit(resolve(self, sep or WHITE), sep, maxsplit), sep)

    def partition(self, sep):
        return tuple(_cut(self, str.partition(resolve(self, sep), sep), ''))

    def rpartition(self, sep):
        return tuple(_cut(self, str.rpartition(resolve(self, sep), sep), ''))

    def lstrip(self, c=None):
        n = len(str.lstrip(resolve(self, c or WHITE), c))
        return self[len(self) - n:]

    def rstrip(self, c=None):
        return self[:len(str.rstrip(resolve(self, c or WHITE), c))]

    def strip(self, c=None):
        return wrap(wrap(self.rstrip(c)).lstrip(c))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def splitlines(self, keepends=False):
        return _cut(self, str.splitlines(str.__str__(self), True), '') if keepends else wrap(str.splitlines(str.__str__(self)))

    def replace(self, a, b, n=-1):
        r, out, at = resolve(self, a), '', 0
        if not a:
            raise Unsupported('replace of nothing')
        while n != 0:
            i = r.find(a, at)
            if i < 0:
                break
            out += str.__getitem__(self, slice(at, i)) + b
            at = i + len(a)
            n -= 1
        return wrap(out + str.__getitem__(self, slice(at, None)))

    def __contains__(self, x):
        return str.__contains__(resolve(self, x), x)

    def __getitem__(self, i):
        return wrap(str.__getitem__(self, i))

    def __iter__(self):
        return (wrap(c) for c in str.__str__(self))

    def __add__(self, o):
        return wrap(str.__add__(self, o))

    def __radd__(self, o):
        return wrap(o + str.__str__(self))

    def __mod__(self, o):
        return wrap(str.__mod__(self, o))

    def __str__(self):
        return self

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        r = same(self, o)
        return bool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = str.__hash__

    def _no(self, *a, **k):
        if holes(self):
            raise Unsupported('operation on the characters of symbolic text')
        raise AttributeError

    lower = upper = encode = isspace = isdigit = casefold = title = translate = _no


def same(a, b):
    """a == b, as a condition"""
    a, b = str.__str__(a), str.__str__(b)
    a, b = ''.join(a), ''.join(b)
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        if x == y:
            continue
        if x not in CODES and y not in CODES:
            return False
        r = sym.and_(r, sym.eq(CODES.get(x, ord(x)), CODES.get(y, ord(y))))
    return r


class TextFile:
    def __init__(self, f):
        self.__dict__['_f'] = f

    def read(self, *a):
        return wrap(self._f.read(*a))

    def readline(self, *a):
        return wrap(self._f.readline(*a))

    def readlines(self, *a):
        return wrap(self._f.readlines(*a))

    def __iter__(self):
        return (wrap(l) for l in self._f)

    def __next__(self):
        return wrap(next(self._f))

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __getattr__(self, n):
        return getattr(self._f, n)


# -- the operating system, confined -------------------------------------------------------------

def plain(v):
    return ''.join(str.__str__(v)) if isinstance(v, SymText) else v


SHELL = ' \'"\\;&|$*?#()<>`'


class Confined:
    """os, shutil and subprocess whose destructive calls only reach the scratch directory"""

    def __init__(self, env):
        self.env = env
        self.path = types.ModuleType('posixpath')
        for n, f in vars(posixpath).items():
            if n.startswith('__'):
                continue
            setattr(self.path, n, self._pathfn(f) if isinstance(f, (types.FunctionType, types.BuiltinFunctionType)) else f)
        self.os = types.ModuleType('os')
        self.os.__dict__.update({k: v for k, v in vars(os).items() if not k.startswith('__')})
        self.os.path = self.path
        for n in ('remove', 'unlink', 'rmdir', 'removedirs', 'rename', 'renames', 'replace', 'truncate', 'chmod', 'chown', 'mkdir', 'makedirs', 'symlink', 'link', 'rmtree'):
            if hasattr(os, n):
                setattr(self.os, n, self._guard(getattr(os, n), n in ('rename', 'renames', 'replace', 'symlink', 'link')))
        self.os.system = self.system
        for n in ('popen', 'kill', 'killpg', 'execv', 'execve', 'execvp', 'fork', 'spawnl', 'spawnv'):
            setattr(self.os, n, self._blocked(n))
        self.shutil = types.ModuleType('shutil')
        self.shutil.__dict__.update({k: v for k, v in vars(shutil).items() if not k.startswith('__')})
        self.shutil.rmtree = self._guard(shutil.rmtree, False)
        self.shutil.move = self._guard(shutil.move, True)
        for n in ('copy', 'copy2', 'copyfile', 'copytree'):
            setattr(self.shutil, n, self._copy(getattr(shutil, n)))
        self.subprocess = types.ModuleType('subprocess')
        for n in ('run', 'call', 'check_call', 'check_output', 'Popen'):
            setattr(self.subprocess, n, self._sub)

    def inside(self, p):
        # of a link, the link itself is affected
        p = plain(os.fspath(p))
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(os.path.abspath(p)))
        return bool(self.env.scratch) and (p + '/').startswith(os.path.realpath(self.env.scratch) + '/')

    def _pathfn(self, f):
        def go(*a, **k):
            r = f(*[plain(x) for x in a], **k)
            return wrap(r)
        return go

    def _guard(self, f, two):
        def go(*a, **k):
            for p in a[:2 if two else 1]:
                if not self.inside(p):
                    self.env.escapes.append((f.__name__, str(p)))
                    raise PermissionError('outside the scratch area: %s' % p)
            return f(*[plain(x) if isinstance(x, str) else x for x in a], **k)
        return go

    def _copy(self, f):
        def go(src, dst, *a, **k):
            if not self.inside(dst):
                self.env.escapes.append((f.__name__, str(dst)))
                raise PermissionError('outside the scratch area: %s' % dst)
            return f(plain(src), plain(dst), *a, **k)
        return go

    def _blocked(self, n):
        def go(*a, **k):
            raise Unsupported('os.%s' % n)
        return go

    def system(self, cmd):
        cmd = resolve(cmd, SHELL)
        try:
            words = shlex.split(cmd, comments=True)
        except ValueError:
            return 512
        return self._cmd(words)

    def _sub(self, args, *a, **k):
        if isinstance(args, str):
            return types.SimpleNamespace(returncode=self.system(args), stdout='', stderr='')
        return types.SimpleNamespace(returncode=self._cmd([plain(x) for x in args]), stdout='', stderr='')

    def _cmd(self, words):
        self.env.commands.append(list(words))
        if words and words[0] in self.env.runners:
            return self.env.runners[words[0]](words)
        if words and words[0] == 'rm':
            rc = 0
            for w in words[1:]:
                if w.startswith('-'):
                    continue
                if not self.inside(w):
                    self.env.escapes.append(('rm', w))
                elif os.path.isdir(w):
                    shutil.rmtree(w)
                elif os.path.exists(w):
                    os.remove(w)
                else:
                    rc = 256
            return rc
        return 0
