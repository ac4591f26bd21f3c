"""Loads the package under test from /repo's current source, twice:
  * SymModules: every module compiled from source, its imports of numpy/math and its builtins redirected to the
    symbolic stand-ins; a fresh set of module objects per execution path;
  * RealModules: the ordinary import, used for replay."""
import builtins
import importlib
import os
import sys
import types
import copy as _copy

import numpy as _np

REPO = os.environ.get('SQPDFO_REPO', '/repo')
PKG = 'sqpdfo'
_code = {}


def _compile(path):
    c = _code.get(path)
    if c is None:
        with open(path) as f:
            c = compile(f.read(), path, 'exec', dont_inherit=True)
        _code[path] = c
    return c


class _Stubber:
    def __init__(self):
        self._undo = []

    def module_list(self):
        raise NotImplementedError

    def stub(self, modname, fname, fn):
        orig = getattr(self.mod(modname), fname)
        for m in self.module_list():
            for k, v in list(vars(m).items()):
                if v is orig:
                    self._undo.append((m, k, v))
                    setattr(m, k, fn)
        return orig

    def undo(self):
        for m, k, v in reversed(self._undo):
            setattr(m, k, v)
        self._undo = []


class SymModules(_Stubber):
    def __init__(self, extra=None):
        super().__init__()
        from . import shim
        self.mods = {}
        self.shim = shim
        b = dict(vars(builtins))
        b.update(shim.BUILTINS)
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b['open'] = _fake_open
        b['input'] = lambda *a: ''
        self.builtins = b

    def module_list(self):
        return list(self.mods.values())

    def mod(self, name):
        full = PKG + name if name.startswith('.') else PKG + '.' + name if name != PKG else PKG
        return self._load(full)

    def _path(self, full):
        rel = full.split('.')[1:]
        base = os.path.join(REPO, PKG, *rel)
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        raise ModuleNotFoundError('No module named %r' % full, name=full)

    def _load(self, full):
        if full in self.mods:
            return self.mods[full]
        if full == PKG:
            # package object; __init__ is executed only for submodule-free use
            m = types.ModuleType(full)
            m.__path__ = [os.path.join(REPO, PKG)]
            m.__package__ = PKG
            self.mods[full] = m
            return m
        path, ispkg = self._path(full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        parent, _, leaf = full.rpartition('.')
        setattr(self._load(parent), leaf, m)
        exec(_compile(path), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or PKG
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        root = name.split('.')[0]
        if root == PKG:
            m = self._load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self._load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self._load(PKG)
        if root == 'numpy':
            if name == 'numpy.linalg':
                return self.shim.linalg if fromlist else self.shim.npm
            if name == 'numpy':
                return self.shim.npm
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if root == 'math':
            return self.shim.mathm
        if root == 'scipy' and name == 'scipy.linalg':
            return scipy_linalg(self.shim)
        if root == 'warnings':
            return _warn
        return builtins.__import__(name, globals, locals, fromlist, 0)


_warn = types.ModuleType('warnings')
for _k in ('simplefilter', 'filterwarnings', 'warn', 'resetwarnings'):
    setattr(_warn, _k, lambda *a, **k: None)


class _catch:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


_warn.catch_warnings = _catch


def scipy_linalg(shim):
    m = types.ModuleType('scipy.linalg')
    la = shim.linalg
    for k in ('norm', 'solve', 'inv', 'qr', 'svd', 'eigh', 'pinv', 'det', 'LinAlgError', 'lstsq'):
        setattr(m, k, getattr(la, k))
    m.cholesky = lambda A, lower=False, **k: la.cholesky(A) if lower else la.cholesky(A).T
    m.solve_triangular = lambda A, b, trans=0, lower=False, **k: la.solve(A.T if trans in (1, 'T') else A, b)
    return m


class _fake_file:
    def read(self, *a):
        return ''

    def write(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _fake_open(*a, **k):
    return _fake_file()


class RealModules(_Stubber):
    """The unmodified modules, freshly imported so that module state cannot leak between replays."""

    def __init__(self):
        super().__init__()
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
            del sys.modules[k]
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        importlib.invalidate_caches()

    def module_list(self):
        return [m for k, m in list(sys.modules.items()) if (k == PKG or k.startswith(PKG + '.')) and m is not None]

    def mod(self, name):
        return importlib.import_module(PKG + name if name.startswith('.') else PKG + '.' + name if name != PKG else PKG)
