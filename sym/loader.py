"""Loads gpytoolbox from /repo/src with the symbolic numpy/scipy stand-ins in place of the real ones.

The source files are executed unmodified; only their imports and a few builtins are redirected."""
import builtins
import importlib.util
import math
import operator
import os
import sys
import types
from fractions import Fraction
import numpy as np
from . import core, arr, sparse, textio
from .core import S, SB, Sym, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'gpytoolbox'


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or (isinstance(x, Sym) and x.k == cls._symkind and cls._symkind == 'f')

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __call__(cls, *a):
        if not a:
            return cls._real()
        x = a[0]
        if isinstance(x, arr.SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.raw.reshape(-1)[0]
        if isinstance(x, (Sym, SB)):
            return arr.cast(x, cls._symkind)
        if isinstance(x, str) and textio.has_token(x):
            return textio.parse_num(x, cls._symkind)
        if cls._symkind == 'i':
            return int(*a)
        return float(*a)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


symfloat = _NumMeta('float', (), {'_symkind': 'f', '_real': float})
symint = _NumMeta('int', (), {'_symkind': 'i', '_real': int})
symint.from_bytes = int.from_bytes


def real_type(t):
    return getattr(t, '_real', t)


def sym_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(sym_isinstance(x, c) for c in cls)
    return isinstance(x, cls)


def _minmax(mx, real):
    def g(*args, key=None, default=None):
        l = list(args[0]) if len(args) == 1 else list(args)
        if key is not None or not any(isinstance(v, Sym) for v in l):
            kw = {}
            if key is not None:
                kw['key'] = key
            if default is not None and len(args) == 1:
                kw['default'] = default
            return real(l, **kw)
        return core.f_minmax(l, mx)
    return g


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})

        def w(name, f):
            real = getattr(math, name)

            def g(*a):
                if any(isinstance(x, (Sym, SB, arr.SArr)) for x in a):
                    return f(*[S(x) if not isinstance(x, arr.SArr) else S(x.item()) for x in a])
                return real(*a)
            self.__dict__[name] = g
        w('sqrt', core.f_sqrt)
        w('sin', core.f_sin)
        w('cos', core.f_cos)
        w('acos', arr.s_arccos)
        w('atan2', arr.s_arctan2)
        w('exp', arr.s_exp)
        w('log', arr.s_log)
        w('floor', lambda x: arr.cast(core.f_floor(x), 'i'))
        w('ceil', lambda x: -arr.cast(core.f_floor(-x), 'i'))
        w('fabs', core.f_abs)
        w('isnan', arr.s_isnan)
        w('isinf', arr.s_isinf)
        w('isfinite', lambda x: x.num is not None)
        w('hypot', lambda x, y: core.f_sqrt(x * x + y * y))
        w('pow', lambda x, y: core.f_pow(x, y))
        w('copysign', arr.s_copysign)


class NpProxy(arr.NpProxy):
    def __init__(self):
        super().__init__()
        d = self.__dict__
        d.pop('pi', None)
        d['finfo'] = lambda t=float: np.finfo(real_type(t))
        d['iinfo'] = lambda t=int: np.iinfo(real_type(t))
        d['dtype'] = lambda t=float, *a: t if isinstance(t, np.dtype) else np.dtype(real_type(t))
        d['issubdtype'] = lambda a, b: np.issubdtype(real_type(a), real_type(b))
        d['result_type'] = lambda *a: np.result_type(*[real_type(x) if not isinstance(x, (arr.SArr, Sym)) else x.dtype for x in a])

    def __getattr__(self, n):
        if n == 'pi':
            if isinstance(core.CTX, core._NullCtx):
                return math.pi
            return core.pi_sym()
        return getattr(np, n)


class Loader:
    def __init__(self, extra_builtins=None):
        self.np = NpProxy()
        self.mods = {'numpy': self.np, 'numpy.linalg': self.np.linalg, 'numpy.random': self.np.random, 'math': MathProxy()}
        nc = types.ModuleType('numpy.core')
        fb = types.ModuleType('numpy.core.function_base')
        fb.linspace = arr.np_linspace
        nc.function_base = fb
        self.mods['numpy.core'] = nc
        self.mods['numpy.core.function_base'] = fb
        self.mods.update(sparse.build_scipy())
        self.modules = {}
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['isinstance'] = sym_isinstance
        b['float'] = symfloat
        b['int'] = symint
        b['max'] = _minmax(True, max)
        b['min'] = _minmax(False, min)
        b['abs'] = lambda x: core.f_abs(x) if isinstance(x, Sym) else abs(x)
        b['print'] = lambda *a, **k: None
        b['len'] = lambda x: len(x)
        b['input'] = None
        if extra_builtins:
            b.update(extra_builtins)
        self.builtins = b
        self.files = {}

    # ------------------------------------------------------------------ import redirection
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
            m = self.load(full)
            if fromlist:
                self._sub(m, full, fromlist)
                return m
            return self.load(full.split('.')[0])
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                self._sub(m, name, fromlist)
                return m
            return self.load(PKG)
        if name in self.mods:
            if fromlist:
                return self.mods[name]
            return self.mods[name.split('.')[0]]
        if name.split('.')[0] in ('numpy', 'scipy') and name in sys.modules or name.startswith('scipy.'):
            m = __import__(name, globals, locals, fromlist, 0)
            if fromlist:
                return m
            return self.mods[name.split('.')[0]]
        if name == 'gpytoolbox_bindings':
            m = __import__(name, globals, locals, fromlist, 0)
            return m
        return __import__(name, globals, locals, fromlist, 0)

    def _sub(self, m, full, fromlist):
        for f in fromlist:
            if f != '*' and not hasattr(m, f):
                p = self._path(full + '.' + f)
                if p:
                    self.load(full + '.' + f)

    def _path(self, full):
        rel = full.replace('.', '/')
        p = os.path.join(SRC, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        path = self._path(full)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % full)
        m = types.ModuleType(full)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[full] = m
        with open(path) as f:
            src = f.read()
        code = compile(src, path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(full, None)
            raise
        parent, _, leaf = full.rpartition('.')
        if parent:
            pm = self.load(parent)
            # as the import system does, bind the submodule, but functions of the same name that the
            # package already imported keep winning when they are imported afterwards
            setattr(pm, leaf, m)
        return m


def load_symbolic(extra_builtins=None):
    ld = Loader(extra_builtins)
    g = ld.load(PKG)
    g.__loader_obj__ = ld
    return g
