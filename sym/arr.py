"""numpy arrays of symbolic scalars: an object-dtype ndarray subclass, and a stand-in `numpy` module."""
import builtins
import math
import operator
import types
from fractions import Fraction
import numpy as np
from . import core
from .core import (S, SB, Sym, Unsupported, b_and, b_or, b_not, b_iff, f_abs, f_sqrt, f_ite, f_minmax, f_sign,
                   f_floor, f_trunc, f_rint, f_pow, f_cos, f_sin, INF, NAN)

ND = np.ndarray


# --------------------------------------------------------------------------------------------------
# kinds: 'f' float, 'i' int, 'b' bool, 'O' other
class SymFloat(type):
    pass


def kind_of_dtype(t):
    if t is None:
        return 'f'
    if isinstance(t, str) and t in ('f', 'i', 'b', 'O'):
        return t
    nm = getattr(t, '_symkind', None)
    if nm:
        return nm
    if isinstance(t, _DT):
        return t.kind_
    d = np.dtype(t)
    if d.kind == 'f':
        return 'f'
    if d.kind in 'iu':
        return 'i'
    if d.kind == 'b':
        return 'b'
    if d.kind == 'c':
        return 'f'
    return 'O'


class _DT:
    pass


DTYPES = {'f': np.dtype(np.float64), 'i': np.dtype(np.int64), 'b': np.dtype(np.bool_), 'O': np.dtype(object)}


def kind_of_scalar(x):
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, SB) or isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    return 'O'


_ORD = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def kmax(*ks):
    return max(ks, key=lambda k: _ORD[k])


def cast(x, k):
    """numpy's scalar conversion to kind k"""
    if k == 'O':
        return x
    if k == 'b':
        if isinstance(x, (SB, bool)):
            return x
        if isinstance(x, np.bool_):
            return bool(x)
        return S(x) != 0
    if isinstance(x, Sym):
        if x.k == k:
            return x
        if k == 'f':
            return Sym.const(x.c, 'f') if x.c is not None else Sym(x.num, x.den, 'f')
        return f_trunc(x)
    if isinstance(x, str):
        from . import textio
        return cast(textio.parse_num(x, k), k)
    if x is None:
        if k == 'f':
            return Sym.const(NAN, 'f')
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
    return cast(S(x), k)


def is_single(t):
    t = getattr(t, '_real', t)
    if t is np.float32 or t is np.float16:
        return True
    return isinstance(t, (str, np.dtype)) and str(t) in ('float32', 'float16', 'f4', '<f4', 'single', 'half', 'f2')


def single(x):
    """rounding to 24 bits: some number within the relative error"""
    if not isinstance(x, Sym):
        x = cast(x, 'f')
    if x.num is None or x.c is not None and x.c == 0:
        return x
    if x.c is not None:
        return S(Fraction(float(np.float32(float(x.c))))) if abs(x.c) < 10 ** 38 else x
    r = core.fresh_real('f32', lambda z: [], [], key=('f32', x.key()))
    core.CTX.assumed.add('single precision keeps 24 bits, rounded arbitrarily')
    tol = core.f_abs(x) * Fraction(1, 2 ** 24)
    core.CTX.assume(r - x <= tol)
    core.CTX.assume(x - r <= tol)
    return r


def singles(a):
    out = np.empty(a.shape, dtype=object)
    for j in np.ndindex(a.shape):
        out[j] = single(a.raw[j])
    out = mk(out, 'f')
    out._p32 = True
    return out


class SArr(np.ndarray):
    _p32 = False
    __array_priority__ = 900.0

    def __new__(cls, a, kind):
        o = np.asarray(a, dtype=object).view(cls)
        o._k = kind
        return o

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', 'f')

    # dtype as the code under test would see it
    @property
    def dtype(self):
        return DTYPES[self._k]

    @property
    def raw(self):
        return self.view(ND)

    # ------------------------------------------------------------------ indexing
    def __getitem__(self, ix):
        ix = fix_index(ix, self)
        if isinstance(ix, _LazyMask):
            ix = ix.force()
        r = ND.__getitem__(self.raw, ix)
        if isinstance(r, ND):
            if not isinstance(r, SArr):
                r = r.view(SArr)
                r._k = self._k
            return r
        return scalar_out(r, self._k)

    def __setitem__(self, ix, v):
        ix = fix_index(ix, self)
        if isinstance(ix, _LazyMask):
            # masked assignment without forking when the value is a scalar
            if not isinstance(v, (ND, list, tuple)) and ix.m.shape == self.shape:
                v = cast(v, self._k)
                r = self.raw
                for j in np.ndindex(self.shape):
                    r[j] = f_ite(ix.m[j], v, r[j])
                return
            ix = ix.force()
        if isinstance(v, (ND, list, tuple)):
            v = asarr(v)
            if v._k != self._k:
                v = astype(v, self._k)
            v = v.raw
            if v.ndim == 0:
                v = v[()]
        else:
            if type(v).__name__ in ('SSp',):
                v = v.toarray()
            v = cast(v, self._k)
        if self._p32:
            v = singles(mk(v, 'f')).raw if isinstance(v, ND) else single(v)
        ND.__setitem__(self.raw, ix, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return any_(self == x)

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.ndim == 0 or self.size == 1:
            if self.ndim != 0:
                raise TypeError('only integer scalar arrays can be converted to a scalar index')
            return operator.index(self.raw[()])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(self.raw.reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(self.raw.reshape(-1)[0])

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return self.copy()

    # ------------------------------------------------------------------ protocols
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # ------------------------------------------------------------------ methods
    def astype(self, t, *a, **k):
        kk = kind_of_dtype(t)
        if kk == 'O' and np.dtype(t).kind in 'US':
            out = np.empty(self.shape, dtype=object)
            for j in np.ndindex(self.shape):
                out[j] = str(self.raw[j])
            return out
        if kk == 'i' and self._k in 'fi':
            t = np.dtype(t if isinstance(t, (str, type, np.dtype)) and t is not int else int)
            if t.kind in 'iu' and t.itemsize < (8 if self._k == 'f' else 4):
                return narrow(astype(self, kk), t, self._k)
        return singles(astype(self, kk)) if is_single(t) else astype(self, kk)

    def resize(self, *shape, refcheck=True):
        if len(shape) == 1 and not isinstance(shape[0], (int, np.integer, Sym)):
            shape = tuple(shape[0])
        shape = tuple(operator.index(x) for x in shape)
        old = list(self.raw.reshape(-1))
        n = int(np.prod(shape))
        zero = cast(S(0), self._k) if self._k != 'b' else False
        ND.__setstate__(self, (1, shape, np.dtype(object), False, (old + [zero] * n)[:n]))

    def copy(self, order='C'):
        return mk(ND.copy(self.raw), self._k)

    def __copy__(self):
        return self.copy()

    def item(self, *a):
        return scalar_out(self.raw.item(*a), self._k)

    def tolist(self):
        return self.raw.tolist()

    def flatten(self, order='C'):
        return mk(self.raw.flatten(order), self._k)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis, keepdims=keepdims, dtype=dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_prod(self, axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return any_(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return all_(self, axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return np_argmin(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return np_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self.raw[...] = np_sort(self, axis).raw

    def nonzero(self):
        return np_nonzero(self)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis)

    def dot(self, o, out=None):
        return np_dot(self, o)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return np_clip(self, a_min if a_min is not None else k.get('min'), a_max if a_max is not None else k.get('max'))

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def repeat(self, n, axis=None):
        return wrap(np.repeat(self.raw, concrete_int(n), axis), self._k)

    def std(self, axis=None, **k):
        return np_sqrt(np_var(self, axis, **k))

    def var(self, axis=None, **k):
        return np_var(self, axis, **k)

    def fill(self, v):
        self[...] = v

    def trace(self, *a, **k):
        return np_trace(self)

    def diagonal(self, *a, **k):
        return mk(self.raw.diagonal(*a, **k), self._k)

    def tobytes(self, *a):
        raise Unsupported('tobytes')

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a

    @property
    def real(self):
        return self

    def __repr__(self):
        return 'SArr(%s, %s)' % (self._k, self.raw.tolist())
    __str__ = __repr__

    def __eq__(self, o):
        return binop_cmp(operator.eq, self, o)

    def __ne__(self, o):
        return binop_cmp(operator.ne, self, o)

    def __matmul__(self, o):
        if hasattr(o, '_is_ssp'):
            return NotImplemented
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def __mul__(self, o):
        if hasattr(o, '_is_ssp'):
            return NotImplemented
        return ND.__mul__(self, o)


def binop_cmp(op, a, o):
    if o is None:
        return elementwise1(lambda x: op(x is None, True), a, 'b')
    if isinstance(o, str):
        return op(0, 1)
    if hasattr(o, '_is_ssp'):
        return NotImplemented
    try:
        o = asarr(o)
    except Unsupported:
        return NotImplemented
    f = s_eq if op is operator.eq else s_ne
    try:
        return elementwise(f, (a, o), 'b')
    except ValueError:
        if op is operator.eq or op is operator.ne:
            raise
        raise


def scalar_out(r, k):
    """an element leaving an array becomes a scalar"""
    if k == 'b':
        if isinstance(r, SB):
            return r
        if isinstance(r, (bool, np.bool_)):
            return np.bool_(r)
        return r
    if isinstance(r, (Sym, SB)):
        return r
    if isinstance(r, (int, float, Fraction, np.integer, np.floating)):
        return S(r)
    return r


class _LazyMask:
    def __init__(self, m):
        self.m = m

    def force(self):
        return conc_mask(self.m)


def conc_mask(m):
    out = np.empty(m.shape, dtype=bool)
    for j in np.ndindex(m.shape):
        out[j] = bool(m[j])
    return out


def conc_ints(a):
    out = np.empty(a.shape, dtype=np.intp)
    for j in np.ndindex(a.shape):
        out[j] = operator.index(a[j])
    return out


def fix_index(ix, arr):
    if isinstance(ix, tuple):
        return tuple(fix1(i, arr, True) for i in ix)
    return fix1(ix, arr, False)


def fix1(i, arr, intuple):
    if isinstance(i, Sym):
        if i.k != 'i':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        return operator.index(i)
    if isinstance(i, SB):
        return bool(i)
    if isinstance(i, SArr):
        if i._k == 'b':
            if not intuple and any(isinstance(x, SB) for x in i.raw.reshape(-1)):
                return _LazyMask(i.raw)
            return conc_mask(i.raw)
        if i._k == 'i':
            return conc_ints(i.raw)
        if i.size == 0:
            return np.zeros(i.shape, dtype=np.intp)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, slice):
        f = lambda v: v if v is None else operator.index(v)
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, (list, tuple)):
        return fix1(asarr(i), arr, True)
    if isinstance(i, ND) and i.dtype == object:
        return fix1(asarr(i), arr, True)
    return i


# --------------------------------------------------------------------------------------------------
def mk(a, k):
    if isinstance(a, SArr):
        a = a.raw
    if not isinstance(a, ND):
        z = np.empty((), dtype=object)
        z[()] = a
        a = z
    r = a.view(SArr)
    r._k = k
    return r


_conv = {
    'i': np.frompyfunc(lambda x: S(x), 1, 1),
    'b': np.frompyfunc(lambda x: x if isinstance(x, SB) else (bool(x) if isinstance(x, (bool, np.bool_, int)) else (S(x) != 0)), 1, 1),
}


def _tosym(x):
    return x if isinstance(x, Sym) else S(x)


def asarr(x, k=None):
    """anything -> SArr (no copy for SArr)"""
    if isinstance(x, SArr):
        return x
    if hasattr(x, '_is_ssp'):
        return x.toarray()
    if isinstance(x, ND):
        if x.dtype == object:
            return from_nested(x)
        kk = kind_of_dtype(x.dtype)
        if kk == 'O':
            return mk(x.astype(object), 'O')
        out = np.empty(x.shape, dtype=object)
        fl = out.reshape(-1)
        for j, v in enumerate(x.reshape(-1).tolist()):
            if kk == 'b':
                fl[j] = bool(v)
            elif kk == 'i':
                fl[j] = S(int(v))
            else:
                fl[j] = S(float(v))
        return mk(fl.reshape(x.shape), kk)
    return from_nested(x)


def from_nested(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, ND):
        if x.dtype != object:
            return asarr(x)
        if x.ndim == 0:
            return from_nested(x[()])
        out = np.empty(x.shape, dtype=object)
        ks = []
        for j in np.ndindex(x.shape):
            v = x[j]
            kk = kind_of_scalar(v)
            ks.append(kk)
            out[j] = v if kk in 'bO' else S(v)
        k = kmax(*ks) if ks else 'f'
        return astype(mk(out, k), k)
    if isinstance(x, (list, tuple)):
        parts = [from_nested(v) for v in x]
        if not parts:
            return mk(np.empty((0,), dtype=object), 'f')
        sh = parts[0].shape
        for p in parts:
            if p.shape != sh:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        k = kmax(*[p._k for p in parts])
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            q = astype(p, k).raw
            if sh == ():
                out[i] = q[()]
            else:
                out[i] = q
        return mk(out, k)
    if isinstance(x, range):
        return from_nested(list(x))
    k = kind_of_scalar(x)
    out = np.empty((), dtype=object)
    out[()] = x if k in 'bO' else S(x)
    return mk(out, k)


def astype(a, k):
    a = asarr(a)
    if a._k == k:
        return mk(a.raw.copy(), k)
    out = np.empty(a.shape, dtype=object)
    r = a.raw
    for j in np.ndindex(a.shape):
        out[j] = cast(r[j], k)
    return mk(out, k)


def narrow(a, t, k):
    """integers that need not fit their type"""
    info = np.iinfo(t)
    lo, n = int(info.min), int(info.max) - int(info.min) + 1
    out = np.empty(a.shape, dtype=object)
    for j in np.ndindex(a.shape):
        x = a.raw[j]
        if not (bool(S(x) >= lo) and bool(S(x) < lo + n)):
            big = k == 'f' and not (bool(S(x) >= -2 ** 31) and bool(S(x) < 2 ** 31))
            x = S(lo if t.itemsize >= 4 else 0) if big else (S(x) - lo) % n + lo
        out[j] = x
    return mk(out, 'i')


def wrap(r, k=None):
    """result of a real numpy function on raw object arrays"""
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[wrap(x, k) for x in r])
    if isinstance(r, tuple):
        return tuple(wrap(x, k) for x in r)
    if isinstance(r, list):
        return [wrap(x, k) for x in r]
    if isinstance(r, SArr):
        return r
    if isinstance(r, ND):
        if r.dtype == object:
            if k is None:
                return from_nested(r)
            return mk(r, k)
        return asarr(r)
    return r


def scal(a):
    """0-d array -> scalar"""
    if isinstance(a, SArr) and a.ndim == 0:
        return scalar_out(a.raw[()], a._k)
    return a


def concrete_int(x):
    """python int / tuple of ints / int array from possibly symbolic"""
    if x is None:
        return None
    if isinstance(x, (tuple, list)):
        return type(x)(concrete_int(v) for v in x)
    if isinstance(x, SArr):
        if x.ndim == 0:
            return operator.index(x.raw[()])
        return conc_ints(x.raw)
    if isinstance(x, Sym):
        return operator.index(x)
    return x


# --------------------------------------------------------------------------------------------------
# element operations
def s_eq(x, y):
    if isinstance(x, (SB, bool, np.bool_)) and isinstance(y, (SB, bool, np.bool_)):
        return b_iff(x, y)
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    return _b(S(x) == S(y))


def s_ne(x, y):
    return b_not(s_eq(x, y))


def _b(v):
    return v if isinstance(v, SB) else bool(v)


def num(x):
    return x if isinstance(x, Sym) else S(x)


def s_minimum(x, y):
    return f_minmax([x, y], False)


def s_maximum(x, y):
    return f_minmax([x, y], True)


def s_isnan(x):
    x = num(x)
    return x.num is None and x.c != x.c


def s_isinf(x):
    x = num(x)
    return x.num is None and x.c == x.c


def s_arccos(x):
    x = num(x)
    if x.num is not None and x.c is not None:
        tab = {Fraction(1): S(Fraction(0)), Fraction(0): core.pi_sym() / 2, Fraction(-1): core.pi_sym(),
               Fraction(1, 2): core.pi_sym() / 3, Fraction(-1, 2): core.pi_sym() * Fraction(2, 3)}
        if x.c in tab:
            return tab[x.c]
        if abs(x.c) > 1:
            core.CTX.events.add('arccos out of range')
            return Sym.const(NAN, 'f')
    return core.uf('arccos', [x])


def _ax_arccos(a, args):
    import z3
    p = core.pi_sym()
    (pid,) = p.atoms()
    a.defs = [a.z >= 0, a.z <= core.ATOMS[pid].z]
    a.deps.add(pid)
    core.set_nonneg(a)


core.UF_AXIOMS['arccos'] = _ax_arccos


def _ax_arctan2(a, args):
    p = core.pi_sym()
    (pid,) = p.atoms()
    import z3
    y = core._real(args[0].z())
    a.defs = [a.z >= -core.ATOMS[pid].z, a.z <= core.ATOMS[pid].z, z3.Implies(y > 0, a.z > 0), z3.Implies(y < 0, a.z < 0)]
    a.deps.add(pid)
    if core.quick_sign(args[0]) in ('+', '>='):
        core.set_nonneg(a)
        a.defs.append(a.z >= 0)


core.UF_AXIOMS['arctan2'] = _ax_arctan2


def s_arctan2(y, x):
    y, x = num(y), num(x)
    if y.c is not None and x.c is not None and y.num is not None and x.num is not None:
        pi = core.pi_sym()
        if y.c == 0:
            return S(Fraction(0)) if x.c >= 0 else pi
        if x.c == 0:
            return pi / 2 if y.c > 0 else -pi / 2
        if x.c == y.c:
            return pi / 4 if x.c > 0 else -3 * pi / 4
        if x.c == -y.c:
            return -pi / 4 if x.c > 0 else 3 * pi / 4
    if y.c is None and y.num is not None and x.num is not None and not y.den and y.num.t[y.num.lead()] < 0:
        # odd in y, but for the branch cut
        if bool(b_and(y == 0, x < 0)):
            return core.pi_sym()
        return -core.uf('arctan2', [-y, x])
    return core.uf('arctan2', [y, x])


def s_exp(x):
    x = num(x)
    if x.num is None:
        return S(math.exp(x.c)) if x.c == x.c else x
    return core.uf('exp', [x])


def s_log(x):
    return core.uf('log', [num(x)])


def s_tan(x):
    return f_sin(x) / f_cos(x)


def s_cbrt(x):
    x = num(x)
    if x.c is not None and x.num is not None:
        for s in (1,):
            n, d = Fraction(x.c).numerator, Fraction(x.c).denominator
            rn = round(abs(n) ** (1 / 3))
            rd = round(d ** (1 / 3))
            if rn ** 3 == abs(n) and rd ** 3 == d:
                return S(Fraction(rn if n >= 0 else -rn, rd))
    return core.uf('cbrt', [x])


def s_add(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return b_or(x, y)
    return num(x) + num(y)


def s_mul(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return b_and(x, y)
    return num(x) * num(y)


def s_and(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return b_and(x, y)
    x, y = num(x), num(y)
    if x.c is not None and y.c is not None:
        return S(int(x.c) & int(y.c))
    raise Unsupported('bitwise and of symbolic ints')


def s_or(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return b_or(x, y)
    x, y = num(x), num(y)
    if x.c is not None and y.c is not None:
        return S(int(x.c) | int(y.c))
    raise Unsupported('bitwise or of symbolic ints')


def s_xor(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        return b_or(b_and(x, b_not(y)), b_and(b_not(x), y))
    x, y = num(x), num(y)
    if x.c is not None and y.c is not None:
        return S(int(x.c) ^ int(y.c))
    raise Unsupported('bitwise xor of symbolic ints')


def s_shift(op):
    def f(x, y):
        x, y = num(x), num(y)
        if x.c is not None and y.c is not None:
            return S(op(int(x.c), int(y.c)))
        if y.c is not None:
            return x * 2 ** int(y.c) if op is operator.lshift else x // 2 ** int(y.c)
        raise Unsupported('shift')
    return f


def s_inv(x):
    if isinstance(x, (bool, SB, np.bool_)):
        return b_not(x)
    return -num(x) - 1


def s_frac2(x, y):
    raise Unsupported('ufunc')


def s_copysign(x, y):
    a = f_abs(num(x))
    return f_ite(num(y) >= 0, a, -a)


def s_heaviside(x, h):
    x = num(x)
    return f_ite(x < 0, S(Fraction(0)), f_ite(x == 0, num(h), S(Fraction(1))))


def s_neg(x):
    if isinstance(x, (bool, SB)):
        raise TypeError('The numpy boolean negative, the `-` operator, is not supported, use the `~` operator or the logical_not function instead.')
    return -num(x)


def s_sub(x, y):
    if isinstance(x, (bool, SB)) and isinstance(y, (bool, SB)):
        raise TypeError('numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` operator, or the logical_xor function instead.')
    return num(x) - num(y)


# name -> (function, result kind rule)
UF2 = {
    'add': (s_add, 'num'), 'subtract': (s_sub, 'num'), 'multiply': (s_mul, 'num'),
    'divide': (lambda x, y: num(x) / num(y), 'f'), 'true_divide': (lambda x, y: num(x) / num(y), 'f'),
    'floor_divide': (lambda x, y: num(x) // num(y), 'num1'), 'remainder': (lambda x, y: num(x) % num(y), 'num1'),
    'mod': (lambda x, y: num(x) % num(y), 'num1'),
    'power': (lambda x, y: f_pow(num(x), num(y)), 'num1'), 'float_power': (lambda x, y: f_pow(cast(x, 'f'), num(y)), 'f'),
    'minimum': (s_minimum, 'num'), 'maximum': (s_maximum, 'num'), 'fmin': (s_minimum, 'num'), 'fmax': (s_maximum, 'num'),
    'less': (lambda x, y: _b(num(x) < num(y)), 'b'), 'less_equal': (lambda x, y: _b(num(x) <= num(y)), 'b'),
    'greater': (lambda x, y: _b(num(x) > num(y)), 'b'), 'greater_equal': (lambda x, y: _b(num(x) >= num(y)), 'b'),
    'equal': (s_eq, 'b'), 'not_equal': (s_ne, 'b'),
    'logical_and': (lambda x, y: b_and(cast(x, 'b'), cast(y, 'b')), 'b'),
    'logical_or': (lambda x, y: b_or(cast(x, 'b'), cast(y, 'b')), 'b'),
    'logical_xor': (lambda x, y: s_xor(cast(x, 'b'), cast(y, 'b')), 'b'),
    'bitwise_and': (s_and, 'num'), 'bitwise_or': (s_or, 'num'), 'bitwise_xor': (s_xor, 'num'),
    'left_shift': (s_shift(operator.lshift), 'num'), 'right_shift': (s_shift(operator.rshift), 'num'),
    'arctan2': (s_arctan2, 'f'), 'hypot': (lambda x, y: f_sqrt(num(x) * num(x) + num(y) * num(y), True), 'f'),
    'copysign': (s_copysign, 'f'), 'heaviside': (s_heaviside, 'f'),
}
UF1 = {
    'negative': (s_neg, 'num1'), 'positive': (lambda x: x, 'num'), 'absolute': (lambda x: f_abs(num(x)), 'num1'),
    'fabs': (lambda x: f_abs(num(x)), 'f'),
    'sqrt': (f_sqrt, 'f'), 'square': (lambda x: num(x) * num(x), 'num1'), 'sign': (f_sign, 'num1'),
    'cos': (f_cos, 'f'), 'sin': (f_sin, 'f'), 'tan': (s_tan, 'f'), 'arccos': (s_arccos, 'f'),
    'arctan': (lambda x: core.uf('arctan', [num(x)]), 'f'), 'arcsin': (lambda x: core.uf('arcsin', [num(x)]), 'f'),
    'exp': (s_exp, 'f'), 'log': (s_log, 'f'), 'cbrt': (s_cbrt, 'f'),
    'exp2': (lambda x: f_pow(S(Fraction(2)), num(x)), 'f'), 'log2': (lambda x: core.uf('log2', [num(x)]), 'f'), 'log10': (lambda x: core.uf('log10', [num(x)]), 'f'),
    'floor': (lambda x: f_floor(x), 'f'), 'ceil': (lambda x: -f_floor(-num(x)), 'f'), 'trunc': (lambda x: cast(f_trunc(x), 'f'), 'f'),
    'rint': (f_rint, 'f'),
    'isnan': (s_isnan, 'b'), 'isinf': (s_isinf, 'b'), 'isfinite': (lambda x: num(x).num is not None, 'b'), 'signbit': (lambda x: _b(num(x) < 0), 'b'),
    'logical_not': (lambda x: b_not(cast(x, 'b')), 'b'), 'invert': (s_inv, 'num'), 'bitwise_not': (s_inv, 'num'), 'reciprocal': (lambda x: 1 / num(x), 'f'),
    'conjugate': (lambda x: x, 'num'), 'deg2rad': (lambda x: num(x) * core.pi_sym() / 180, 'f'), 'radians': (lambda x: num(x) * core.pi_sym() / 180, 'f'),
    'rad2deg': (lambda x: num(x) * 180 / core.pi_sym(), 'f'), 'degrees': (lambda x: num(x) * 180 / core.pi_sym(), 'f'),
}


def elementwise(f, args, k):
    arrs = [a if isinstance(a, SArr) else asarr(a) for a in args]
    if len(arrs) == 1:
        return elementwise1(f, arrs[0], k)
    bs = np.broadcast_arrays(*[a.raw for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    o = out.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    if len(its) == 2:
        x, y = its
        for i in range(o.size):
            o[i] = f(x[i], y[i])
    else:
        for i in range(o.size):
            o[i] = f(*[it[i] for it in its])
    if k == 'f':
        for i in range(o.size):
            if isinstance(o[i], Sym) and o[i].k == 'i':
                o[i] = cast(o[i], 'f')
    return mk(o.reshape(out.shape), k)


def elementwise1(f, a, k):
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    x = a.raw.reshape(-1)
    for i in range(o.size):
        v = f(x[i])
        if k == 'f' and isinstance(v, Sym) and v.k == 'i':
            v = cast(v, 'f')
        o[i] = v
    return mk(o.reshape(a.shape), k)


def reskind(rule, ks):
    if rule in ('f', 'b'):
        return rule
    k = kmax(*ks)
    if rule == 'num1' and k == 'b':
        return 'i'
    return k


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    out = kw.get('out')
    where = kw.get('where', True)
    if any(hasattr(x, '_is_ssp') for x in inputs):
        return NotImplemented
    if method == '__call__':
        if name == 'matmul':
            r = np_matmul(*inputs)
        elif name in ('vecdot',):
            r = np_sum(elementwise(s_mul, inputs, 'f'), -1)
        elif name in UF2 or name in UF1:
            f, rule = (UF2.get(name) or UF1.get(name))
            arrs = [asarr(x) for x in inputs]
            k = reskind(rule, [a._k for a in arrs])
            r = elementwise(f, arrs, k)
            if where is not True:
                base = out[0] if out else mk(np.full(r.shape, None, dtype=object), k)
                w = np.broadcast_to(asarr(where).raw, r.shape)
                rr = r.raw
                for j in np.ndindex(r.shape):
                    if not bool(w[j]):
                        rr[j] = base.raw[j]
        elif name == 'modf':
            t = ufunc(np.trunc, method, inputs, {})
            return asarr(inputs[0]) - t, t
        elif name == 'fmod':
            x, y = inputs
            q = ufunc(np.trunc, method, (asarr(x) / y,), {})
            r = asarr(x) - q * y
            return scal(r) if isinstance(r, SArr) else r
        elif name == 'divmod':
            a, b = inputs
            return ufunc(np.floor_divide, method, inputs, {}), ufunc(np.remainder, method, inputs, {})
        elif name == 'clip':
            r = np_clip(*inputs)
        else:
            raise Unsupported('ufunc %s' % name)
        if out:
            o = out[0]
            if isinstance(o, SArr):
                if _ORD[r._k] > _ORD[o._k]:
                    raise np._core._exceptions._UFuncOutputCastingError(uf, 'same_kind', DTYPES[r._k], DTYPES[o._k], 0) if False else TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'" % (name, DTYPES[r._k], DTYPES[o._k]))
                o[...] = r
                return o
            raise Unsupported('ufunc out into a plain array')
        if isinstance(r, SArr) and r.ndim == 0:
            return scal(r)
        return r
    if method == 'reduce':
        a = asarr(inputs[0])
        axis = kw.get('axis', 0)
        kd = kw.get('keepdims', False)
        if name == 'add':
            return np_sum(a, axis, keepdims=kd)
        if name == 'multiply':
            return np_prod(a, axis, keepdims=kd)
        if name in ('maximum',):
            return np_max(a, axis, keepdims=kd)
        if name in ('minimum',):
            return np_min(a, axis, keepdims=kd)
        if name == 'logical_and':
            return all_(a, axis, keepdims=kd)
        if name == 'logical_or':
            return any_(a, axis, keepdims=kd)
    if method == 'accumulate' and name == 'add':
        return np_cumsum(inputs[0], kw.get('axis', 0))
    if method == 'accumulate' and name == 'multiply':
        return np_cumprod(inputs[0], kw.get('axis', 0))
    if method == 'accumulate' and name in ('maximum', 'minimum'):
        return np_accumulate_minmax(inputs[0], kw.get('axis', 0), name == 'maximum')
    if method == 'at' and name in UF2:
        a, ix, v = inputs
        f, rule = UF2[name]
        ix = fix_index(ix, a)
        idx = np.empty(a.shape, dtype=object)
        for j in np.ndindex(a.shape):
            idx[j] = j
        sel = idx[ix]
        v = asarr(v).raw
        sh = sel.shape if isinstance(sel, ND) else ()
        v = np.broadcast_to(v, sh)
        raw = a.raw
        if sh == ():
            raw[sel] = cast(f(raw[sel], v[()]), a._k)
        else:
            for j in np.ndindex(sh):
                raw[sel[j]] = cast(f(raw[sel[j]], v[j]), a._k)
        return None
    if method == 'outer' and name in UF2:
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return ufunc(uf, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    raise Unsupported('ufunc %s.%s' % (name, method))


# --------------------------------------------------------------------------------------------------
# reductions
def reduce_axes(a, axis, f, k, keepdims=False, empty=None):
    a = asarr(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axis = concrete_int(axis)
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(np.lib.array_utils.normalize_axis_index(x, a.ndim) for x in axes)
    rest = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(a.raw, rest + list(axes))
    sh = tuple(a.shape[i] for i in rest)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    t = t.reshape(sh + (n,))
    out = np.empty(sh, dtype=object)
    for j in np.ndindex(sh):
        out[j] = f(list(t[j])) if n or empty is None else empty
    r = mk(out, k)
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return scal(r)


def _sum_list(xs):
    s = S(0)
    for x in xs:
        s = s + num(x)
    return s


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    if hasattr(a, '_is_ssp'):
        return a.sum(axis)
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = asarr(a)
    k = 'i' if a._k in 'bi' else 'f'
    if dtype is not None:
        k = kind_of_dtype(dtype)
    if where is not None and where is not True:
        a = np_where(where, a, 0)
    r = reduce_axes(a, axis, lambda l: cast(_sum_list(l), k), k, keepdims)
    return r if initial is None else r + initial


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    k = 'i' if a._k in 'bi' else 'f'

    def f(l):
        s = S(1)
        for x in l:
            s = s * num(x)
        return cast(s, k)
    return reduce_axes(a, axis, f, k, keepdims)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    return reduce_axes(a, axis, lambda l: cast(_sum_list(l), 'f') / len(l), 'f', keepdims)


def np_var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asarr(a)

    def f(l):
        m = cast(_sum_list(l), 'f') / len(l)
        return _sum_list([(x - m) * (x - m) for x in l]) / (len(l) - ddof)
    return reduce_axes(a, axis, f, 'f', keepdims)


def np_sqrt(a):
    return ufunc(np.sqrt, '__call__', (a,), {})


def _minmax(mx):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
        a = asarr(a)
        k = 'i' if a._k == 'b' else a._k

        def f(l):
            if not l:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % ('maximum' if mx else 'minimum'))
            if a._k == 'b':
                return (b_or if mx else b_and)(*l)
            return cast(f_minmax(l, mx), k)
        return reduce_axes(a, axis, f, a._k, keepdims)
    return g


np_max = _minmax(True)
np_min = _minmax(False)


def any_(a, axis=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    return _bool_out(reduce_axes(a, axis, lambda l: b_or(*[cast(x, 'b') for x in l]) if l else False, 'b', keepdims))


def all_(a, axis=None, out=None, keepdims=False, **kw):
    a = asarr(a)
    return _bool_out(reduce_axes(a, axis, lambda l: b_and(*[cast(x, 'b') for x in l]) if l else True, 'b', keepdims))


def _bool_out(r):
    return r


def np_argminmax(mx):
    def g(a, axis=None, out=None, keepdims=False, **kw):
        a = asarr(a)

        def f(l):
            if not l:
                raise ValueError('attempt to get argmax of an empty sequence')
            best = 0
            for i in range(1, len(l)):
                x, b = num(l[i]), num(l[best])
                if x.num is None and x.c != x.c:
                    return S(i)
                if b.num is None and b.c != b.c:
                    return S(best)
                if bool(x > b) if mx else bool(x < b):
                    best = i
            return S(best)
        return reduce_axes(a, axis, f, 'i', keepdims)
    return g


np_argmax = np_argminmax(True)
np_argmin = np_argminmax(False)


def _lt(x, y):
    """numpy sort order (nan last)"""
    if isinstance(x, (bool, SB)):
        x = num(x)
        y = num(y)
    if isinstance(x, str):
        return x < y
    x, y = num(x), num(y)
    if x.num is None and x.c != x.c:
        return False
    if y.num is None and y.c != y.c:
        return True
    return x < y


def merge_sort(idx, less):
    if len(idx) < 2:
        return idx
    m = len(idx) // 2
    a, b = merge_sort(idx[:m], less), merge_sort(idx[m:], less)
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        if bool(less(b[j], a[i])):
            out.append(b[j])
            j += 1
        else:
            out.append(a[i])
            i += 1
    return out + a[i:] + b[j:]


def sort_list(l, k):
    """sorted values; integer rows go through a min/max network so that no fork is needed"""
    if k == 'i' and len(l) <= core.CTX.cfg.get('sort_network', 4) and any(x.c is None for x in l):
        l = list(l)
        n = len(l)
        for i in range(n):
            for j in range(n - 1 - i):
                a, b = l[j], l[j + 1]
                c = a < b
                d = core.CTX.decided(c) if isinstance(c, SB) else c
                if d is True:
                    continue
                if d is False:
                    l[j], l[j + 1] = b, a
                else:
                    l[j] = f_minmax([a, b], False)
                    l[j + 1] = a + b - l[j]
        return l
    o = merge_sort(list(range(len(l))), lambda p, q: _lt(l[p], l[q]))
    return [l[i] for i in o]


def along(a, axis, f, k):
    """apply f: list->list along axis"""
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    m = np.moveaxis(a.raw, concrete_int(axis), -1)
    outs = None
    for j in np.ndindex(m.shape[:-1]):
        l = f(list(m[j]))
        if outs is None:
            outs = np.empty(m.shape[:-1] + (len(l),), dtype=object)
        for i, v in enumerate(l):
            outs[j + (i,)] = v
    if outs is None:
        outs = np.empty(m.shape, dtype=object)
    return mk(np.moveaxis(outs, -1, concrete_int(axis)), k)


def np_sort(a, axis=-1, kind=None, order=None, **kw):
    a = asarr(a)
    return along(a, axis, lambda l: sort_list(l, a._k), a._k)


def np_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = asarr(a)
    return along(a, axis, lambda l: [S(i) for i in merge_sort(list(range(len(l))), lambda p, q: _lt(l[p], l[q]))], 'i')


def np_lexsort(keys, axis=-1):
    ks = [asarr(x).raw for x in keys]
    n = ks[0].shape[0]

    def less(p, q):
        for kk in reversed(ks):
            if bool(_lt(kk[p], kk[q])):
                return True
            if bool(_lt(kk[q], kk[p])):
                return False
        return False
    return asarr([int(i) for i in merge_sort(list(range(n)), less)])


def np_nonzero(a):
    a = asarr(a)
    m = conc_mask(elementwise1(lambda x: cast(x, 'b'), a, 'b').raw) if a._k != 'O' else a.raw.astype(bool)
    return tuple(asarr(x) for x in np.nonzero(m))


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    k = 'i' if a._k in 'bi' else 'f'

    def f(l):
        s = S(0) if k == 'i' else S(Fraction(0))
        o = []
        for x in l:
            s = s + num(x)
            o.append(s)
        return o
    return along(a, axis, f, k)


def np_cumprod(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    k = 'i' if a._k in 'bi' else 'f'

    def f(l):
        s = S(1) if k == 'i' else S(Fraction(1))
        o = []
        for x in l:
            s = s * num(x)
            o.append(s)
        return o
    return along(a, axis, f, k)


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    parts = []
    for v, front in ((prepend, True), (append, False)):
        if v is not None:
            v = asarr(v)
            if v.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = np_full(tuple(sh), scal(v), dtype=None if v._k != a._k else a.dtype)
            a = np_concatenate([v, a] if front else [a, v], axis=axis)
    for _ in range(n):
        a = along(a, axis, lambda l: [l[i + 1] - l[i] for i in range(len(l) - 1)], a._k)
    return a


# --------------------------------------------------------------------------------------------------
# linear algebra
def np_matmul(a, b, out=None, **kw):
    if hasattr(a, '_is_ssp') or hasattr(b, '_is_ssp'):
        return a @ b
    a, b = asarr(a), asarr(b)
    k = kmax(a._k, b._k)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ar, br = a.raw, b.raw
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        ar = ar[None, :]
    if vb:
        br = br[:, None]
    if ar.shape[-1] != br.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)' % (br.shape[-2], ar.shape[-1]))
    bsh = np.broadcast_shapes(ar.shape[:-2], br.shape[:-2])
    A = np.broadcast_to(ar, bsh + ar.shape[-2:])
    B = np.broadcast_to(br, bsh + br.shape[-2:])
    out = np.empty(bsh + (A.shape[-2], B.shape[-1]), dtype=object)
    for j in np.ndindex(bsh):
        X = [[num(x) for x in row] for row in A[j].tolist()]
        Y = [[num(x) for x in col] for col in B[j].T.tolist()]
        # products with an exact zero are left out, unless something is not finite
        skip = not any(x.num is None for M in (X, Y) for row in M for x in row)
        X = [[(t, x) for t, x in enumerate(row) if not (skip and x.c is not None and x.c == 0)] for row in X]
        for r, row in enumerate(X):
            for c, col in enumerate(Y):
                s = S(0)
                for t, x in row:
                    y = col[t]
                    if not (skip and y.c is not None and y.c == 0):
                        s = s + x * y
                out[j + (r, c)] = cast(s, k) if k in 'fi' else s
    if va:
        out = out[..., 0, :]
    if vb:
        out = out[..., 0]
    if not isinstance(out, ND) or out.ndim == 0:
        return scalar_out(out if not isinstance(out, ND) else out[()], k)
    return mk(out, k)


def np_dot(a, b, out=None):
    if hasattr(a, '_is_ssp') or hasattr(b, '_is_ssp'):
        return a * b if not hasattr(a, 'dot') else a.dot(b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return scal(elementwise(s_mul, (a, b), kmax(a._k, b._k)))
    if a.ndim <= 2 and b.ndim <= 2:
        return np_matmul(a, b)
    return np_tensordot(a, b, (a.ndim - 1, b.ndim - 2))


def np_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    return wrap(np.tensordot(a.raw, b.raw, axes), kmax(a._k, b._k))


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if axis is None and x.ndim > 1 and ord is not None and ord != 'fro':
        raise Unsupported('matrix norm')
    if ord is None or ord == 2 or ord == 'fro':
        def f(l):
            return f_sqrt(cast(_sum_list([num(v) * num(v) for v in l]), 'f'), True)
    elif ord == 1:
        def f(l):
            return _sum_list([f_abs(num(v)) for v in l])
    elif ord in (np.inf,):
        def f(l):
            return f_minmax([f_abs(num(v)) for v in l], True)
    else:
        raise Unsupported('norm ord %r' % (ord,))
    return reduce_axes(x, axis, f, 'f', keepdims)


def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is not None:
        axisa = axisb = axisc = concrete_int(axis)
    A = np.moveaxis(a.raw, axisa, -1)
    B = np.moveaxis(b.raw, axisb, -1)
    da, db = A.shape[-1], B.shape[-1]
    if da not in (2, 3) or db not in (2, 3):
        raise ValueError('Both input arrays must be (arrays of) 3-dimensional vectors, but they are %d and %d dimensional instead.' % (da, db))
    sh = np.broadcast_shapes(A.shape[:-1], B.shape[:-1])
    if da == 2 or db == 2:
        # allow what numpy deprecates
        try:
            np.cross(np.zeros(da), np.zeros(db))
        except ValueError:
            raise ValueError('Both input arrays must be (arrays of) 3-dimensional vectors, but they are %d and %d dimensional instead.' % (da, db))
        out = np.empty(sh + ((3,) if da != db else ()), dtype=object)
        A = np.broadcast_to(A, sh + (da,))
        B = np.broadcast_to(B, sh + (db,))
        for j in np.ndindex(sh):
            x, y = [num(v) for v in A[j]], [num(v) for v in B[j]]
            z = x[0] * y[1] - x[1] * y[0]
            if da == db:
                out[j] = z
                continue
            if da == 2:
                out[j + (0,)], out[j + (1,)] = x[1] * y[2], -(x[0] * y[2])
            else:
                out[j + (0,)], out[j + (1,)] = -(x[2] * y[1]), x[2] * y[0]
            out[j + (2,)] = z
        return mk(np.moveaxis(out, -1, axisc) if da != db else out, kmax(a._k, b._k))
    A = np.broadcast_to(A, sh + (da,))
    B = np.broadcast_to(B, sh + (db,))
    out = np.empty(sh + (3,), dtype=object)
    k = kmax(a._k, b._k)
    for j in np.ndindex(sh):
        x, y = [num(v) for v in A[j]], [num(v) for v in B[j]]
        out[j + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[j + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[j + (2,)] = x[0] * y[1] - x[1] * y[0]
    return mk(np.moveaxis(out, -1, axisc), k)


def np_trace(a, **kw):
    a = asarr(a)
    return _sum_list([a.raw[i, i] for i in range(min(a.shape))])


def det_list(M):
    n = len(M)
    if n == 0:
        return S(Fraction(1))
    if n == 1:
        return num(M[0][0])
    if n == 2:
        return num(M[0][0]) * M[1][1] - num(M[0][1]) * M[1][0]
    s = S(Fraction(0))
    for j in range(n):
        if isinstance(M[0][j], Sym) and M[0][j].c == 0:
            continue
        sub = [[row[t] for t in range(n) if t != j] for row in M[1:]]
        t = num(M[0][j]) * det_list(sub)
        s = s + t if j % 2 == 0 else s - t
    return s


def np_det(a):
    a = asarr(a)
    if a.ndim == 2:
        if a.shape[0] > 5:
            raise Unsupported('det of a large matrix')
        return cast(det_list(a.raw.tolist()), 'f')
    out = np.empty(a.shape[:-2], dtype=object)
    for j in np.ndindex(a.shape[:-2]):
        out[j] = cast(det_list(a.raw[j].tolist()), 'f')
    return mk(out, 'f')


class Singular(Exception):
    pass


def gauss_solve(A, B):
    """solve A X = B exactly (fraction/rational-function Gauss elimination); A: n x n, B: n x m object arrays"""
    n = A.shape[0]
    if all(num(x).c is not None and num(x).num is not None for x in A.reshape(-1)) and all(num(x).num is not None for x in B.reshape(-1)):
        return known_solve(A, B)
    M = [[cast(num(A[i, j]), 'f') for j in range(n)] + [cast(num(B[i, j]), 'f') for j in range(B.shape[1])] for i in range(n)]
    w = n + B.shape[1]
    for c in range(n):
        piv = None
        for r in range(c, n):
            if M[r][c].c is not None and M[r][c].c != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if M[r][c].c is None:
                    z = M[r][c] == 0
                    if not bool(z):
                        core.CTX.mark_nonzero(M[r][c])
                        piv = r
                        break
        if piv is None:
            raise Singular()
        M[c], M[piv] = M[piv], M[c]
        inv = S(Fraction(1)) / M[c][c]
        M[c] = M[c][:c] + [v * inv if not (v.c == 0 and v.c is not None) else v for v in M[c][c:]]
        for r in range(n):
            if r != c:
                f = M[r][c]
                if f.c is not None and f.c == 0:
                    continue
                M[r] = M[r][:c] + [M[r][t] - f * M[c][t] for t in range(c, w)]
    out = np.empty((n, B.shape[1]), dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            out[i, j] = M[i][n + j]
    return out


def known_solve(A, B):
    """the same for a matrix of known numbers: elimination downwards, substitution upwards, without touching zeros"""
    n, m = A.shape[0], B.shape[1]
    M = [[Fraction(num(x).c) for x in row] for row in A.tolist()]
    R = [[cast(num(x), 'f') for x in row] for row in B.tolist()]
    for c in range(n):
        piv = next((r for r in range(c, n) if M[r][c] != 0), None)
        if piv is None:
            raise Singular()
        M[c], M[piv], R[c], R[piv] = M[piv], M[c], R[piv], R[c]
        cols = [t for t in range(c + 1, n) if M[c][t] != 0]
        known = [j for j in range(m) if not (R[c][j].c is not None and R[c][j].c == 0)]
        for r in range(c + 1, n):
            if M[r][c] != 0:
                f = M[r][c] / M[c][c]
                for t in cols:
                    M[r][t] -= f * M[c][t]
                M[r][c] = Fraction(0)
                for j in known:
                    R[r][j] = R[r][j] - S(f) * R[c][j]
    out = np.empty((n, m), dtype=object)
    for c in reversed(range(n)):
        inv = S(1 / M[c][c])
        cols = [t for t in range(c + 1, n) if M[c][t] != 0]
        for j in range(m):
            v = R[c][j]
            for t in cols:
                x = out[t, j]
                if not (x.c is not None and x.c == 0):
                    v = v - S(M[c][t]) * x
            out[c, j] = v * inv
    return out


def stub_solve(A, B):
    """contract of a direct solver: some X with A X = B (A assumed non-singular)"""
    n, m = A.shape[0], B.shape[1]
    core.CTX.assumed.add('linear solves return an exact solution of A X = B')
    X = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            X[i, j] = core.fresh_real('x', lambda v: [], [])
    for i in range(n):
        for j in range(m):
            s = S(Fraction(0))
            for t in range(n):
                s = s + num(A[i, t]) * X[t, j]
            core.CTX.assume(s == num(B[i, j]))
    return X


def solve_any(A, B):
    """A: SArr n x n, B: SArr n x m -> object array"""
    n = A.shape[0]
    symbolic = any(num(x).c is None for x in A.raw.reshape(-1))
    mode = core.CTX.cfg.get('linsolve', 'auto')
    if mode != 'stub' and (not symbolic or mode == 'exact' or (mode == 'auto' and n <= 3)):
        return gauss_solve(A.raw, B.raw)
    return stub_solve(A.raw, B.raw)


def np_solve(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 3:
        out = [np_solve(a[i], b[i]) for i in range(a.shape[0])]
        return np_array(out)
    vec = b.ndim == 1
    B = b.reshape(-1, 1) if vec else b
    try:
        X = solve_any(a, B)
    except Singular:
        raise np.linalg.LinAlgError('Singular matrix')
    r = mk(X, 'f')
    return r.reshape(-1) if vec else r


def np_inv(a):
    a = asarr(a)
    if a.ndim == 3:
        return np_array([np_inv(a[i]) for i in range(a.shape[0])])
    return np_solve(a, np_eye(a.shape[0]))


# --------------------------------------------------------------------------------------------------
# creation
def _fill(shape, v, k):
    if isinstance(shape, (Sym, int, np.integer)):
        shape = (operator.index(shape),)
    elif isinstance(shape, SArr):
        shape = tuple(int(x) for x in conc_ints(shape.raw).reshape(-1))
    else:
        shape = tuple(operator.index(x) for x in shape)
    out = np.empty(shape, dtype=object)
    out[...] = v
    return mk(out, k)


def _typed(a, dtype):
    if dtype is not None and is_single(dtype):
        a._p32 = True
    return a


def np_zeros(shape, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype)
    return _typed(_fill(shape, {'f': S(Fraction(0)), 'i': S(0), 'b': False, 'O': 0}[k], k), dtype)


def np_ones(shape, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype)
    return _fill(shape, {'f': S(Fraction(1)), 'i': S(1), 'b': True, 'O': 1}[k], k)


def np_empty(shape, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype)
    # uninitialised memory: a fresh unknown would be the exact model; zero is only read if the code
    # reads before writing, so use a poison NaN for floats
    return _typed(_fill(shape, {'f': S(NAN), 'i': S(-987654321), 'b': False, 'O': None}[k], k), dtype)


def np_full(shape, fill_value, dtype=None, order='C', **kw):
    k = kind_of_dtype(dtype) if dtype is not None else asarr(fill_value)._k
    fv = asarr(fill_value)
    if fv.ndim == 0:
        return _fill(shape, cast(fv.raw[()], k), k)
    r = _fill(shape, None, k)
    r[...] = fv
    return r


def like(f):
    def g(a, dtype=None, order='K', subok=True, shape=None, **kw):
        a = asarr(a)
        return f(a.shape if shape is None else shape, dtype if dtype is not None else a._k)
    return g


np_zeros_like = like(np_zeros)
np_ones_like = like(np_ones)
np_empty_like = like(np_empty)


def np_full_like(a, fill_value, dtype=None, **kw):
    a = asarr(a)
    return np_full(a.shape, fill_value, dtype if dtype is not None else a._k)


def np_eye(N, M=None, k=0, dtype=None, **kw):
    N = operator.index(N)
    M = N if M is None else operator.index(M)
    kk = kind_of_dtype(dtype)
    a = np_zeros((N, M), kk)
    one = {'f': S(Fraction(1)), 'i': S(1), 'b': True}[kk]
    for i in range(N):
        if 0 <= i + k < M:
            a.raw[i, i + k] = one
    return a


def np_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    a = from_nested(obj) if not isinstance(obj, (SArr, ND)) else asarr(obj)
    if hasattr(obj, '_is_ssp'):
        a = obj.toarray()
    if dtype is not None:
        a = astype(a, kind_of_dtype(dtype))
        if is_single(dtype):
            a = singles(a)
    elif copy:
        a = mk(a.raw.copy(), a._k)
    while a.ndim < ndmin:
        a = a[None]
    return a


def np_asarray(obj, dtype=None, order=None, **kw):
    if isinstance(obj, SArr) and (dtype is None or kind_of_dtype(dtype) == obj._k):
        return obj
    return np_array(obj, dtype, copy=False)


def np_arange(start, stop=None, step=None, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    st, sp, se = S(start), S(stop), S(step)
    if st.k == 'i' and sp.k == 'i' and se.k == 'i':
        r = [S(i) for i in range(operator.index(st), operator.index(sp), operator.index(se))]
        k = 'i'
    else:
        n = -math.floor(-((sp.c - st.c) / se.c)) if all(v.c is not None for v in (st, sp, se)) else operator.index(f_trunc(-f_floor(-(sp - st) / se)))
        r = [cast(st + se * i, 'f') for i in range(max(n, 0))]
        k = 'f'
    a = mk(np.empty((len(r),), dtype=object), k)
    for i, v in enumerate(r):
        a.raw[i] = v
    if dtype is not None:
        a = astype(a, kind_of_dtype(dtype))
    return a


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **kw):
    n = operator.index(num)
    a, b = asarr(start), asarr(stop)
    if a.ndim or b.ndim:
        out = [np_linspace(x, y, n, endpoint) for x, y in zip(np.broadcast_arrays(a.raw, b.raw)[0], np.broadcast_arrays(a.raw, b.raw)[1])]
        return np_stack(out, axis=1)
    x, y = cast(a.raw[()], 'f'), cast(b.raw[()], 'f')
    div = (n - 1) if endpoint else n
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = x + (y - x) * Fraction(i, div) if div else x
    r = mk(out, 'f')
    if dtype is not None:
        r = astype(r, kind_of_dtype(dtype))
    if retstep:
        return r, (y - x) / div
    return r


def np_meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    arrs = [asarr(x) for x in xs]
    r = np.meshgrid(*[a.raw for a in arrs], indexing=indexing, sparse=sparse)
    return [mk(m.copy(), a._k) for m, a in zip(r, arrs)]


# --------------------------------------------------------------------------------------------------
# joining
def joiner(f):
    def g(arrays, *args, **kw):
        if isinstance(arrays, SArr):
            arrays = list(arrays)
        arrs = [asarr(a) for a in arrays]
        kw.pop('dtype', None)
        k = kmax(*[a._k for a in arrs]) if arrs else 'f'
        if len({a._k for a in arrs}) > 1:
            arrs = [astype(a, k) for a in arrs]
        return mk(f([a.raw for a in arrs], *concrete_int(args), **{n: concrete_int(v) for n, v in kw.items()}), k)
    return g


np_concatenate = joiner(np.concatenate)
np_vstack = joiner(np.vstack)
np_hstack = joiner(np.hstack)
np_stack = joiner(np.stack)
np_dstack = joiner(np.dstack)
np_column_stack = joiner(np.column_stack)


def np_block(arrays):
    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        a = asarr(x)
        ks.append(a._k)
        return a.raw
    ks = []
    r = np.block(conv(arrays))
    return astype(mk(r, kmax(*ks)), kmax(*ks)) if len(set(ks)) == 1 else from_nested(r)


def np_append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None:
        return np_concatenate([a.reshape(-1), v.reshape(-1)])
    return np_concatenate([a, v], axis=axis)


def np_insert(arr, obj, values, axis=None):
    a = asarr(arr)
    v = asarr(values)
    k = a._k
    return mk(np.insert(a.raw, concrete_int(obj), astype(v, k).raw, axis), k)


def np_delete(arr, obj, axis=None):
    a = asarr(arr)
    if isinstance(obj, SArr):
        obj = fix1(obj, a, True)
    elif isinstance(obj, (list, tuple)):
        obj = fix1(asarr(obj), a, True)
    elif isinstance(obj, slice):
        pass
    else:
        obj = operator.index(obj)
    return mk(np.delete(a.raw, obj, axis), a._k)


def np_where(c, x=None, y=None):
    c = asarr(c)
    if x is None:
        return np_nonzero(c)
    x, y = asarr(x), asarr(y)
    k = kmax(x._k, y._k)
    return scal(elementwise(lambda p, a, b: f_ite(cast(p, 'b'), cast(a, k), cast(b, k)), (c, x, y), k))


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = asarr(a)
    if a_min is not None:
        r = ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = ufunc(np.minimum, '__call__', (r, a_max), {})
    return r


def np_round(a, decimals=0, out=None):
    a = asarr(a)
    if decimals:
        f = 10 ** operator.index(decimals)
        if all(num(x).c is not None for x in a.raw.reshape(-1)):
            return scal(elementwise1(lambda x: S(Fraction(round(num(x).c * f), f)), a, a._k))
        return scal(elementwise1(lambda x: f_rint(num(x) * f) / f, a, 'f'))
    return scal(elementwise1(f_rint, a, a._k))


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **kw):
    a = asarr(ar)
    if axis is None:
        rows = [[x] for x in a.raw.reshape(-1)]
        shape_in = a.shape
    else:
        axis = concrete_int(axis)
        m = np.moveaxis(a.raw, axis, 0)
        rows = [list(m[i].reshape(-1)) for i in range(m.shape[0])]
        shape_in = None
    n = len(rows)

    def cmp(p, q):
        """-1, 0, 1"""
        eq = b_and(*[s_eq(u, v) for u, v in zip(rows[p], rows[q])])
        if bool(eq):
            return 0
        for u, v in zip(rows[p], rows[q]):
            if bool(_lt(u, v)):
                return -1
            if bool(_lt(v, u)):
                return 1
        return 0
    classes = []    # sorted list of lists of indices
    for i in range(n):
        # equality first (one query decides most), then position
        lo, hi = 0, len(classes)
        placed = False
        while lo < hi:
            mid = (lo + hi) // 2
            c = cmp(i, classes[mid][0])
            if c == 0:
                classes[mid].append(i)
                placed = True
                break
            if c < 0:
                hi = mid
            else:
                lo = mid + 1
        if not placed:
            classes.insert(lo, [i])
    first = [c[0] for c in classes]
    if axis is None:
        vals = np.empty((len(classes),), dtype=object)
        for i, f in enumerate(first):
            vals[i] = rows[f][0]
    else:
        vals = np.moveaxis(np.moveaxis(a.raw, axis, 0)[np.array(first, dtype=int)] if n else np.moveaxis(a.raw, axis, 0), 0, axis).copy()
    out = [mk(vals, a._k)]
    if return_index:
        out.append(asarr(np.array(first, dtype=int)))
    if return_inverse:
        inv = np.zeros(n, dtype=int)
        for j, c in enumerate(classes):
            for i in c:
                inv[i] = j
        if axis is None:
            inv = inv.reshape(shape_in)
        out.append(asarr(inv))
    if return_counts:
        out.append(asarr(np.array([len(c) for c in classes], dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def np_isin(a, test, assume_unique=False, invert=False, **kw):
    a, t = asarr(a), asarr(test)
    tl = list(t.raw.reshape(-1))
    f = lambda x: b_or(*[s_eq(x, y) for y in tl]) if tl else False
    r = elementwise1((lambda x: b_not(f(x))) if invert else f, a, 'b')
    return scal(r)


def np_setdiff1d(a, b, assume_unique=False):
    a = asarr(a).reshape(-1) if assume_unique else np_unique(a)
    m = np_isin(a, b, invert=True)
    return a[conc_mask(m.raw)]


def np_intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        ua, ia = np_unique(a, return_index=True)
        ub, ib = np_unique(b, return_index=True)
        return ua[conc_mask(np_isin(ua, ub).raw)], ia[conc_mask(np_isin(ua, ub).raw)], ib[conc_mask(np_isin(ub, ua).raw)]
    a = np_unique(a)
    return a[conc_mask(np_isin(a, b).raw)]


def np_union1d(a, b):
    return np_unique(np_concatenate([asarr(a).reshape(-1), asarr(b).reshape(-1)]))


def np_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    xs = list(x.raw.reshape(-1))
    if all(v.c is not None for v in xs):
        n = max([int(v.c) for v in xs] + [-1]) + 1
        n = max(n, operator.index(minlength))
        if any(v.c < 0 for v in xs):
            raise ValueError("'list' argument must have no negative elements")
    else:
        mx = f_minmax(xs, True)
        n = max(operator.index(mx) + 1, operator.index(minlength))
    out = np.empty((n,), dtype=object)
    w = list(asarr(weights).raw.reshape(-1)) if weights is not None else [S(1)] * len(xs)
    for j in range(n):
        s = S(0) if weights is None else S(Fraction(0))
        for v, ww in zip(xs, w):
            e = v == j
            if e is False:
                continue
            s = s + (num(ww) if e is True else core.toint(e) * num(ww))
        out[j] = s
    return mk(out, 'i' if weights is None else 'f')


def np_searchsorted(a, v, side='left', sorter=None):
    a, v = asarr(a), asarr(v)

    def f(x):
        lo, hi = 0, a.shape[0]
        while lo < hi:
            mid = (lo + hi) // 2
            y = a.raw[mid]
            c = bool(_lt(y, x)) if side == 'left' else not bool(_lt(x, y))
            if c:
                lo = mid + 1
            else:
                hi = mid
        return S(lo)
    return scal(elementwise1(f, v, 'i'))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarr(a), asarr(b)

    def f(x, y):
        x, y = num(x), num(y)
        if x.num is None or y.num is None:
            return (x.c == y.c) if x.c is not None and y.c is not None else False
        d = x - y
        t = S(atol) + S(rtol) * f_abs(y)
        return b_and(d <= t, -d <= t)
    return scal(elementwise(f, (a, b), 'b'))


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(np_isclose(a, b, rtol, atol, equal_nan))


def np_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return all_(elementwise(s_eq, (a, b), 'b'))


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    pi_ = S(posinf) if posinf is not None else S(Fraction(1.7976931348623157e308))
    ni_ = S(neginf) if neginf is not None else S(Fraction(-1.7976931348623157e308))

    def f(v):
        v = num(v)
        if v.num is None:
            if v.c != v.c:
                return S(nan)
            return pi_ if v.c > 0 else ni_
        return v
    r = elementwise1(f, x, x._k)
    if not copy:
        x[...] = r
        return x
    return scal(r)


def np_outer(a, b, out=None):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return elementwise(s_mul, (a[:, None], b[None, :]), kmax(a._k, b._k))


def np_unravel_index(ix, shape, order='C'):
    ix = asarr(ix)
    sh = tuple(operator.index(s) for s in (shape if isinstance(shape, (tuple, list, SArr)) else (shape,)))
    if all(num(x).c is not None for x in ix.raw.reshape(-1)):
        return tuple(scal(asarr(v)) for v in np.unravel_index(conc_ints(ix.raw) if ix.ndim else int(ix.raw[()]), sh, order))
    out = []
    dims = list(enumerate(sh))
    if order == 'C':
        dims = dims[::-1]
    rem = ix
    res = {}
    for d, s in dims:
        res[d] = rem % s
        rem = rem // s
    return tuple(scal(res[d]) for d in range(len(sh)))


def np_ravel_multi_index(mi, dims, mode='raise', order='C'):
    parts = [asarr(m) for m in mi]
    sh = tuple(operator.index(s) for s in dims)
    modes = mode if isinstance(mode, (tuple, list)) else (mode,) * len(sh)
    adj = []
    for p, s, md in zip(parts, sh, modes):
        if md == 'raise':
            bad = any_(elementwise1(lambda x: b_or(num(x) < 0, num(x) >= s), p, 'b'))
            if bool(bad):
                raise ValueError('invalid entry in coordinates array')
        elif md == 'clip':
            p = np_clip(p, 0, s - 1)
        elif md == 'wrap':
            p = p % s
        adj.append(p)
    order_dims = range(len(sh)) if order == 'C' else range(len(sh) - 1, -1, -1)
    r = S(0)
    for d in order_dims:
        r = adj[d] + r * sh[d]
    return r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = asarr(xp).raw.reshape(-1), asarr(fp).raw.reshape(-1)
    n = len(xp)

    def f(v):
        if bool(_lt(v, xp[0])):
            return cast(num(fp[0] if left is None else left), 'f')
        if bool(_lt(xp[n - 1], v)):
            return cast(num(fp[n - 1] if right is None else right), 'f')
        for i in range(n - 2, -1, -1):
            if not bool(_lt(v, xp[i])):
                return num(fp[i]) + (num(fp[i + 1]) - num(fp[i])) * (num(v) - num(xp[i])) / (num(xp[i + 1]) - num(xp[i]))
        return cast(num(fp[0]), 'f')
    return scal(elementwise1(f, asarr(x), 'f'))


def np_select(condlist, choicelist, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    return r


def np_choose(a, choices, out=None, mode='raise'):
    r = choices[-1]
    for i in range(len(choices) - 2, -1, -1):
        r = np_where(asarr(a) == i, choices[i], r)
    return r


def np_piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    condlist = [asarr(c) for c in condlist] if isinstance(condlist, (list, tuple)) else [asarr(condlist)]
    if condlist[0].ndim < x.ndim:
        condlist = [asarr(condlist)] if len(condlist) != len(x) else condlist
    out = np_zeros_like(x)
    m = [conc_mask(c.raw) for c in condlist]
    if len(funclist) == len(m) + 1:
        m.append(~np.logical_or.reduce(m))
    for c, f in zip(m, funclist):
        if c.any():
            out[c] = f(x[c], *args, **kw) if callable(f) else f
    return out


def np_extract(condition, arr_):
    return asarr(arr_).reshape(-1)[conc_mask(asarr(condition).raw.reshape(-1))]


def np_compress(condition, a, axis=None, out=None):
    m = np.nonzero(conc_mask(asarr(condition).raw))[0]
    return np_take(a, m, axis=axis)


def np_putmask(a, mask, values):
    v = asarr(values)
    m = conc_mask(asarr(mask).raw)
    if v.size == 1:
        a[m] = v.reshape(-1)[0]
    else:
        a[m] = np_resize_like(v, a)[m]


def np_place(a, mask, vals):
    v = asarr(vals)
    m = conc_mask(asarr(mask).raw)
    a[m] = v.reshape(-1)[0] if v.size == 1 else v.reshape(-1)[np.arange(int(m.sum())) % v.size]


def np_resize_like(v, a):
    return v.reshape(-1)[np.arange(a.size).reshape(a.shape) % v.size]


def np_put(a, ind, v, mode='raise'):
    a.reshape(-1)[asarr(ind).reshape(-1)] = asarr(v).reshape(-1) if asarr(v).ndim else v


def np_copyto(dst, src, casting='same_kind', where=True):
    src = asarr(src)
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')


def np_setxor1d(a, b, assume_unique=False):
    return np_unique(np_concatenate([np_setdiff1d(a, b), np_setdiff1d(b, a)]))


def np_ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported('ediff1d')
    return np_diff(asarr(a).reshape(-1))


def np_matrix_power(a, n):
    r = np_eye(asarr(a).shape[0])
    for _ in range(n):
        r = np_matmul(r, a)
    return r


def np_multi_dot(l, out=None):
    r = l[0]
    for x in l[1:]:
        r = np_dot(r, x)
    return r


def np_polyval(p, x):
    r = 0
    for q in (p.coeffs if hasattr(p, 'coeffs') else p):
        r = r * x + q
    return r


def np_convolve(a, v, mode='full'):
    a, v = asarr(a), asarr(v)
    n, m = a.shape[0], v.shape[0]
    if n < m:
        a, v, n, m = v, a, m, n
    o = [num(_sum_list([num(a.raw[i]) * num(v.raw[k - i]) for i in range(n) if 0 <= k - i < m])) for k in range(n + m - 1)]
    if mode == 'same':
        o = o[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        o = o[m - 1:n]
    return asarr(o)


def np_broadcast_arrays(*args, subok=False):
    sh = np.broadcast_shapes(*[asarr(a).shape for a in args])
    return tuple(FUNCS['broadcast_to'](a, sh) for a in args)


def np_fix(a):
    return ufunc(np.trunc, '__call__', (asarr(a),), {})


def np_accumulate_minmax(a, axis, mx):
    a = asarr(a)

    def f(l):
        o = [num(l[0])]
        for x in l[1:]:
            o.append(core.f_minmax([o[-1], num(x)], mx))
        return o
    return along(a, axis, f, a._k)


def np_einsum(*ops, **kw):
    kw.pop('optimize', None)
    sub, arrs = ops[0], [asarr(a) for a in ops[1:]]
    r = np.einsum(sub, *[a.raw for a in arrs])
    k = kmax(*[a._k for a in arrs])
    return mk(r, k) if isinstance(r, ND) else scalar_out(r, k)


def np_median(a, axis=None, **kw):
    a = asarr(a)

    def f(l):
        l = sort_list(l, 'f')
        n = len(l)
        return cast(l[n // 2], 'f') if n % 2 else (l[n // 2 - 1] + l[n // 2]) / 2
    return reduce_axes(a, axis, f, 'f')


def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis)
    a, w = asarr(a), asarr(weights)
    return np_sum(a * w, axis) / np_sum(w, axis)


def np_isscalar(x):
    return isinstance(x, (Sym, SB)) or np.isscalar(x)


def np_count_nonzero(a, axis=None, **kw):
    a = asarr(a)
    return np_sum(elementwise1(lambda x: core.toint(cast(x, 'b')), a, 'i'), axis)


def np_flatnonzero(a):
    return np_nonzero(asarr(a).reshape(-1))[0]


def np_argwhere(a):
    return np_stack(list(np_nonzero(a)), axis=-1)


def np_take(a, indices, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        return a.reshape(-1)[indices]
    return a[(slice(None),) * axis + (indices,)]


def np_ix_(*args):
    return np.ix_(*[fix1(asarr(a), None, True) for a in args])


def np_diag(v, k=0):
    v = asarr(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        r = np_zeros((n, n), v._k)
        for i in range(v.shape[0]):
            r.raw[i + max(-k, 0), i + max(k, 0)] = v.raw[i]
        return r
    return mk(np.diagonal(v.raw, k).copy(), v._k)


def np_kron(a, b):
    a, b = asarr(a), asarr(b)
    return mk(np.kron(a.raw, b.raw), kmax(a._k, b._k))


def np_put_along_axis(arr, indices, values, axis):
    np.put_along_axis(arr.raw, conc_ints(asarr(indices).raw), asarr(values).raw, axis)


def np_take_along_axis(arr, indices, axis=-1):
    a = asarr(arr)
    return mk(np.take_along_axis(a.raw, conc_ints(asarr(indices).raw), axis), a._k)


def np_fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = val


def np_ndim(a):
    return a.ndim if hasattr(a, 'ndim') else asarr(a).ndim


def np_shape(a):
    return asarr(a).shape


def np_size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def np_lstsq(*a, **k):
    raise Unsupported('lstsq')


def np_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = asarr(arr)
    m = np.moveaxis(a.raw, axis, -1)
    res = [asarr(func1d(mk(m[j], a._k), *args, **kw)) for j in np.ndindex(m.shape[:-1])]
    r = np_stack(res)
    return r.reshape(m.shape[:-1] + res[0].shape) if res[0].ndim == 0 else mk(np.moveaxis(r.raw.reshape(m.shape[:-1] + res[0].shape), -1, axis), r._k)


def np_vectorize(f, *a, **k):
    def g(*args):
        return np_array(elementwise(lambda *xs: f(*xs), args, 'O').tolist())
    return g


def np_savetxt(*a, **k):
    raise Unsupported('savetxt')


FUNCS = {
    'sum': np_sum, 'prod': np_prod, 'product': np_prod, 'mean': np_mean, 'var': np_var, 'max': np_max, 'amax': np_max, 'min': np_min, 'amin': np_min, 'nanmax': np_max, 'nanmin': np_min, 'nansum': np_sum,
    'any': any_, 'all': all_, 'argmax': np_argmax, 'argmin': np_argmin, 'sort': np_sort, 'argsort': np_argsort, 'lexsort': np_lexsort, 'nonzero': np_nonzero,
    'cumsum': np_cumsum, 'cumprod': np_cumprod, 'diff': np_diff, 'dot': np_dot, 'inner': lambda a, b: np_dot(a, asarr(b).T), 'vdot': lambda a, b: np_dot(asarr(a).reshape(-1), asarr(b).reshape(-1)),
    'tensordot': np_tensordot, 'cross': np_cross, 'trace': np_trace,
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full, 'zeros_like': np_zeros_like, 'ones_like': np_ones_like, 'empty_like': np_empty_like,
    'full_like': np_full_like, 'eye': np_eye, 'identity': lambda n, dtype=None, **k: np_eye(n, dtype=dtype), 'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'asfortranarray': np_asarray, 'copy': lambda a, **k: np_array(a), 'arange': np_arange, 'linspace': np_linspace, 'meshgrid': np_meshgrid,
    'concatenate': np_concatenate, 'concat': np_concatenate, 'vstack': np_vstack, 'row_stack': np_vstack, 'hstack': np_hstack, 'stack': np_stack, 'dstack': np_dstack, 'column_stack': np_column_stack,
    'block': np_block, 'append': np_append, 'insert': np_insert, 'delete': np_delete, 'where': np_where, 'clip': np_clip, 'round': np_round, 'around': np_round,
    'unique': np_unique, 'isin': np_isin, 'in1d': np_isin, 'setdiff1d': np_setdiff1d, 'intersect1d': np_intersect1d, 'union1d': np_union1d, 'bincount': np_bincount, 'searchsorted': np_searchsorted,
    'isclose': np_isclose, 'allclose': np_allclose, 'array_equal': np_array_equal, 'nan_to_num': np_nan_to_num, 'outer': np_outer, 'unravel_index': np_unravel_index,
    'ravel_multi_index': np_ravel_multi_index, 'interp': np_interp, 'einsum': np_einsum, 'median': np_median, 'average': np_average, 'isscalar': np_isscalar, 'count_nonzero': np_count_nonzero,
    'flatnonzero': np_flatnonzero, 'argwhere': np_argwhere, 'take': np_take, 'ix_': np_ix_, 'diag': np_diag, 'kron': np_kron, 'put_along_axis': np_put_along_axis,
    'take_along_axis': np_take_along_axis, 'fill_diagonal': np_fill_diagonal, 'ndim': np_ndim, 'shape': np_shape, 'size': np_size, 'apply_along_axis': np_apply_along_axis,
    'vectorize': np_vectorize, 'matmul': np_matmul, 'real': lambda a: a, 'savetxt': np_savetxt, 'std': lambda a, axis=None, **k: np_sqrt(np_var(a, axis, **k)),
    'ptp': lambda a, axis=None: np_max(a, axis) - np_min(a, axis),
    'select': np_select, 'choose': np_choose, 'piecewise': np_piecewise, 'extract': np_extract, 'compress': np_compress, 'putmask': np_putmask, 'place': np_place, 'put': np_put, 'copyto': np_copyto,
    'digitize': np_digitize, 'setxor1d': np_setxor1d, 'ediff1d': np_ediff1d, 'polyval': np_polyval, 'convolve': np_convolve, 'fix': np_fix, 'partition': lambda a, kth, axis=-1, **k: np_sort(a, axis),
    'array_equiv': np_array_equal, 'diagflat': lambda v, k=0: np_diag(asarr(v).reshape(-1), k), 'nanargmin': lambda a, axis=None: np_argmin(a, axis), 'nanargmax': lambda a, axis=None: np_argmax(a, axis),
}
LINALG = {'matrix_power': np_matrix_power, 'multi_dot': np_multi_dot, 'norm': np_norm, 'det': np_det, 'solve': np_solve, 'inv': np_inv, 'lstsq': np_lstsq, 'vector_norm': np_norm, 'cross': np_cross}

# functions that only move elements around: safe to run on the raw object array, keeping the kind
MOVERS = {'reshape', 'transpose', 'squeeze', 'expand_dims', 'tile', 'repeat', 'ravel', 'flip', 'fliplr', 'flipud', 'roll', 'moveaxis', 'swapaxes', 'atleast_1d', 'atleast_2d', 'atleast_3d',
          'broadcast_to', 'rot90', 'split', 'array_split', 'hsplit', 'vsplit', 'triu', 'tril', 'pad', 'rollaxis', 'resize', 'diagonal', 'broadcast_arrays', 'trim_zeros', 'require', 'permute_dims', 'matrix_transpose'}


def mover(name):
    f = getattr(np, name)

    def g(a, *args, **kw):
        if name == 'broadcast_arrays' or (name.startswith('atleast') and args):
            return [mover1(x, f, (), {}) for x in (a,) + args]
        return mover1(a, f, args, kw)

    def mover1(a, f, args, kw):
        a = asarr(a)
        args = [concrete_int(x) for x in args]
        kw = {n: concrete_int(v) for n, v in kw.items()}
        r = f(a.raw, *args, **kw)
        if isinstance(r, (list, tuple)):
            return [mk(x, a._k) for x in r]
        if isinstance(r, ND) and r.dtype != object:
            return asarr(r)
        if name in ('triu', 'tril', 'pad', 'resize'):
            r = np.array([S(x) if isinstance(x, int) else x for x in r.reshape(-1)] + [None], dtype=object)[:-1].reshape(r.shape)
        return mk(r, a._k) if isinstance(r, ND) else scalar_out(r, a._k)
    g.__name__ = name
    return g


for _n in MOVERS:
    if hasattr(np, _n):
        FUNCS[_n] = mover(_n)
FUNCS['broadcast_arrays'] = np_broadcast_arrays


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if 'linalg' in mod and name in LINALG:
        return LINALG[name](*args, **kwargs)
    f = FUNCS.get(name)
    if f is not None and 'linalg' not in mod:
        return f(*args, **kwargs)
    raise Unsupported('numpy function %s.%s' % (mod, name))


# --------------------------------------------------------------------------------------------------
# the stand-in module
class FakeRng:
    """arbitrary values within the documented ranges"""

    def _draw(self, name, lo, hi, size, strict_hi=True):
        def one():
            def con(v):
                return []
            no = core.CTX.fresh.get(name, 0)
            r = core.fresh_real(name, con, [])
            core.CTX.on_rng('%s#%d' % (name, no), core.ATOMS[next(iter(r.atoms()))], 'f')
            core.CTX.assume(r >= lo)
            core.CTX.assume(r < hi if strict_hi else r <= hi)
            hook = getattr(core.CTX, 'on_draw', None)
            if hook:
                hook(r)
            return r
        if size is None:
            return one()
        if isinstance(size, (int, Sym, np.integer)):
            size = (operator.index(size),)
        sh = tuple(operator.index(s) for s in size)
        out = np.empty(sh, dtype=object)
        for j in np.ndindex(sh):
            out[j] = one()
        return mk(out, 'f')

    def random(self, size=None, dtype=None, out=None):
        return self._draw('rnd', S(0), S(1), size)

    def rand(self, *size):
        return self._draw('rnd', S(0), S(1), size or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = asarr(low), asarr(high)
        if size is None and (lo.ndim or hi.ndim):
            size = np.broadcast_shapes(lo.shape, hi.shape)
        u = self._draw('rnd', S(0), S(1), size)
        return lo + (hi - lo) * u if (lo.ndim or hi.ndim) else scal(lo) + (scal(hi) - scal(lo)) * u

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.choice(np_arange(low, S(high) + (1 if endpoint else 0)), size)

    randint = integers

    def choice(self, a, size=None, replace=True, p=None, **kw):
        vals = asarr(a)
        if vals.ndim == 0:
            vals = np_arange(vals.raw[()])
        n = vals.shape[0]
        if not replace:
            raise Unsupported('choice without replacement')
        pl = list(asarr(p).raw) if p is not None else None

        def one():
            no = core.CTX.fresh_no('pick!int')
            at, new = core.new_atom(('pick', no), 'pick!%d' % len(core.ATOMS), 'i')
            core.CTX.on_rng('pick#%d' % no, at, 'i')
            s = Sym(core.Poly.atom(at.id), None, 'i')
            core.CTX.assume(b_and(s >= 0, s < n))
            j = operator.index(s)
            if pl is not None:
                core.CTX.assume(num(pl[j]) > 0)
            hook = getattr(core.CTX, 'on_pick', None)
            if hook:
                hook(j, pl)
            return vals.raw[j]
        if size is None:
            return scalar_out(one(), vals._k)
        if isinstance(size, (int, Sym, np.integer)):
            size = (operator.index(size),)
        out = np.empty(tuple(operator.index(s) for s in size), dtype=object)
        for j in np.ndindex(out.shape):
            out[j] = one()
        return mk(out, vals._k)

    def normal(self, loc=0.0, scale=1.0, size=None):
        core.CTX.assumed.add('normal draws are arbitrary values of absolute value at most 1e6')
        return self._draw('nrm', S(-10 ** 6), S(10 ** 6), size) * scale + loc

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size or None)

    def multivariate_normal(self, *a, **k):
        raise Unsupported('multivariate_normal')

    def permutation(self, *a):
        raise Unsupported('permutation')


class FakeRandom(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.random')
        r = FakeRng()
        self.default_rng = lambda *a, **k: FakeRng()
        self.seed = lambda *a, **k: None
        self.Generator = np.random.Generator
        self.RandomState = lambda *a, **k: FakeRng()
        for n in ('random', 'rand', 'uniform', 'randint', 'choice', 'normal', 'randn', 'standard_normal', 'permutation', 'multivariate_normal'):
            setattr(self, n, getattr(r, n))
        self.random_sample = r.random


def _wrap_ufunc(uf):
    name = uf.__name__

    class W:
        __name__ = name
        nin = uf.nin

        def __call__(self, *args, **kw):
            n = uf.nin
            if len(args) > n:
                kw['out'] = (args[n],)
                args = args[:n]
            o = kw.get('out')
            if o is not None and not isinstance(o, tuple):
                kw['out'] = (o,)
            if o is None:
                kw.pop('out', None)
            kw.pop('dtype', None)
            kw.pop('casting', None)
            return ufunc(uf, '__call__', args, kw)

        def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
            return ufunc(uf, 'reduce', (a,), {'axis': axis, 'keepdims': keepdims})

        def accumulate(self, a, axis=0, dtype=None, out=None):
            return ufunc(uf, 'accumulate', (a,), {'axis': axis})

        def at(self, a, ix, b=None):
            return ufunc(uf, 'at', (a, ix, b), {})

        def outer(self, a, b, **kw):
            return ufunc(uf, 'outer', (a, b), {})
    return W()


def _guard(name, f):
    """a numpy function with no model: fine on plain arguments"""
    def g(*args, **kw):
        def chk(x):
            if isinstance(x, (SArr, Sym, SB)) or hasattr(x, '_is_ssp'):
                raise Unsupported('numpy function %s' % name)
            if isinstance(x, (list, tuple)):
                for y in x:
                    chk(y)
        for a in args:
            chk(a)
        for a in kw.values():
            chk(a)
        return wrap(f(*args, **kw))
    g.__name__ = name
    return g


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        for n in dir(np):
            if n.startswith('__'):
                continue
            try:
                v = getattr(np, n)
            except Exception:
                continue
            if isinstance(v, np.ufunc):
                d[n] = _wrap_ufunc(v)
            elif n in FUNCS:
                d[n] = FUNCS[n]
            elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
                d[n] = v
            else:
                d[n] = _guard(n, v)
        for n, f in FUNCS.items():
            if hasattr(np, n):
                d[n] = f
        d['abs'] = d['absolute']
        la = types.ModuleType('numpy.linalg')
        for n in dir(np.linalg):
            v = getattr(np.linalg, n)
            if n.startswith('__'):
                continue
            la.__dict__[n] = LINALG.get(n) or (v if isinstance(v, (type, types.ModuleType)) or not callable(v) else _guard(n, v))
        d['linalg'] = la
        d['random'] = FakeRandom()
        d['r_'] = _R(np.r_, 0)
        d['c_'] = _R(np.c_, 1)
        for n in ('float64', 'float32', 'double', 'single', 'float_', 'longdouble'):
            d[n] = _ScalarType('f', n)
        for n in ('int64', 'int32', 'int_', 'intp', 'int16', 'int8', 'uint64', 'uint32', 'uint8', 'uint', 'intc', 'longlong', 'long', 'uint16'):
            d[n] = _ScalarType('i', n)
        d['bool_'] = _ScalarType('b', 'bool_')
        d['bool'] = d['bool_']

    def __getattr__(self, n):
        if n == 'pi':
            pass
        return getattr(np, n)


class _ScalarTypeMeta(type):
    def __instancecheck__(cls, x):
        return False


class _ScalarType:
    """np.float64 and friends: usable as dtype, as conversion and in isinstance"""

    def __new__(cls, kind, name):
        real = getattr(np, name, None) or {'f': np.float64, 'i': np.int64, 'b': np.bool_}[kind]

        class Meta(type):
            def __instancecheck__(c, x):
                return isinstance(x, real) or (isinstance(x, Sym) and x.k == kind and name in ('float64', 'double', 'float_', 'int64', 'int_', 'intp', 'long')) or (kind == 'b' and isinstance(x, SB))

            def __subclasscheck__(c, x):
                return issubclass(x, real)

            def __call__(c, x=0, *a):
                if isinstance(x, (list, tuple, ND)):
                    return np_array(x, dtype=c if is_single(real) else kind)
                return single(cast(x, kind)) if is_single(real) else cast(x, kind)

            def __eq__(c, o):
                return o is c or o is real or o == np.dtype(real)

            def __hash__(c):
                return hash(real)
        return Meta(name, (), {'_symkind': kind, 'dtype': np.dtype(real), '_real': real})


class _R:
    def __init__(self, real, axis):
        self.real = real
        self.axis = axis

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        parts = []
        for p in ix:
            if isinstance(p, slice):
                if isinstance(p.step, complex):
                    parts.append(np_linspace(p.start, p.stop, int(abs(p.step))))
                else:
                    parts.append(np_arange(p.start or 0, p.stop, p.step or 1))
            elif isinstance(p, str):
                raise Unsupported('r_ string')
            else:
                parts.append(asarr(p))
        if self.axis == 0:
            parts = [p.reshape(1) if p.ndim == 0 else p for p in parts]
            return np_concatenate(parts, axis=0)
        parts = [p.reshape(1, 1) if p.ndim == 0 else (p.reshape(-1, 1) if p.ndim == 1 else p) for p in parts]
        return np_concatenate(parts, axis=1)
