"""a stand-in for scipy.sparse (dense-backed) and the scipy entry points gpytoolbox uses"""
import operator
import types
from fractions import Fraction
import numpy as np
import scipy
import scipy.sparse
import scipy.linalg
import scipy.sparse.linalg
import scipy.sparse.csgraph
import scipy.spatial
import scipy.stats
import scipy.ndimage
import scipy.interpolate
import scipy.special
from . import core, arr
from .core import S, SB, Sym, Unsupported, b_and, b_or
from .arr import SArr, mk, asarr, kmax, cast, scalar_out, num


def is_sp(x):
    return hasattr(x, '_is_ssp')


def to_dense(x):
    if is_sp(x):
        return x.A_
    if scipy.sparse.issparse(x):
        return asarr(x.toarray())
    return asarr(x)


class SSp:
    _is_ssp = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, A, fmt='csr', isarr=False, mask=None):
        self.A_ = A             # 2-d SArr
        self.format = fmt
        self.isarr = isarr
        self._mask = mask       # explicit pattern (bool ndarray) or None

    # -------------------------------------------------------------- basic
    @property
    def shape(self):
        return self.A_.shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return self.A_.dtype

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        return SSp(self.A_.T, self.format, self.isarr)

    def _new(self, A, fmt=None):
        return SSp(A, fmt or self.format, self.isarr)

    def toarray(self, *a, **k):
        return self.A_.copy()

    def todense(self, *a, **k):
        return self.A_.copy()

    def __array__(self, dtype=None, copy=None):
        raise Unsupported('array of sparse')

    def copy(self):
        return self._new(self.A_.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def tocsr(self, *a, **k):
        return self._new(self.A_, 'csr')

    def tocsc(self, *a, **k):
        return self._new(self.A_, 'csc')

    def tocoo(self, *a, **k):
        return self._new(self.A_, 'coo')

    def tolil(self, *a, **k):
        return self._new(self.A_.copy(), 'lil')

    def todok(self, *a, **k):
        return self._new(self.A_.copy(), 'dok')

    def asformat(self, f, copy=False):
        return self._new(self.A_, f)

    def astype(self, t, *a, **k):
        return self._new(self.A_.astype(t))

    def eliminate_zeros(self):
        return None

    def sum_duplicates(self):
        return None

    def sort_indices(self):
        return None

    def conj(self):
        return self

    def get_shape(self):
        return self.shape

    def getformat(self):
        return self.format

    # -------------------------------------------------------------- structure
    def _coords(self):
        """(rows, cols) of entries that are not zero; forks on undecided entries"""
        order = 'F' if self.format == 'csc' else 'C'
        n, m = self.shape
        out = []
        rng = ((i, j) for j in range(m) for i in range(n)) if order == 'F' else ((i, j) for i in range(n) for j in range(m))
        for i, j in rng:
            v = self.A_.raw[i, j]
            z = cast(v, 'b') if self.A_._k == 'b' else (num(v) != 0)
            if bool(z):
                out.append((i, j))
        return out

    @property
    def nnz(self):
        s = S(0)
        for v in self.A_.raw.reshape(-1):
            z = v if isinstance(v, (SB, bool)) else (num(v) != 0)
            s = s + (core.toint(z) if isinstance(z, SB) else int(z))
        return s if s.c is None else int(s.c)

    def count_nonzero(self):
        return self.nnz

    @property
    def row(self):
        return asarr(np.array([i for i, j in self._coords()], dtype=int))

    @property
    def col(self):
        return asarr(np.array([j for i, j in self._coords()], dtype=int))

    @property
    def data(self):
        c = self._coords()
        return self.A_[np.array([i for i, j in c], dtype=int), np.array([j for i, j in c], dtype=int)]

    @property
    def indices(self):
        return self.row if self.format == 'csc' else self.col

    @property
    def indptr(self):
        c = self._coords()
        ax = 1 if self.format == 'csc' else 0
        n = self.shape[ax]
        return asarr(np.array([sum(1 for t in c if t[ax] < r) for r in range(n + 1)], dtype=int))

    def nonzero(self):
        return self.row, self.col

    def diagonal(self, k=0):
        return mk(np.diagonal(self.A_.raw, k).copy(), self.A_._k)

    def setdiag(self, v, k=0):
        n = min(self.shape)
        v = asarr(v)
        for i in range(n):
            self.A_[i, i] = v.raw[i] if v.ndim else v.raw[()]

    # -------------------------------------------------------------- indexing
    def __getitem__(self, ix):
        if is_sp(ix):
            raise Unsupported('sparse matrix as an index')
        if not isinstance(ix, tuple):
            ix = (ix, slice(None))
        ix = tuple(arr.fix1(i, self.A_, True) for i in ix)
        if len(ix) == 1:
            ix = ix + (slice(None),)
        r, c = ix
        if isinstance(r, (int, np.integer)) and isinstance(c, (int, np.integer)):
            return self.A_[int(r), int(c)]
        rr, cc = np.asarray(r) if isinstance(r, (list, np.ndarray)) else r, np.asarray(c) if isinstance(c, (list, np.ndarray)) else c
        if isinstance(rr, np.ndarray) and isinstance(cc, np.ndarray):
            sub = self.A_.raw[rr, cc]
            if sub.ndim == 1:
                return mk(sub[None, :], self.A_._k) if not self.isarr else mk(sub, self.A_._k)
            return self._new(mk(sub, self.A_._k))
        if isinstance(rr, (int, np.integer)):
            if self.isarr:
                raise Unsupported('1-d sparse array')
            rr = slice(rr, rr + 1 if rr != -1 else None)
        if isinstance(cc, (int, np.integer)):
            if self.isarr:
                raise Unsupported('1-d sparse array')
            cc = slice(cc, cc + 1 if cc != -1 else None)
        sub = self.A_.raw[rr, :][:, cc]
        return self._new(mk(sub.copy(), self.A_._k))

    def __setitem__(self, ix, v):
        if is_sp(v):
            v = v.A_
        if is_sp(ix):
            ix = ix.A_
        self.A_[ix] = v

    def getrow(self, i):
        return self[int(i)]

    def getcol(self, i):
        return self[:, int(i)]

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    # -------------------------------------------------------------- arithmetic
    def __matmul__(self, o):
        if is_sp(o):
            return self._new(arr.np_matmul(self.A_, o.A_))
        return arr.np_matmul(self.A_, to_dense(o))

    def __rmatmul__(self, o):
        return arr.np_matmul(to_dense(o), self.A_)

    def dot(self, o):
        if isinstance(o, (Sym, int, float)):
            return self * o
        return self @ o

    def __mul__(self, o):
        if isinstance(o, (Sym, SB, int, float, Fraction, np.number)):
            return self._new(self.A_ * o)
        if isinstance(o, SArr) and o.ndim == 0:
            return self._new(self.A_ * o.raw[()])
        if self.isarr:
            return self.multiply(o)
        return self @ o

    def __rmul__(self, o):
        if isinstance(o, (Sym, SB, int, float, Fraction, np.number)):
            return self._new(self.A_ * o)
        if isinstance(o, SArr) and o.ndim == 0:
            return self._new(self.A_ * o.raw[()])
        if self.isarr:
            return self.multiply(o)
        return arr.np_matmul(to_dense(o), self.A_)

    def __truediv__(self, o):
        return self._new(self.A_ / (to_dense(o) if not isinstance(o, (Sym, int, float)) else o))

    def multiply(self, o):
        if is_sp(o):
            return self._new(self.A_ * o.A_)
        return self._new(self.A_ * o)

    def maximum(self, o):
        return self._new(arr.FUNCS['where'](self.A_ >= (o.A_ if is_sp(o) else o), self.A_, o.A_ if is_sp(o) else o))

    def minimum(self, o):
        return self._new(arr.FUNCS['where'](self.A_ <= (o.A_ if is_sp(o) else o), self.A_, o.A_ if is_sp(o) else o))

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        raise Unsupported('getnnz axis')

    def _addsub(self, o, op):
        if is_sp(o):
            if self.shape != o.shape:
                raise ValueError('inconsistent shapes')
            return self._new(op(self.A_, o.A_))
        if isinstance(o, (int, float, Sym)):
            if isinstance(o, (int, float)) and o == 0 or (isinstance(o, Sym) and o.c == 0):
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        return op(self.A_, to_dense(o))

    def __add__(self, o):
        return self._addsub(o, operator.add)

    def __sub__(self, o):
        return self._addsub(o, operator.sub)

    def __radd__(self, o):
        return self._addsub(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._addsub(o, lambda a, b: b - a)

    def __neg__(self):
        return self._new(-self.A_)

    def __abs__(self):
        return self._new(abs(self.A_))

    def __pow__(self, n):
        if self.isarr:
            return self._new(self.A_ ** n)
        r = self
        for _ in range(int(n) - 1):
            r = r @ self
        return r

    def power(self, n, dtype=None):
        # stored entries only
        A = self.A_.copy()
        for j in np.ndindex(*self.shape):
            v = num(A.raw[j])
            if (self._mask is not None and self._mask[j]) or not (v.c is not None and v.c == 0):
                A.raw[j] = core.f_pow(v, S(n))
        return self._new(A)

    def sqrt(self):
        return self._new(arr.np_sqrt(self.A_))

    def _cmp(self, o, op):
        b = o.A_ if is_sp(o) else o
        return self._new(op(self.A_, b))

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)
    __hash__ = None

    def sum(self, axis=None, **k):
        if axis is None:
            return arr.np_sum(self.A_)
        return arr.np_sum(self.A_, axis, keepdims=not self.isarr)

    def mean(self, axis=None, **k):
        if axis is None:
            return arr.np_mean(self.A_)
        return arr.np_mean(self.A_, axis, keepdims=not self.isarr)

    def max(self, axis=None, **k):
        return arr.np_max(self.A_, axis)

    def min(self, axis=None, **k):
        return arr.np_min(self.A_, axis)

    def trace(self):
        return arr.np_trace(self.A_)

    def reshape(self, *sh):
        return self._new(self.A_.reshape(*sh))

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().')

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz()')

    def __repr__(self):
        return 'SSp(%s)' % (self.A_,)


# --------------------------------------------------------------------------------------------------
def conv(x, fmt=None, isarr=False):
    if is_sp(x):
        return SSp(x.A_, fmt or x.format, isarr)
    return SSp(to_dense(x), fmt or 'csr', isarr)


def _dim(v):
    return operator.index(v)


def make(fmt, isarr):
    def construct(arg1, shape=None, dtype=None, copy=False, **kw):
        if is_sp(arg1) or scipy.sparse.issparse(arg1):
            r = SSp(to_dense(arg1), fmt, isarr)
            if copy:
                r = r.copy()
        elif isinstance(arg1, tuple) and len(arg1) == 2 and not isinstance(arg1[1], (int, np.integer, Sym)):
            data, ij = arg1
            I, J = asarr(ij[0]).reshape(-1), asarr(ij[1]).reshape(-1)
            if isinstance(data, (int, float, Sym, SB)):
                raise TypeError('object of type %s has no len()' % type(data).__name__)
            D = asarr(data)
            if D.ndim != 1 or asarr(ij[0]).ndim != 1:
                if asarr(ij[0]).ndim != 1 and D.ndim != asarr(ij[0]).ndim:
                    raise ValueError('row, column, and data arrays must be 1-D')
                raise ValueError('coo: data must be 1-D')
            if not (I.shape == J.shape == D.shape):
                raise ValueError('all index and data arrays must have the same length')
            if I.size and (I._k == 'f' or J._k == 'f'):
                if all(num(x).c is not None and num(x).num is not None and Fraction(num(x).c).denominator == 1 for x in list(I.raw) + list(J.raw)):
                    I, J = I.astype('i'), J.astype('i')
                else:
                    raise ValueError('non-integer sparse coordinates')
            if shape is None:
                if I.size == 0:
                    raise ValueError('cannot infer dimensions from zero sized index arrays')
                n = operator.index(core.f_minmax(list(I.raw), True)) + 1
                m = operator.index(core.f_minmax(list(J.raw), True)) + 1
            else:
                n, m = _dim(shape[0]), _dim(shape[1])
            k = D._k if D._k in 'fib' else 'f'
            if I.size == 0:
                k = D._k
            A = arr.np_zeros((n, m), k)
            R = A.raw
            for t in range(I.shape[0]):
                i, j, d = num(I.raw[t]), num(J.raw[t]), D.raw[t]
                if i.c is not None and j.c is not None:
                    if not (0 <= i.c < n and 0 <= j.c < m):
                        raise ValueError('row index exceeds matrix dimensions' if not 0 <= i.c < n else 'column index exceeds matrix dimensions')
                    R[int(i.c), int(j.c)] = (num(R[int(i.c), int(j.c)]) + d) if k != 'b' else b_or(R[int(i.c), int(j.c)], d)
                    continue
                ok = b_and(i >= 0, i < n, j >= 0, j < m)
                if not bool(ok):
                    raise ValueError('index exceeds matrix dimensions')
                for p in range(n):
                    ep = i == p
                    if ep is False:
                        continue
                    for q in range(m):
                        e = b_and(ep, j == q)
                        if e is False:
                            continue
                        if k == 'b':
                            R[p, q] = b_or(R[p, q], b_and(e, d))
                        elif e is True:
                            R[p, q] = num(R[p, q]) + d
                        else:
                            R[p, q] = num(R[p, q]) + cast(core.toint(e), k) * num(d)
            r = SSp(A, fmt, isarr)
        elif isinstance(arg1, tuple) and len(arg1) == 2:
            r = SSp(arr.np_zeros((_dim(arg1[0]), _dim(arg1[1])), dtype), fmt, isarr)
        elif isinstance(arg1, tuple) and len(arg1) == 3:
            data, ind, ptr = [asarr(x) for x in arg1]
            ptr = arr.conc_ints(ptr.raw)
            ind = arr.conc_ints(ind.raw)
            n = len(ptr) - 1
            mm = (max(ind) + 1 if len(ind) else 0)
            if shape is None:
                shape = (n, mm) if fmt != 'csc' else (mm, n)
            A = arr.np_zeros((_dim(shape[0]), _dim(shape[1])), data._k)
            for i in range(n):
                for t in range(ptr[i], ptr[i + 1]):
                    p = (i, ind[t]) if fmt != 'csc' else (ind[t], i)
                    A.raw[p] = num(A.raw[p]) + data.raw[t]
            r = SSp(A, fmt, isarr)
        else:
            a = asarr(arg1)
            if a.ndim == 1:
                a = a[None, :]
            if a.ndim == 0:
                a = a.reshape(1, 1)
            if shape is not None:
                if tuple(a.shape) != tuple(_dim(s) for s in shape):
                    raise ValueError('inconsistent shapes')
            r = SSp(a.copy(), fmt, isarr)
        if dtype is not None:
            r = r.astype(dtype)
        return r
    return construct


class _CtorMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, SSp) and (c._fmt is None or (x.format == c._fmt)) and (c._arr is None or x.isarr == c._arr)

    def __call__(c, *a, **k):
        return make(c._fmt, c._arr)(*a, **k)


def ctor(fmt, isarr, name):
    return _CtorMeta(name, (), {'_fmt': fmt, '_arr': isarr})


def sp_eye(m, n=None, k=0, dtype=float, format=None, **kw):
    return SSp(arr.np_eye(m, n, operator.index(k), dtype), format or 'csr', False)


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None, isarr=False):
    off = offsets
    if isinstance(off, (int, Sym, np.integer)):
        d = asarr(diagonals)
        if d.ndim == 2:
            d = d[0]
        ds, offs = [d], [operator.index(off)]
    else:
        offs = [operator.index(o) for o in off]
        ds = [asarr(d) for d in diagonals]
    if shape is None:
        n = ds[0].shape[0] + abs(offs[0])
        shape = (n, n)
    n, m = _dim(shape[0]), _dim(shape[1])
    k = kmax(*[d._k for d in ds])
    A = arr.np_zeros((n, m), 'f' if k == 'f' else k)
    for d, o in zip(ds, offs):
        ln = min(n + min(o, 0), m - max(o, 0))
        if d.ndim == 0:
            d = d.reshape(1)
        if d.shape[0] != ln and d.shape[0] != 1:
            raise ValueError('Diagonal length (index 0: %d at offset %d) does not agree with array size (%d, %d).' % (d.shape[0], o, n, m))
        for t in range(ln):
            A.raw[t + max(-o, 0), t + max(o, 0)] = d.raw[t if d.shape[0] > 1 or ln == 1 else 0]
    r = SSp(A, format or 'dia', isarr)
    return r if dtype is None else r.astype(dtype)


def sp_spdiags(data, diags, m=None, n=None, format=None):
    data = arr.np_array(data)
    if data.ndim == 1:
        data = data[None]
    if m is not None and n is None:
        m, n = m
    if m is None:
        m = n = data.shape[1]
    diags = [operator.index(d) for d in (asarr(diags).raw.reshape(-1))]
    A = arr.np_zeros((_dim(m), _dim(n)), data._k)
    for r, o in enumerate(diags):
        for j in range(min(data.shape[1], A.shape[1])):
            i = j - o
            if 0 <= i < A.shape[0]:
                A.raw[i, j] = data.raw[r, j]
    return SSp(A, format or 'dia', False)


def _stack(f):
    def g(blocks, format=None, dtype=None):
        bs = [conv(b) for b in blocks]
        isarr = any(is_sp(b) and b.isarr for b in blocks)
        return SSp(f([b.A_ for b in bs]), format or 'csr', isarr)
    return g


def sp_vstack(blocks, format=None, dtype=None):
    bs = [to_dense(b) if not (isinstance(b, SArr) and b.ndim == 1) else b[None, :] for b in blocks]
    if len({b.shape[1] for b in bs}) > 1:
        raise ValueError('incompatible dimensions for axis 1')
    return SSp(arr.np_concatenate(bs, axis=0), format or 'csr', any(is_sp(b) and b.isarr for b in blocks))


def sp_hstack(blocks, format=None, dtype=None):
    bs = [to_dense(b) if not (isinstance(b, SArr) and b.ndim == 1) else b[None, :] for b in blocks]
    if len({b.shape[0] for b in bs}) > 1:
        raise ValueError('incompatible dimensions for axis 0')
    return SSp(arr.np_concatenate(bs, axis=1), format or 'csr', any(is_sp(b) and b.isarr for b in blocks))


def sp_bmat(blocks, format=None, dtype=None, isarr=False):
    if isinstance(blocks, SArr) or (isinstance(blocks, np.ndarray)):
        blocks = blocks.tolist()
    rows = [list(r) if isinstance(r, (list, tuple, np.ndarray)) else [r] for r in blocks]
    nr, nc = len(rows), len(rows[0])
    hs, ws = [None] * nr, [None] * nc
    D = [[None] * nc for _ in range(nr)]
    for i in range(nr):
        for j in range(nc):
            b = rows[i][j]
            if b is None:
                continue
            d = to_dense(b)
            if d.ndim == 1:
                d = d[None, :]
            if d.ndim == 0:
                d = d.reshape(1, 1)
            D[i][j] = d
            if hs[i] is not None and hs[i] != d.shape[0]:
                raise ValueError('blocks[%d,:] has incompatible row dimensions.' % i)
            if ws[j] is not None and ws[j] != d.shape[1]:
                raise ValueError('blocks[:,%d] has incompatible column dimensions.' % j)
            hs[i], ws[j] = d.shape
    # a row or column of empty blocks has no extent
    hs, ws = [h or 0 for h in hs], [w or 0 for w in ws]
    k = kmax(*[d._k for r in D for d in r if d is not None])
    A = arr.np_zeros((sum(hs), sum(ws)), k)
    for i in range(nr):
        for j in range(nc):
            if D[i][j] is not None and D[i][j].size:
                A[sum(hs[:i]):sum(hs[:i + 1]), sum(ws[:j]):sum(ws[:j + 1])] = D[i][j]
    return SSp(A, format or 'coo', isarr or any(is_sp(b) and b.isarr for r in rows for b in r))


def sp_block_diag(mats, format=None, dtype=None):
    ds = [to_dense(m) for m in mats]
    ds = [d[None, :] if d.ndim == 1 else (d.reshape(1, 1) if d.ndim == 0 else d) for d in ds]
    A = arr.np_zeros((sum(d.shape[0] for d in ds), sum(d.shape[1] for d in ds)), kmax(*[d._k for d in ds]))
    i = j = 0
    for d in ds:
        if d.size:
            A[i:i + d.shape[0], j:j + d.shape[1]] = d
        i += d.shape[0]
        j += d.shape[1]
    return SSp(A, format or 'coo', any(is_sp(b) and b.isarr for b in mats))


def sp_kron(a, b, format=None):
    return SSp(arr.np_kron(to_dense(a), to_dense(b)), format or 'csr', False)


def sp_find(A):
    A = conv(A)
    return A.row, A.col, A.data


def sp_issparse(x):
    return is_sp(x) or scipy.sparse.issparse(x)


def sp_tri(up):
    def g(A, k=0, format=None):
        D = to_dense(A).copy()
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                if (j - i < k) if up else (j - i > k):
                    D.raw[i, j] = cast(S(0), D._k)
        return SSp(D, format or 'csr', False)
    return g


def cg_connected_components(csgraph, directed=True, connection='weak', return_labels=True):
    A = to_dense(csgraph)
    n = A.shape[0]
    if directed and connection == 'strong':
        raise Unsupported('strong components')
    parent = list(range(n))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            v = A.raw[i, j]
            if isinstance(v, Sym) and v.c is not None and v.c == 0:
                continue
            if v is False:
                continue
            if find(i) == find(j):
                continue
            z = v if isinstance(v, (SB, bool)) else (num(v) != 0)
            if bool(z):
                a, b = find(i), find(j)
                parent[max(a, b)] = min(a, b)
    roots = []
    lab = []
    for i in range(n):
        r = find(i)
        if r not in roots:
            roots.append(r)
        lab.append(roots.index(r))
    if not return_labels:
        return len(roots)
    return len(roots), asarr(np.array(lab, dtype=int)) if n else asarr(np.zeros(0, dtype=int))


class SuperLU:
    def __init__(self, A):
        self.A = to_dense(A)
        if self.A.shape[0] != self.A.shape[1]:
            raise ValueError('can only factor square matrices')

    def solve(self, b, trans='N'):
        b = to_dense(b)
        vec = b.ndim == 1
        B = b.reshape(-1, 1) if vec else b
        M = self.A if trans == 'N' else self.A.T
        try:
            X = arr.solve_any(M, B)
        except arr.Singular:
            raise RuntimeError('Factor is exactly singular')
        X = mk(X, 'f')
        return X.reshape(-1) if vec else X

    def __call__(self, b):
        return self.solve(b)


def spsolve(A, b, *a, **k):
    bb = to_dense(b)
    one = bb.ndim == 2 and bb.shape[1] == 1
    X = SuperLU(A).solve(bb)
    if is_sp(b) and not one:
        return SSp(X, 'csc', False)
    return X.reshape(-1) if one else X


def iterative(A, b, x0=None, **k):
    """an iterative solver that has converged"""
    return spsolve(A, b), 0


def gaussian_filter(image, *a, **k):
    """of known values: what the library computes, rounding and all"""
    image = asarr(image)
    v = [num(x).c for x in image.raw.reshape(-1)]
    if any(x is None for x in v):
        raise Unsupported('blurring unknown values')
    return asarr(scipy.ndimage.gaussian_filter(np.array([float(x) for x in v]).reshape(image.shape), *a, **k))


class KDTree:
    def __init__(self, data, *a, **k):
        self.data = asarr(data)
        self.n, self.m = self.data.shape

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        if p != 2:
            raise Unsupported('query_ball_point in another norm')
        x = asarr(x)
        one = x.ndim == 1
        X = x.reshape(1, -1) if one else x
        out = np.empty(X.shape[0], dtype=object)
        for i in range(X.shape[0]):
            l = []
            for j in range(self.n):
                d = sum(((num(X.raw[i, k]) - num(self.data.raw[j, k])) * (num(X.raw[i, k]) - num(self.data.raw[j, k])) for k in range(self.m)), S(0))
                if bool(d <= num(r) * num(r)):
                    l.append(j)
            out[i] = len(l) if return_length else l
        return out[0] if one else out


    def query(self, x, k=1, eps=0, p=2.0, distance_upper_bound=None, workers=1):
        if p != 2 or distance_upper_bound is not None and not (isinstance(distance_upper_bound, float) and distance_upper_bound == float('inf')):
            raise Unsupported('query of a tree in another norm')
        x = asarr(x)
        one = x.ndim == 1
        X = x.reshape(1, -1) if one else x
        kk = k if isinstance(k, int) else None
        if kk is None or kk > self.n:
            raise Unsupported('query of a tree for several ranks')
        dd, ii = [], []
        for i in range(X.shape[0]):
            d2 = [sum(((num(X.raw[i, q]) - num(self.data.raw[j, q])) * (num(X.raw[i, q]) - num(self.data.raw[j, q])) for q in range(self.m)), S(0)) for j in range(self.n)]
            o = arr.np_argsort(asarr(d2))[:kk]
            ii.append(o)
            dd.append(arr.np_sqrt(asarr(d2)[o]))
        D, I = arr.np_stack(dd), arr.np_stack(ii)
        if kk == 1:
            D, I = D[:, 0], I[:, 0]
        return (D[0], I[0]) if one else (D, I)


class interp1d:
    """one-dimensional interpolation along the first axis"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind == 'cubic':
            kind = 3
        if kind not in ('linear', 'nearest', 'nearest-up', 3) or bounds_error is not None or fill_value is not None:
            raise Unsupported('interp1d %s' % (kind,))
        x, y = arr.asarr(x), arr.asarr(y)
        if y.ndim > 1 and axis % y.ndim:
            raise Unsupported('interp1d along another axis')
        if x.shape[0] != y.shape[0]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if x.shape[0] < (kind + 1 if kind == 3 else 1):
            raise ValueError('not enough points')
        if not assume_sorted:
            i = arr.np_argsort(x, kind='mergesort')
            x, y = x[i], y[i]
        self.x, self.y, self.kind = x, arr.astype(y, 'f'), kind

    def __call__(self, t):
        t = arr.asarr(t)
        x = [arr.num(v) for v in self.x.raw]
        y = np.asarray(self.y.raw, dtype=object)
        out = np.empty(t.shape + y.shape[1:], dtype=object)
        if self.kind == 3:
            return self._cubic(t)
        n = len(x)
        for j in np.ndindex(*t.shape):
            v = arr.num(t.raw[j])
            if bool(v < x[0]):
                raise ValueError("A value in x_new is below the interpolation range's minimum value.")
            if bool(v > x[-1]):
                raise ValueError("A value in x_new is above the interpolation range's maximum value.")
            if self.kind in ('nearest', 'nearest-up'):
                k = 0
                # the boundary between two points belongs to the lower one ('nearest') or to the upper one
                while k < n - 1 and bool((v > (x[k] + x[k + 1]) / 2) if self.kind == 'nearest' else (v >= (x[k] + x[k + 1]) / 2)):
                    k += 1
                row = y[k]
            elif n == 1:
                raise Unsupported('interp1d of one point')
            else:
                k = 1
                while k < n - 1 and bool(v > x[k]):
                    k += 1
                w = (v - x[k - 1]) / (x[k] - x[k - 1])
                row = y[k - 1] + (y[k] - y[k - 1]) * w
            out[j] = row
        return arr.mk(out, 'f')

    def _cubic(self, t):
        """for constant points the interpolant is a fixed linear map of the values"""
        import scipy.interpolate as real
        try:
            x = np.array([float(arr.num(v).c) for v in self.x.raw])
            tt = np.array([float(arr.num(v).c) for v in t.raw.reshape(-1)])
        except TypeError:
            raise Unsupported('cubic interp1d at unknown points')
        M = real.interp1d(x, np.eye(len(x)), axis=0, kind='cubic')(tt)
        # at the points themselves it is exact
        for i, v in enumerate(tt):
            for k, u in enumerate(x):
                if abs(v - u) < 1e-14:
                    M[i] = np.eye(len(x))[k]
        r = arr.asarr(M) @ self.y.reshape(len(x), -1)
        return r.reshape(t.shape + self.y.shape[1:])


def build_scipy():
    sparse = types.ModuleType('scipy.sparse')
    real = scipy.sparse

    def guard(n, v):
        return v if isinstance(v, (type, types.ModuleType)) or not callable(v) else arr._guard('scipy.' + n, v)
    for n in dir(real):
        if not n.startswith('__'):
            sparse.__dict__[n] = guard(n, getattr(real, n))
    for f in ('csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'dia'):
        sparse.__dict__[f + '_matrix'] = ctor(f, False, f + '_matrix')
        sparse.__dict__[f + '_array'] = ctor(f, True, f + '_array')
    sparse.__dict__['spmatrix'] = ctor(None, False, 'spmatrix')
    sparse.__dict__['sparray'] = ctor(None, True, 'sparray')
    d = sparse.__dict__
    d.update(eye=sp_eye, identity=lambda n, dtype=float, format=None: sp_eye(n, dtype=dtype, format=format), eye_array=sp_eye, diags=sp_diags,
             diags_array=lambda diagonals, offsets=0, shape=None, format=None, dtype=None: sp_diags(diagonals, offsets, shape, format, dtype, True), spdiags=sp_spdiags, vstack=sp_vstack, hstack=sp_hstack,
             bmat=sp_bmat, block_array=lambda b, format=None, dtype=None: sp_bmat(b, format, dtype, True), block_diag=sp_block_diag, kron=sp_kron, find=sp_find, issparse=sp_issparse, isspmatrix=sp_issparse,
             tril=sp_tri(False), triu=sp_tri(True))
    la = types.ModuleType('scipy.sparse.linalg')
    for n in dir(real.linalg):
        if not n.startswith('__'):
            la.__dict__[n] = guard(n, getattr(real.linalg, n))
    la.__dict__.update(splu=SuperLU, spsolve=spsolve, factorized=SuperLU, spilu=SuperLU, cg=iterative, minres=iterative, gmres=iterative, bicg=iterative, bicgstab=iterative,
                       norm=lambda A, *a, **k: arr.np_norm(to_dense(A)))
    d['linalg'] = la
    cg = types.ModuleType('scipy.sparse.csgraph')
    for n in dir(real.csgraph):
        if not n.startswith('__'):
            cg.__dict__[n] = guard(n, getattr(real.csgraph, n))
    cg.__dict__['connected_components'] = cg_connected_components
    d['csgraph'] = cg
    sp = types.ModuleType('scipy')
    for n in dir(scipy):
        if not n.startswith('__'):
            try:
                sp.__dict__[n] = guard(n, getattr(scipy, n))
            except Exception:
                pass
    sp.__dict__['sparse'] = sparse
    lin = types.ModuleType('scipy.linalg')

    for n in dir(scipy.linalg):
        if not n.startswith('__'):
            lin.__dict__[n] = guard(n, getattr(scipy.linalg, n))
    def dense_block_diag(*l):
        return to_dense(sp_block_diag([construct_dense(x) for x in l]))

    def construct_dense(x):
        return sparse.__dict__['csr_matrix'](arr.FUNCS['atleast_2d'](x))

    def lu_solve(f, b, **k):
        return arr.np_solve(f[0], b)
    lin.__dict__.update(block_diag=dense_block_diag, lu_factor=lambda A, **k: (asarr(A).copy(), None), lu_solve=lu_solve, cho_factor=lambda A, **k: (asarr(A).copy(), None), cho_solve=lu_solve)
    la.__dict__['inv'] = lambda A: sparse.__dict__['csc_matrix'](arr.np_inv(to_dense(A)))
    lin.__dict__.update(norm=arr.np_norm, det=arr.np_det, inv=arr.np_inv, solve=arr.np_solve)
    sp.__dict__['linalg'] = lin
    sp.__dict__['__version__'] = scipy.__version__
    spatial = types.ModuleType('scipy.spatial')

    import scipy.spatial as real_spatial
    for n in dir(real_spatial):
        if not n.startswith('__'):
            spatial.__dict__[n] = guard(n, getattr(real_spatial, n))
    spatial.__dict__.update(KDTree=KDTree, cKDTree=KDTree)
    sp.__dict__['spatial'] = spatial
    ndimage = types.ModuleType('scipy.ndimage')
    for n in dir(scipy.ndimage):
        if not n.startswith('__'):
            ndimage.__dict__[n] = guard(n, getattr(scipy.ndimage, n))
    ndimage.__dict__['gaussian_filter'] = gaussian_filter
    sp.__dict__['ndimage'] = ndimage
    interpolate = types.ModuleType('scipy.interpolate')

    import scipy.interpolate as real_interpolate
    for n in dir(real_interpolate):
        if not n.startswith('__'):
            interpolate.__dict__[n] = guard(n, getattr(real_interpolate, n))
    interpolate.__dict__['interp1d'] = interp1d
    sp.__dict__['interpolate'] = interpolate
    mods = {'scipy': sp, 'scipy.ndimage': ndimage, 'scipy.ndimage.filters': ndimage, 'scipy.interpolate': interpolate, 'scipy.spatial': spatial, 'scipy.sparse': sparse, 'scipy.sparse.linalg': la, 'scipy.sparse.csgraph': cg, 'scipy.linalg': lin}
    return mods
