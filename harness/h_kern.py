"""K01 kernels and matrices of them, K02 Gaussian processes"""
import itertools
from math import comb, factorial, prod
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20}


def points(c, name, n, d, form):
    """n points of dimension d, as a matrix or, in one dimension, as a vector or a number"""
    x = c.reals(name, n, d)
    if form == 'vector':
        return c.array([x[i, 0] for i in range(n)]), x
    if form == 'number':
        return x[0, 0], x
    return x, x


@H('K01', 'up to two pairs of points in 1, 2 or 3 dimensions, every length (one or one per pair), scale and derivative', cfg=CFG,
   quick=[dict(d=1, n=2), dict(d=2, n=2), dict(d=3, n=1)], thorough=[dict(d=d, n=n) for d in (1, 2, 3) for n in (1, 2, 3)])
def sqexp(c, d, n):
    form = ['matrix', 'vector', 'number'][c.concrete_int('form', 0, 1 + (n == 1) if d == 1 else 0)]
    A, a = points(c, 'a', n, d, form)
    B, b = points(c, 'b', n, d, form)
    i, j = c.concrete_int('i', -1, d - 1), c.concrete_int('j', -1, d - 1)
    kw = {}
    lens = c.concrete_int('length', 0, 4)
    ls, s = [c.frac(1, 5)] * n, 1
    if lens >= 3:       # an integer, a 0-d array
        kw['length'] = 2 if lens == 3 else c.array(c.frac(1, 2), dtype='f')
        ls = [2 if lens == 3 else c.frac(1, 2)] * n
    if lens == 1:
        kw['length'] = l = c.real('l')
        ls = [l] * n
    if lens == 2:
        kw['length'] = c.reals('l', n)
        ls = c.items(kw['length'])
    for l in ls if lens else []:
        c.assume(c.ge(l, c.frac(1, 16)))
    if lens:
        s = kw['scale'] = c.real('s')
    if (i, j) != (-1, -1) or c.concrete_int('say', 0, 1):
        kw['derivatives'] = (i, j)
    K = c.g.squared_exponential_kernel(A, B, **kw)
    c.check(c.b(tuple(K.shape) == (n,)), 'one value per pair')
    for q in range(n):
        r = [a[q, t] - b[q, t] for t in range(d)]
        w = 1 / (ls[q] * ls[q])
        e = s * c.np.exp(0 - c.frac(1, 2) * sum((x * x for x in r), 0) * w)
        if i >= 0 and j >= 0:
            e = e * ((i == j) * w - w * w * r[i] * r[j])
        elif i >= 0:
            e = 0 - e * w * r[i]
        elif j >= 0:
            e = e * w * r[j]
        c.check(c.eq(K[q], e), 'the kernel or derivative has the value of the Gaussian')


def spline(c, n, x, der):
    """the n-fold convolution of the unit box with itself (n + 1 boxes), or a derivative, by truncated powers"""
    v = 0
    for k in range(n + 2):
        y = x + c.frac(n + 1, 2) - k
        if c.decide(c.gt(y, 0)):
            t = 1
            for _ in range(n - der):
                t = t * y
            v = v + (-1) ** k * comb(n + 1, k) * t
    return v * c.frac(1, factorial(n - der)) if n >= der else 0


def one_spline(c, n, x, der):
    """by symmetry, evaluated where x is not negative; on a knot of the derivative the answer is None"""
    sign = 1
    if c.decide(c.lt(x, 0)):
        x, sign = 0 - x, (-1) ** der
    for k in range((n + 1) % 2, n + 2, 2):
        if c.decide(c.le(x, c.frac(k, 2))):
            c.decide(c.lt(x, c.frac(k, 2)))
            break
    if der >= n:
        for k in range(n + 2):
            if c.decide(c.eq(x + c.frac(n + 1, 2) - k, 0)):
                return None
    if c.decide(c.ge(x, c.frac(n + 1, 2))):
        return 0
    return sign * spline(c, n, x, der)


@H('K01', 'one point in 1, 2 or 3 dimensions, every center, scale, order and second derivative', cfg=CFG, budget=120,
   quick=[dict(n=n, d=1) for n in (1, 2, 3, 4)] + [dict(n=2, d=2), dict(n=1, d=3)], thorough=[dict(n=n, d=d) for d in (1, 2) for n in (1, 2, 3, 4)] + [dict(n=1, d=3), dict(n=2, d=3)])
def bump(c, n, d):
    form = ['matrix', 'vector'][c.concrete_int('form', 0, 1 if d == 1 else 0)]
    t = c.reals('t', 1, d)
    kw = dict(n=n)
    m = [0] * d
    s = 1
    opt = c.concrete_int('given', 0, 2)
    if opt >= 1:
        kw['center'] = c.reals('m', d)
        m = c.items(kw['center'])
    if opt == 2:
        s = kw['sigma'] = c.real('s')
        c.assume(c.and_(c.ge(s, c.frac(1, 16)), c.le(s, 16)))
    for x in m + [t[0, k] for k in range(d)]:
        c.assume(c.and_(c.le(x, 8), c.ge(x, -8)))
    der = c.concrete_int('der', -1, d - 1)
    if der >= 0:
        kw['second_derivative'] = der
    want = 1
    for k in range(d):
        y = one_spline(c, n, t[0, k], 2 if k == der else 0)
        if y is None:
            return
        want = want * y
    X = c.array([[m[k] + s * t[0, k] for k in range(d)]])
    v = c.g.compactly_supported_normal(X if form == 'matrix' else c.array([X[0, 0]]), **kw)
    p = d + 2 * (der >= 0)
    c.check(c.b(tuple(v.shape) == (1,)), 'one value per point')
    for _ in range(p):
        want = want / s
    c.check(c.eq(v[0], want), 'the value is that of the repeated convolution of the box')
    if der < 0:
        c.check(c.ge(v[0], 0), 'the bump is not negative')


@H('K01', 'one pair of points in 1 or 2 dimensions, every length, scale and derivative', cfg=CFG, budget=120,
   quick=[dict(d=1), dict(d=2)], thorough=[dict(d=1), dict(d=2), dict(d=3)])
def compact(c, d):
    t = c.reals('t', d)
    b = c.reals('b', d)
    for x in c.items(t) + c.items(b):
        c.assume(c.and_(c.le(x, 8), c.ge(x, -8)))
    if d > 1:       # the knots are covered in one dimension
        for x in c.items(t):
            for k in (-2, -1, 0, 1, 2):
                c.assume(c.not_(c.eq(x, k)))
    i, j = c.concrete_int('i', -1, d - 1), c.concrete_int('j', -1, d - 1)
    kw = {}
    opt = c.concrete_int('length', 0, 2) if d < 3 else 2
    l, s = c.frac(1, 5), 1
    if opt:
        l, s = c.real('l'), c.real('s')
        c.assume(c.and_(c.ge(l, c.frac(1, 16)), c.le(l, 16)))
        kw = dict(length=l if opt == 1 else c.array([l]), scale=s)
    if (i, j) != (-1, -1):
        kw['derivatives'] = (i, j)
    A = [b[k] + l * t[k] for k in range(d)]
    flat = d == 1 and c.concrete_int('form', 0, 1)
    want = s
    for k in range(d):
        der = (i == k) + (j == k)
        want = want * one_spline(c, 3, t[k], der)
    if j >= 0:
        want = 0 - want
    K = c.g.compactly_supported_normal_kernel(c.array(A if flat else [A]), b if flat else c.array([[b[k] for k in range(d)]]), **kw)
    c.check(c.b(tuple(K.shape) == (1,)), 'one value per pair')
    for _ in range(d + (i >= 0) + (j >= 0)):
        K = K * l
    c.check(c.eq(K[0], want), 'the kernel or derivative has the value of the cubic spline')


@H('K01', 'up to 3 by 2 points, a function of both points, sparse or not, every pattern of up to 2 pairs', cfg=CFG,
   quick=[dict(n=2, m=3, d=2), dict(n=3, m=2, d=1), dict(n=1, m=2, d=1)], thorough=[dict(n=n, m=m, d=d) for n in (1, 2, 3) for m in (1, 2, 3) for d in (1, 2)])
def matrix(c, n, m, d):
    A, B = c.reals('a', n, d), c.reals('b', m, d)
    w = c.reals('w', 3)

    def fun(X, Y):
        return w[0] * X[:, 0] + w[1] * Y[:, d - 1] + w[2] * X[:, d - 1] * Y[:, 0]

    def at(i, j):
        return w[0] * A[i, 0] + w[1] * B[j, d - 1] + w[2] * A[i, d - 1] * B[j, 0]
    kind = c.concrete_int('kind', 0, 3)
    pattern = None
    if kind == 0:
        M = c.g.matrix_from_function(fun, A, B)
    elif kind == 1:
        M = c.g.matrix_from_function(fun, A, B, sparse=False)
    elif kind == 2:
        M = c.g.matrix_from_function(fun, A, B, sparse=True)
    else:
        pairs = [(i, j) for i in range(n) for j in range(m)]
        k = c.concrete_int('first', 0, len(pairs) - 1)
        q = c.concrete_int('second', 0, len(pairs) - 1)
        pattern = [pairs[k]] + ([pairs[q]] if q != k else [])
        lists = [[p[0] for p in pattern], [p[1] for p in pattern]]
        if c.concrete_int('arrays', 0, 1):
            lists = [c.array(x, dtype=int) for x in lists]
        M = c.g.matrix_from_function(fun, A, B, sparsity_pattern=lists)
    c.check(c.b(tuple(M.shape) == (n, m)), 'one row per first and one column per second point')
    if kind != 1:
        M = M.toarray()
    for i in range(n):
        for j in range(m):
            c.check(c.eq(M[i, j], at(i, j) if pattern is None or (i, j) in pattern else 0), 'the entries are the values of the function at the listed pairs')


# ---------------------------------------------------------------------------------------------------------------------- K02
class Kernel:
    """an arbitrary symmetric kernel on finitely many points, and its derivatives"""

    def __init__(self, c, pts, dim, grads, support=None, apart=0):
        self.c, self.pts, self.dim, self.support = c, pts, dim, support
        n = len(pts)
        self.size = n
        idx = [(p, q) for q in range(dim + 1 if grads else 1) for p in range(n)]
        self.v = {}
        for a in range(len(idx)):
            for b in range(a + 1):
                (p, i), (q, j) = idx[a], idx[b]
                if p < apart and q < apart:
                    # independent observations
                    x = c.real('k_%d_%d' % (p, i)) if a == b else 0
                elif support is not None and c.decide(c.ge(self.dist2(pts[p], pts[q]), support * support)):
                    x = 0
                else:
                    x = c.real('k_%d_%d_%d_%d' % (p, i, q, j))
                    if support is not None:
                        c.assume(c.and_(c.ge(x, c.frac(1, 64)), c.le(x, 64)))
                self.v[p, i, q, j] = self.v[q, j, p, i] = x

    @staticmethod
    def dist2(p, q):
        return sum((a - b) ** 2 for a, b in zip(p, q))

    def find(self, x):
        for i, p in enumerate(self.pts):
            if all(self.c.decide(self.c.eq(a, b)) for a, b in zip(x, p)):
                return i
        return None

    def __call__(self, X1, X2, derivatives=(-1, -1)):
        c = self.c
        i, j = derivatives
        out = []
        for x, y in zip(c.mat(X1).tolist(), c.mat(X2).tolist()):
            p, q = self.find(x), self.find(y)
            if p is None or q is None:
                # asked for elsewhere, to look for the end of the support
                out.append(1 if self.support is None or c.decide(c.lt(self.dist2(x, y), self.support * self.support)) else 0)
            else:
                out.append(self.v[p, i + 1, q, j + 1])
        return c.array(out)

    def at(self, P, Q):
        """rows and columns ordered by derivative first"""
        return lambda a, b: self.v[P[a % len(P)], a // len(P), Q[b % len(Q)], b // len(Q)]


def solve_by_cramer(c, M, B):
    d = c.det(M)
    n = len(M)
    out = []
    for b in B:
        out.append([c.det([[b[r] if k == j else M[r][k] for k in range(n)] for r in range(n)]) for j in range(n)])
    return d, out


@H('K02', 'up to 3 training and 2 test points, arbitrary kernel values and observations, every noise level; lumped or not, precomputed or not; gradients at one point, or at two points in the plane with independent observations', cfg=dict(CFG, linsolve='auto'), budget=120,
   quick=[dict(n=1, m=2, d=1), dict(n=2, m=2, d=1), dict(n=2, m=1, d=2), dict(n=1, m=1, d=1, grads=1), dict(n=3, m=1, d=1, mean=1), dict(n=2, m=1, d=1, lump=1),
          dict(n=2, m=1, d=2, grads=1, apart=1, mean=1), dict(n=1, m=1, d=3, grads=1, apart=1, mean=1), dict(n=1, m=1, d=2, grads=1, apart=1)],
   thorough=[dict(n=n, m=m, d=d) for n in (1, 2, 3) for m in (1, 2) for d in (1, 2)] + [dict(n=1, m=1, d=d, grads=1) for d in (1, 2)] + [dict(n=1, m=2, d=1, grads=1)] + [dict(n=n, m=2, d=1, lump=1) for n in (1, 2, 3)])
def posterior(c, n, m, d, grads=0, lump=0, mean=0, apart=0):
    pts = [[3 * i + k for k in range(d)] for i in range(n)] + [[3 * i + 1 + 5 * k for k in range(d)] for i in range(m)]
    ker = Kernel(c, pts, d, grads, apart=n if apart else 0)
    X, T = c.array(pts[:n], dtype=float), c.array(pts[n:], dtype=float)
    y = c.reals('y', n)
    s = c.real('sigma')
    gy = c.reals('gy', n, d) if grads else None
    P, Q = list(range(n)), list(range(n, n + m))
    e = d + 1 if grads else 1
    N, M = n * e, m * e
    K3, K2, K1 = ker.at(P, P), ker.at(P, Q), ker.at(Q, Q)
    A = [[K3(a, b) for b in range(N)] for a in range(N)]
    if lump:
        A = [[sum(A[a], 0) if a == b else 0 for b in range(N)] for a in range(N)]
    A = [[A[a][b] + (s * s if a == b else 0) for b in range(N)] for a in range(N)]
    D = c.det([list(r) for r in A])
    for k in range(1, N + 1):       # positive definite
        x = c.det([list(r[:k]) for r in A[:k]])
        c.assume(c.ge(x, c.frac(1, 4)))
    obs = c.items(y) + ([gy[i, k] for k in range(d) for i in range(n)] if grads else [])
    kw = dict(kernel=ker, sigma_n=s)
    if lump:
        kw['lump_K3'] = True
    if grads:
        kw['grad_y_train'] = gy
    pre = c.concrete_int('pre', 0, 2)
    keep = c.items(y) + (c.items(gy) if grads else [])
    if pre == 0 and not mean:
        mu, cov = c.g.gaussian_process(X, y, T, **kw)
    else:
        gp = c.g.gaussian_process_precompute(X, y, **kw)
        if pre == 2:
            gp.predict(X)
        mu, cov = gp.predict(T, mean_only=True) if mean else gp.predict(T)
    for a, b in zip(keep, c.items(y) + (c.items(gy) if grads else [])):
        c.check(c.eq(a, b), 'the observations are unchanged')
    mu = c.items(mu)
    c.check(c.b(len(mu) == M), 'one mean per test point (and derivative)')
    _, (al,) = solve_by_cramer(c, A, [obs])
    for b in range(M):
        c.check(c.eq(mu[b] * D, sum((K2(a, b) * al[a] for a in range(N)), 0)), 'the mean is that of the conditioned Gaussian')
    if mean:
        c.check(c.b(cov is None), 'no covariance when only the mean is asked for')
        return
    C = c.mat(cov)
    c.check(c.b(tuple(C.shape) == (M, M)), 'one covariance per pair of test points')
    _, W = solve_by_cramer(c, A, [[K2(a, b) for a in range(N)] for b in range(M)])
    for a in range(M):
        for b in range(M):
            c.check(c.eq(C[a, b] * D, K1(a, b) * D - sum((K2(t, a) * W[b][t] for t in range(N)), 0)), 'the covariance is that of the conditioned Gaussian')


@H('K02', 'one or two inducing, up to 2 training and one test point, arbitrary kernel values and observations, every noise level of at least 1/8', cfg=dict(CFG, linsolve='auto'), budget=120,
   quick=[dict(q=1, n=1), dict(q=1, n=2), dict(q=2, n=1), dict(q=1, n=1, grads=1), dict(q=1, n=1, m=2), dict(q=1, n=2, mean=1)], thorough=[dict(q=2, n=1, mean=1)] + [dict(q=q, n=n, m=m) for q in (1, 2) for n in (1, 2, 3) for m in (1, 2)] + [dict(q=1, n=n, grads=1) for n in (1, 2)])
def inducing(c, q, n, m=1, grads=0, mean=0):
    pts = [[i] for i in range(q + n + m)]
    ker = Kernel(c, pts, 1, grads)
    X = c.array(pts, dtype=float)
    y = c.reals('y', n)
    s = c.real('sigma')
    c.assume(c.ge(s, c.frac(1, 8)))
    gy = c.reals('gy', n, 1) if grads else None
    U, P, Q = list(range(q)), list(range(q, q + n)), list(range(q + n, q + n + m))
    e = 2 if grads else 1
    Km, Kn, K2, K1 = ker.at(U, U), ker.at(U, P), ker.at(U, Q), ker.at(Q, Q)
    A = [[Km(a, b) for b in range(q * e)] for a in range(q * e)]
    B = [[s * s * A[a][b] + sum((Kn(a, t) * Kn(b, t) for t in range(n * e)), 0) for b in range(q * e)] for a in range(q * e)]
    for k in range(1, q * e + 1):       # positive definite
        c.assume(c.ge(c.det([list(r[:k]) for r in A[:k]]), c.frac(1, 4)))
        c.nonneg(c.det([list(r[:k]) for r in B[:k]]))
    c.assume(c.gt(c.det([list(r) for r in B]), 0))
    obs = c.items(y) + (c.items(gy) if grads else [])
    kw = dict(kernel=ker, sigma_n=s, X_induced=X[:q])
    if grads:
        kw['grad_y_train'] = gy
    if mean:
        gp = c.g.gaussian_process_precompute(X[q:q + n], y, **kw)
        gp.predict(X[:q])
        mu, cov = gp.predict(X[q + n:], mean_only=True)
        c.check(c.b(cov is None), 'no covariance when only the mean is asked for')
        _, cov = gp.predict(X[q + n:])
    else:
        mu, cov = c.g.gaussian_process(X[q:q + n], y, X[q + n:], **kw)
    D, sol = solve_by_cramer(c, B, [[sum((Kn(a, t) * obs[t] for t in range(n * e)), 0) for a in range(q * e)]] + [[K2(a, b) for a in range(q * e)] for b in range(m * e)])
    E, W = solve_by_cramer(c, A, [[K2(a, b) for a in range(q * e)] for b in range(m * e)])
    mu, C = c.items(mu), c.mat(cov)
    c.check(c.b(len(mu) == m * e and tuple(C.shape) == (m * e, m * e)), 'one mean and covariance per test point (and derivative)')
    for b in range(m * e):
        c.check(c.eq(mu[b] * D, sum((K2(a, b) * sol[0][a] for a in range(q * e)), 0)), 'the mean is that of the inducing approximation')
        for a in range(m * e):
            want = K1(a, b) * D * E - sum((K2(t, a) * W[b][t] for t in range(q * e)), 0) * D + sum((K2(t, a) * sol[1 + b][t] for t in range(q * e)), 0) * s * s * E
            c.check(c.eq(C[a, b] * D * E, want), 'the covariance is that of the inducing approximation')


@H('K02', 'up to 2 training and 2 test points in 1 or 2 dimensions, kernels of support 0.3, 0.9, 1.7, arbitrary values inside', cfg=dict(CFG, linsolve='auto'), budget=120,
   quick=[dict(d=1), dict(d=2), dict(d=1, n=2), dict(d=2, ind=1)], thorough=[dict(d=1), dict(d=2), dict(d=3), dict(d=2, n=2), dict(d=1, ind=1)])
def support(c, d, n=1, ind=0):
    R = [c.frac(3, 10), c.frac(9, 10), c.frac(17, 10)][c.concrete_int('R', 0, 2)]
    u = c.concrete_int('direction', 0, d)
    step = [c.frac(1, 4), c.frac(4, 5), c.frac(3, 2)]
    w = [(1 if u == d or k == u else 0) for k in range(d)]
    pts = [[0] * d] + [[0 - step[1] * (k + 1)] + [0] * (d - 1) for k in range(n - 1)] + [[step[i] * x for x in w] for i in range(3)]
    m = 3
    ker = Kernel(c, pts, d, 0, support=R)
    X, T = c.array(pts[:n], dtype=float), c.array(pts[n:], dtype=float)
    y = c.reals('y', n)
    P, Q = list(range(n)), list(range(n, n + m))
    K3, K2 = ker.at(P, P), ker.at(P, Q)
    s2 = c.frac(1, 4)
    A = [[K3(a, b) + (s2 if a == b else 0) for b in range(n)] for a in range(n)]
    if n > 1:
        c.assume(c.ge(c.det([list(r) for r in A]), c.frac(1, 4)))
    K1 = ker.at(Q, Q)
    if ind:
        # the training point is the inducing point as well
        mu, cov = c.g.gaussian_process(X, y, T, kernel=ker, sigma_n=0.5, compact_kernel=True, X_induced=X)
        k = K3(0, 0)
        D, mu, cov = s2 + k, c.items(mu), c.mat(cov)
        for b in range(m):
            c.check(c.eq(mu[b] * D, K2(0, b) * y[0]), 'looking for the support of the kernel does not change the mean')
            for a in range(m):
                c.check(c.eq(cov[a, b] * D, K1(a, b) * D - K2(0, a) * K2(0, b)), 'looking for the support of the kernel does not change the covariance')
        return
    mu, cov = c.g.gaussian_process(X, y, T, kernel=ker, sigma_n=0.5, compact_kernel=True)
    D, (al,) = solve_by_cramer(c, A, [c.items(y)])
    mu = c.items(mu)
    c.check(c.b(len(mu) == m), 'one mean per test point')
    for b in range(m):
        c.check(c.eq(mu[b] * D, sum((K2(a, b) * al[a] for a in range(n)), 0)), 'looking for the support of the kernel does not change the mean')
    cov = c.mat(cov)
    _, W = solve_by_cramer(c, A, [[K2(a, b) for a in range(n)] for b in range(m)])
    for a in range(m):
        for b in range(m):
            c.check(c.eq(cov[a, b] * D, K1(a, b) * D - sum((K2(t, a) * W[b][t] for t in range(n)), 0)), 'looking for the support of the kernel does not change the covariance')


@H('K02', 'one training and one test point in 1 or 2 dimensions, the default kernel and noise', cfg=dict(CFG, linsolve='auto'), quick=[dict(d=1), dict(d=2)], thorough=[dict(d=1), dict(d=2), dict(d=3)])
def default(c, d):
    X, T, y = c.reals('x', 1, d), c.reals('t', 1, d), c.reals('y', 1)
    mu, cov = c.g.gaussian_process(X, y, T)
    k = c.np.exp(0 - c.frac(25, 2) * sum(((X[0, i] - T[0, i]) * (X[0, i] - T[0, i]) for i in range(d)), 0))
    v = 1 + c.frac(1, 2500)
    mu, C = c.items(mu), c.mat(cov)
    c.check(c.b(len(mu) == 1 and tuple(C.shape) == (1, 1)), 'one mean and covariance')
    c.check(c.eq(mu[0] * v, k * y[0]), 'the default kernel is the squared exponential of length 0.2 with noise 0.02')
    c.check(c.eq(C[0, 0] * v, v - k * k), 'the default kernel is the squared exponential of length 0.2 with noise 0.02')


@H('K02', 'one training point with its gradient and one test point in 1 to 3 dimensions, the default kernel and noise', cfg=dict(CFG, linsolve='auto'), quick=[dict(d=1), dict(d=2), dict(d=3)])
def default_gradient(c, d):
    X, T, y, gy = c.reals('x', 1, d), c.reals('t', 1, d), c.reals('y', 1), c.reals('gy', 1, d)
    mu, cov = c.g.gaussian_process(X, y, T, grad_y_train=gy)
    r = [T[0, i] - X[0, i] for i in range(d)]
    k = c.np.exp(0 - c.frac(25, 2) * sum((x * x for x in r), 0))
    s2 = c.frac(1, 2500)
    mu = c.items(mu)
    c.check(c.b(len(mu) == d + 1 and tuple(c.mat(cov).shape) == (d + 1, d + 1)), 'one mean per test point (and derivative)')
    # f = a k + sum b_i dk/dx_i with dk/dx_i = 25 r_i k
    a, b = y[0] / (1 + s2), [gy[0, i] / (25 + s2) for i in range(d)]
    c.check(c.eq(mu[0], k * (a + sum((25 * r[i] * b[i] for i in range(d)), 0))), 'the mean is that of the conditioned Gaussian')
    for j in range(d):
        # derivative by t_j
        want = k * (0 - 25 * r[j] * a + sum((b[i] * ((25 if i == j else 0) - 625 * r[i] * r[j]) for i in range(d)), 0))
        c.check(c.eq(mu[1 + j], want), 'the mean of the derivatives is the derivative of the mean')


# ---------------------------------------------------------------------------------------------------------------------- K03
def cubic(t):
    """the cubic B-spline of unit spacing"""
    t = abs(t)
    return (3 * t * t * t - 6 * t * t + 4) / 6 if t < 1 else (2 - t) * (2 - t) * (2 - t) / 6 if t < 2 else 0 * t


def corners(p, lo, h, gs):
    """the grid nodes around p and their multilinear weights"""
    cell = [int((x - a) // s) for x, a, s in zip(p, lo, h)]
    for bits in itertools.product((0, 1), repeat=len(p)):
        w = 1
        at = []
        for k, b in enumerate(bits):
            f = (p[k] - lo[k]) / h[k] - cell[k]
            w = w * (f if b else 1 - f)
            at.append(cell[k] + b)
        if w != 0:
            yield sum(a * prod(gs[:k]) for k, a in enumerate(at)), w


SPREAD = {2: [[(-1, 2), (3, -1), (0, 4)], [(0, 0), (1, 0), (5, -5)], [(-6, -6), (6, 6), (-3, 5)]], 3: [[(-1, 2, 1), (2, -1, 0)]]}


def density_of(c, P, lo, h, gs):
    """the density of the samples, blurred on the grid of the cells around the points"""
    import numpy
    from scipy.ndimage import gaussian_filter
    from fractions import Fraction
    blown = [k + 1 for k in gs]
    around = [list(corners(p, [a - s / 2 for a, s in zip(lo, h)], h, blown)) for p in P]
    image = [0] * prod(blown)
    for row in around:
        for j, w in row:
            image[j] = image[j] + w / prod(h)
    soft = gaussian_filter(numpy.array([float(x) for x in image]).reshape(blown, order='F'), sigma=3).reshape(-1, order='F')
    soft = [Fraction(float(x)) if c.mode == 'sym' else float(x) for x in soft]
    return [sum(w * soft[j] for j, w in row) for row in around]


def edges_of(gs):
    """the grid edges: direction and lower end"""
    for k in range(len(gs)):
        for at in itertools.product(*[range(g - (q == k)) for q, g in enumerate(gs)]):
            yield k, at


def bump_at(a, b, sig):
    return prod([cubic((x - y) / sig) / sig for x, y in zip(a, b)])


def scene(c, gs):
    """sample points at listed places of a grid that may be anywhere -> places in the grid's own frame, grid, points"""
    dim = len(gs)
    F = c.frac
    h = [F(1, 4), F(1, 3) if dim == 2 else F(1, 2), F(1, 4)][:dim]
    if gs[0] > gs[1]:
        h.reverse()
    lo = [F(0 - n, 2) * s for n, s in zip(gs, h)]
    Q = [[F(x, 10) * n * s * F(1, 2) for x, n, s in zip(p, gs, h)] for p in SPREAD[dim][c.concrete_int('place', 0, len(SPREAD[dim]) - 1)]]
    t = c.items(c.reals('t', dim))
    c.assume(c.and_(*[c.and_(c.le(x, 8), c.ge(x, -8)) for x in t]))
    args = dict(gs=c.array(list(gs)), h=c.array(h), corner=c.array([a + x for a, x in zip(lo, t)]))
    return dim, h, lo, Q, t, args, c.array([[a + x for a, x in zip(q, t)] for q in Q])


def operator(c, gs, h, m):
    """of the screened Poisson equation, applied to a function on the grid"""
    stride = [prod(gs[:k]) for k in range(len(gs))]
    out = [c.frac(1, 10 ** 6) * x for x in m]
    for k, at in edges_of(gs):
        j = sum(a * s for a, s in zip(at, stride))
        d = (m[j + stride[k]] - m[j]) / (h[k] * h[k])
        out[j + stride[k]] = out[j + stride[k]] + d
        out[j] = out[j] - d
    return out


def nodes_are(c, gs, h, lo, t, grid):
    """the grid is returned in the order of the values"""
    c.check(c.b(len(grid) == len(gs)), 'the grid has one array per coordinate')
    if len(gs) == 2:
        for k in range(2):
            x = c.items(c.np.reshape(grid[k], -1))
            c.check(c.b(len(x) == prod(gs)), 'the grid has one point per value')
            for j in range(prod(gs)):
                c.check(c.eq(x[j], lo[k] + t[k] + h[k] * (j // prod(gs[:k]) % gs[k])), 'the grid points are those of the values')


@H('K03', 'up to three sample points at listed places of a grid anywhere, arbitrary normals, arbitrary affine prior; each plane grid from 6 to 9 points a side, and 6 by 6 by 6 points in space', cfg=dict(CFG, linsolve='exact'), budget=200,
   quick=[dict(gs=(6, 6, 6), full=0), dict(gs=(6, 7)), dict(gs=(8, 6))], thorough=[dict(gs=(6, 6, 6)), dict(gs=(6, 7)), dict(gs=(8, 6)), dict(gs=(7, 6)), dict(gs=(8, 9)), dict(gs=(9, 7))])
def poisson(c, gs, full=1):
    dim, h, lo, P, t, args, X = scene(c, gs)
    n = len(P)
    N = c.reals('n', n, dim)
    w = c.reals('w', 2) if c.concrete_int('prior', 1 - full, 1) else None

    def before(x, k):
        return w[0] + (k + 1) * w[1] * x[dim - 1 - k] if w is not None else 0
    if w is not None:
        args['prior_fun'] = lambda Y: c.np.column_stack([w[0] + (k + 1) * w[1] * Y[:, dim - 1 - k] for k in range(dim)])
    noise = [0, c.frac(1, 2)][c.concrete_int('noise', 0, full)]
    if noise:
        args['sigma_n'] = noise
    r = c.g.stochastic_poisson_surface_reconstruction(X, N, **args)
    c.check(c.b(len(r) == 2), 'the mean and the grid are returned')
    m = c.items(c.np.reshape(r[0], -1))
    size = prod(gs)
    c.check(c.b(len(m) == size), 'one value per grid point')
    nodes_are(c, gs, h, lo, t, r[1])
    density = density_of(c, P, lo, h, gs)
    # the vector field at the middle of the edges, and its divergence
    sig = c.frac(3, 2) * min(h)
    stride = [prod(gs[:k]) for k in range(dim)]
    div = [0] * size
    for k, at in edges_of(gs):
        x = [lo[q] + h[q] * (at[q] + c.frac(q == k, 2)) for q in range(dim)]
        v = before([a + b for a, b in zip(x, t)], k)
        for i in range(n):
            u = bump_at(x, P[i], sig)
            if u != 0:
                v = v + (N[i, k] - before([a + b for a, b in zip(P[i], t)], k)) * (u / (density[i] + noise * noise))
        j = sum(a * s for a, s in zip(at, stride))
        div[j + stride[k]] = div[j + stride[k]] + v / h[k]
        div[j] = div[j] - v / h[k]
    big = 1 + sum((abs(x) for x in div), 0) if c.mode == 'conc' else 1
    rest = [(a - b) / big for a, b in zip(operator(c, gs, h, m), div)]
    if c.mode == 'conc':
        # what the iterative solver leaves
        rest = [round(float(x), 4) for x in rest]
    for j in range(1, size):
        c.check(c.eq(rest[j], rest[0]), 'the mean solves the Poisson equation of the interpolated normals, up to a constant')
    total = 0
    for p in P:
        for j, u in corners(p, lo, h, gs):
            total = total + u * m[j]
    c.check(c.eq(total, 0), 'the mean averages to zero over the samples')


@H('K03', 'three sample points at listed places of a grid of 6 by 6 points anywhere, arbitrary normals, every scale of the variance', cfg=dict(CFG, linsolve='exact'), budget=200,
   quick=[dict(gs=(6, 6))], thorough=[dict(gs=(6, 6)), dict(gs=(6, 7))])
def variance(c, gs):
    dim, h, lo, P, t, args, X = scene(c, gs)
    n = len(P)
    N = c.reals('n', n, dim)
    size = prod(gs)
    s = args['sigma'] = c.real('s')
    c.assume(c.and_(c.ge(s, c.frac(1, 64)), c.le(s, 8)))
    noise = [0, c.frac(1, 2)][c.concrete_int('noise', 0, 1)]
    r = c.g.stochastic_poisson_surface_reconstruction(X, N, sigma_n=noise, output_variance=True, **args)
    c.check(c.b(len(r) == 3), 'the mean, the variance and the grid are returned')
    v = c.items(c.np.reshape(r[1], -1))
    c.check(c.b(len(v) == size), 'one variance per grid point')
    nodes_are(c, gs, h, lo, t, r[2])
    density = density_of(c, P, lo, h, gs)
    sig = c.frac(3, 2) * min(h)
    stride = [prod(gs[:k]) for k in range(dim)]
    cov = [[0] * size for _ in range(size)]
    E = [(k, sum(a * b for a, b in zip(at, stride)), [lo[q] + h[q] * (at[q] + c.frac(q == k, 2)) for q in range(dim)]) for k, at in edges_of(gs)]
    B = [[bump_at(x, p, sig) for p in P] for _, _, x in E]
    for a, (k, i, x) in enumerate(E):
        for b, (l, j, y) in enumerate(E):
            if k == l:
                u = bump_at(x, y, sig) - sum(p * q / (d + noise * noise) for p, q, d in zip(B[a], B[b], density))
                u = u / (h[k] * h[k])
                for f, z in ((i, -1), (i + stride[k], 1)):
                    for g, y2 in ((j, -1), (j + stride[k], 1)):
                        cov[f][g] = cov[f][g] + z * y2 * u
    A = [[0] * size for _ in range(size)]
    for j in range(size):
        col = operator(c, gs, h, [int(i == j) for i in range(size)])
        for i in range(size):
            A[i][j] = col[i]
    D = solve_rows(A, cov)
    D = solve_rows(A, [[D[i][j] for i in range(size)] for j in range(size)])
    own = [D[i][i] for i in range(size)]
    low = min(own)
    for j in range(size):
        c.check(c.eq(v[j], s * s * (own[j] - low) + noise * noise + c.frac(1, 10 ** 6)), 'the variance is that of the solution of the Poisson equation, lifted to a positive minimum')


def solve_rows(A, B):
    """A X = B for known numbers; A is positive definite and banded"""
    n = len(A)
    A, B = [list(r) for r in A], [list(r) for r in B]
    for k in range(n):
        for i in range(k + 1, n):
            if A[i][k] != 0:
                f = A[i][k] / A[k][k]
                A[i] = A[i][:k] + [a - f * b if b else a for a, b in zip(A[i][k:], A[k][k:])]
                B[i] = [a - f * b if b else a for a, b in zip(B[i], B[k])]
    for k in reversed(range(n)):
        B[k] = [x / A[k][k] for x in B[k]]
        for i in range(k):
            if A[i][k] != 0:
                B[i] = [a - A[i][k] * b for a, b in zip(B[i], B[k])]
    return B
