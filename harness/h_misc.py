"""C01 skinning, C02 splines, C03 normalisation and rotations, P01 sampling, V01 colours, X01 marching squares"""
import itertools
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


# ---------------------------------------------------------------- C01
@H('C01', '1..3 points, 1..3 handles, in 2D and 3D, all weights, matrices and translations; real or integer positions', cfg=CFG,
   quick=[dict(d=2), dict(d=3)], thorough=[dict(d=2, n=4, m=4), dict(d=3, n=4, m=4)])
def skin(c, d, n=3, m=3):
    n, m = c.concrete_int('points', 1, n), c.concrete_int('handles', 1, m)
    V = c.ints('V', (n, d)) if c.concrete_int('integers', 0, 1) else c.reals('V', n, d)
    W, R, T = c.reals('W', n, m), c.reals('R', m, d, d), c.reals('T', m, d)
    keep = [c.items(x) for x in (V, W, R, T)]
    U = c.g.linear_blend_skinning(V, W, R, T)
    c.check(c.b(tuple(U.shape) == (n, d)), 'one position per vertex')
    for i in range(n):
        for k in range(d):
            want = 0
            for h in range(m):
                want = want + W[i, h] * (T[h, k] + sum(R[h, k, q] * V[i, q] for q in range(d)))
            c.check(c.eq(U[i, k], want), 'the weighted sum of the transformed positions')
    for x, y in zip(keep, (V, W, R, T)):
        c.check(c.and_(*[c.eq(p, q) for p, q in zip(x, c.items(y))]), 'the arrays given are not changed')


@H('C01', '2 points, 2 handles in 2D and 3D, weights that sum to one', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def unity(c, d):
    V, w = c.reals('V', 2, d), c.reals('w', 2)
    W = c.array([[w[i], 1 - w[i]] for i in range(2)])
    eye = [[int(i == j) for j in range(d)] for i in range(d)]
    U = c.g.linear_blend_skinning(V, W, c.array([eye, eye]), c.array([[0] * d] * 2))
    c.check(c.and_(*[c.eq(a, b) for a, b in zip(c.items(U), c.items(V))]), 'identity transformations give the rest pose')
    R, t = c.reals('R', d, d), c.reals('t', d)
    for i in range(d):
        for j in range(i, d):
            c.assume(c.eq(sum(R[k, i] * R[k, j] for k in range(d)), int(i == j)))
    RR = [[R[i, j] for j in range(d)] for i in range(d)]
    U = c.g.linear_blend_skinning(V, W, c.array([RR, RR]), c.array([list(t), list(t)]))
    for i in range(2):
        for k in range(d):
            c.check(c.eq(U[i, k], t[k] + sum(R[k, q] * V[i, q] for q in range(d))), 'a shared rigid motion moves everything rigidly')


# ---------------------------------------------------------------- C02
def bezier(a, ta, b, tb, t):
    """the cubic of given ends and derivatives, by de Casteljau"""
    p = [list(a), [x + y / 3 for x, y in zip(a, ta)], [x - y / 3 for x, y in zip(b, tb)], list(b)]
    while len(p) > 1:
        p = [[(1 - t) * x + t * y for x, y in zip(u, v)] for u, v in zip(p, p[1:])]
    return p[0]


@H('C02', '2..5 (thorough: 7) control points in 1D, 2D and 3D, every position and time', cfg=CFG, quick=[dict(d=1), dict(d=2), dict(d=3)], thorough=[dict(d=d, hi=7) for d in (1, 2, 3)])
def spline(c, d, hi=5):
    n = c.concrete_int('points', 2, hi)
    P = c.reals('P', n, d)
    t = c.real('t', 0, 1)
    s = t * (n - 1)
    k = 0
    while k < n - 2 and c.decide(c.ge(s, k + 1)):
        k += 1
    rows = [list(P[i]) for i in range(n)]

    def tangent(i):
        if i == 0:
            return c.sub(rows[1], rows[0])
        if i == n - 1:
            return c.sub(rows[-1], rows[-2])
        return c.scale(c.frac(1, 2), c.sub(rows[i + 1], rows[i - 1]))
    X = c.g.catmull_rom_spline(c.array([t]), P)
    c.check(c.b(tuple(X.shape) == (1, d)), 'one point per time')
    want = bezier(rows[k], tangent(k), rows[k + 1], tangent(k + 1), s - k)
    for q in range(d):
        c.check(c.eq(X[0, q], want[q]), 'the cubic of the piece, through its ends, with the tangents they share with their neighbours')


@H('C02', '2..5 (thorough: 7) control points in 2D, all of their times at once; and any time on a line', cfg=CFG, quick=[dict()], thorough=[dict(hi=7)])
def knots(c, hi=5):
    n = c.concrete_int('points', 2, hi)
    P = c.reals('P', n, 2)
    X = c.g.catmull_rom_spline(c.array([c.frac(i, n - 1) for i in range(n)]), P)
    c.check(c.and_(*[c.eq(a, b) for a, b in zip(c.items(X), c.items(P))]), 'the curve passes through the points in order')
    a, b = c.reals('a', 2), c.reals('b', 2)
    ts = [c.real('t', 0, 1), c.real('u', 0, 1)]
    X = c.g.catmull_rom_spline(c.array(ts), c.array([c.add(list(a), c.scale(i, list(b))) for i in range(n)]))
    for i, t in enumerate(ts):
        for q in range(2):
            c.check(c.eq(X[i, q], a[q] + t * (n - 1) * b[q]), 'equally spaced points on a line give the line at constant speed')


# ---------------------------------------------------------------- C03
@H('C03', '2..3 points that differ, in 1D, 2D and 3D, any center; real or integer positions', cfg=CFG, budget=120, quick=[dict(d=1), dict(d=2), dict(d=3, hi=2)], thorough=[dict(d=1, hi=4), dict(d=2), dict(d=3)])
def normalize(c, d, hi=3):
    n = c.concrete_int('points', 2, hi)
    V = c.ints('V', (n, d)) if c.concrete_int('integers', 0, 1) else c.reals('V', n, d)
    keep = c.items(V)
    c.assume(c.or_(*[c.not_(c.eq(V[i, k], V[0, k])) for i in range(1, n) for k in range(d)]))
    kw, ctr = {}, [0] * d
    if c.concrete_int('center', 0, 1):
        kw['center'] = ctr = c.reals('c', d)
    U = c.g.normalize_points(V, **kw)
    c.check(c.and_(*[c.eq(a, b) for a, b in zip(keep, c.items(V))]), 'the input is not changed')
    c.check(c.b(tuple(U.shape) == (n, d)), 'one row per point')
    half = c.frac(1, 2)
    dist = []
    for k in range(d):
        lo = [U[i, k] - ctr[k] for i in range(n)]
        for x in lo:
            c.check(c.and_(c.le(x, half), c.ge(x, -half)), 'every point is in the unit cube')
        i, j = [c.concretize(c.np.argmin(c.array(lo))), c.concretize(c.np.argmax(c.array(lo)))]
        c.check(c.eq(lo[i] + lo[j], 0), 'the points are centered')
        dist.append(lo[j] - lo[i])
    c.check(c.or_(*[c.eq(x, 1) for x in dist]), 'the cube is as small as possible')
    # one scale for all
    e = [[V[i, k] - V[0, k] for k in range(d)] for i in range(1, n)]
    f = [[U[i, k] - U[0, k] for k in range(d)] for i in range(1, n)]
    e, f = sum(e, []), sum(f, [])
    for i in range(len(e)):
        for j in range(i):
            c.check(c.eq(e[i] * f[j], e[j] * f[i]), 'one scale for all points and coordinates')
        c.check(c.ge(e[i] * f[i], 0), 'nothing is reflected')


@H('C03', 'in 2D and 3D, any two non-zero vectors, opposite and parallel ones included (not nearly so)', cfg=CFG, budget=150,
   quick=[dict(d=2, form='any'), dict(d=2, form='parallel'), dict(d=3, form='parallel'), dict(d=3, form='any')])
def rotation(c, d, form):
    u = c.reals('u', d)
    if form == 'parallel':
        s = c.real('s')
        c.assume(c.not_(c.eq(s, 0)))
        neg = c.decide(c.lt(s, 0))
        w = c.scale(s, list(u))
    else:
        w = list(c.reals('w', d))
    uu, ww, uw = c.sos(list(u)), c.sos(w), c.dot(list(u), w)
    c.assume(c.gt(uu, 0))
    if form != 'parallel':
        c.assume(c.gt(ww, 0))
        # the sine of the angle between them
        p, q = [c.array([x / y for x in z]) for z, y in ((list(u), c.sqrt(uu)), (w, c.sqrt(ww)))]
        crs = c.np.linalg.norm(c.array(c.cross(list(p), list(q)))) if d == 3 else c.np.abs(p[0] * q[1] - p[1] * q[0])
        c.assume(c.ge(crs, c.frac(1, 1000)))
    R = c.g.rotation_matrix_from_vectors(u, c.array(w))
    c.check(c.b(tuple(R.shape) == (d, d)), 'a square matrix')
    M = [[R[i, j] for j in range(d)] for i in range(d)]
    for i in range(d):
        for j in range(i, d):
            c.check(c.eq(sum(M[k][i] * M[k][j] for k in range(d)), int(i == j)), 'the matrix is orthogonal')
    c.check(c.eq(c.det(M), 1), 'the matrix is a rotation')
    x = [sum(M[i][k] * u[k] for k in range(d)) for i in range(d)]
    nu, nw = c.sqrt(uu), c.sqrt(ww)
    for i in range(d):
        c.check(c.eq(x[i] * nw, w[i] * nu), 'the first direction is taken to the second')


# ---------------------------------------------------------------- P01
class Spy:
    """a generator of arbitrary draws that remembers them"""

    def __init__(self, c):
        self.r = c.np.random.default_rng()
        self.c = c
        self.picks, self.draws = [], []

    def choice(self, a, size=None, replace=True, p=None, **k):
        x = self.r.choice(a, size=size, replace=replace, p=p)
        self.picks.append((a, p, self.c.items(x)))
        return x

    def _keep(self, x):
        self.draws.append(x)
        return x

    def uniform(self, *a, **k):
        return self._keep(self.r.uniform(*a, **k))

    def random(self, *a, **k):
        return self._keep(self.r.random(*a, **k))


@H('P01', 'one sample on 2..3 segments or triangles in 2D and 3D (triangles in 3D: in one oblique plane), every vertex position, likelihood and draw', cfg=CFG, budget=120,
   quick=[dict(k=2, d=2), dict(k=2, d=3), dict(k=3, d=2), dict(k=3, d=3)], thorough=[dict(k=k, d=d, n=n) for k in (2, 3) for d in (2, 3) for n in (1, 2)])
def mesh(c, k, d, n=1):
    n = n * c.concrete_int('any', 0, 1)
    m = c.concrete_int('elements', 2, 3)
    V = c.reals('V', m + k - 1, 2 if k == 3 else d)
    if d == 3 and k == 3:
        # in a plane of space, which no coordinate direction lies in
        V = c.array([[(x + 2 * y) / c.frac(3, 1), (2 * x + y) / c.frac(3, 1), (2 * x - 2 * y) / c.frac(3, 1)] for x, y in c.lists(V)])
    F = [list(range(i, i + k)) for i in range(m)]
    kw, L = {}, [1] * m
    if c.concrete_int('likelihood', 0, 1):
        L = c.reals('L', m)
        for x in c.items(L):
            c.assume(c.gt(x, 0))
        kw['per_element_likelihood'] = L
    size = []
    for f in F:
        e = [c.sub(list(V[j]), list(V[f[0]])) for j in f[1:]]
        if k == 2:
            s = c.sos(e[0])
        elif d == 2:
            x = e[0][0] * e[1][1] - e[0][1] * e[1][0]
            s = c.sos([x])
        else:
            s = c.sos(c.cross(*e))
        c.assume(c.gt(s, 0))
        size.append(s)
    rng = Spy(c)
    some = c.concrete_int('indices', 0, 1)
    r = c.g.random_points_on_mesh(V, c.array(F), n, rng=rng, return_indices=bool(some), **kw)
    if not some:
        c.check(c.b(tuple(r.shape) == (n, d)), 'as many points as asked for')
        return
    x, I, u = r
    c.check(c.b(tuple(x.shape) == (n, d) and tuple(I.shape) == (n,) and tuple(u.shape) == (n, k)), 'as many points, indices and coordinates as asked for')
    for a, p, picks in rng.picks:
        if p is None or len(c.items(p)) != m:
            continue
        p = c.items(p)
        w = [c.sqrt(s) * q for s, q in zip(size, c.items(c.array(L)))]
        for i in range(m):
            c.check(c.eq(p[i] * sum(w), w[i]), 'an element is drawn in proportion to its size and likelihood')
        for i, q in enumerate(picks[:n]):
            c.check(c.eq(I[i], q), 'the element reported is the one drawn')
    draws = [c.items(q) for q in rng.draws]
    for i in range(n):
        f = c.concretize(I[i])
        c.check(c.b(0 <= f < m), 'an element of the mesh')
        b = list(u[i])
        for y in b:
            c.check(c.ge(y, 0), 'the point is in the element')
        c.check(c.eq(sum(b), 1), 'the coordinates sum to one')
        for q in range(d):
            c.check(c.eq(x[i, q], sum(b[j] * V[F[f][j], q] for j in range(k))), 'the point is where its coordinates say')
        # uniform in the element: its coordinates are a measure preserving function of the draws
        z = [y for q in draws for y in q]
        if k == 2:
            c.check(c.or_(*[c.eq(b[0], y) for y in z], *[c.eq(b[1], y) for y in z]), 'the position on a segment is a uniform draw')
        else:
            z = z + [1 - y for y in z]
            alts = []
            for j in range(3):
                p, q = [t for t in range(3) if t != j]
                for s, y in itertools.product(z, z):
                    alts.append(c.and_(c.eq((1 - b[j]) * (1 - b[j]), s), c.or_(c.eq(b[p], y * (1 - b[j])), c.eq(b[q], y * (1 - b[j])))))
                    alts.append(c.and_(c.eq(b[p], s), c.eq(b[q], y)))
            c.check(c.or_(*alts), 'the position in a triangle preserves areas')


@H('P01', 'chains of 2..4 (thorough: 6) samples in 1D and 2D, every density above zero, proposal and draw', cfg=CFG, quick=[dict(d=1), dict(d=2)], thorough=[dict(d=1, hi=6), dict(d=2, hi=6)])
def chain(c, d, hi=4):
    n = c.concrete_int('samples', 2, hi)
    pts, vals, asked = [list(c.reals('x0', d))], [c.real('f0')], []
    c.assume(c.gt(vals[0], 0))

    def same(p, q):
        return all(c.decide(c.eq(a, b)) for a, b in zip(p, q))

    def density(x):
        x = list(x)
        for p, v in zip(pts, vals):
            if all(a is b or (c.mode == 'conc' and a == b) for a, b in zip(p, x)):
                return v
        for p, v in zip(pts, vals):
            if same(p, x):
                return v
        c.check(c.b(False), 'the density is evaluated at the start and at proposals')

    def step(x):
        k = len(pts)
        asked.append(list(x))
        if k > n:
            # more proposals than there are samples to fill
            c.check(c.b(False), 'every proposal fills a sample')
        p = c.reals('x%d' % k, d)
        v = c.real('f%d' % k)
        c.assume(c.gt(v, 0))
        # proposals at a place already known would have its density: take them to be new places
        for q in pts:
            c.assume(c.not_(c.and_(*[c.eq(a, b) for a, b in zip(p, q)])))
        pts.append(list(p))
        vals.append(v)
        return c.array(list(p))
    rng = Spy(c)
    S, F = c.g.metropolis_hastings(density, step, c.array(pts[0]), num_samples=n, rng=rng)
    c.check(c.b(tuple(S.shape) == (n, d) and tuple(F.shape) == (n,)), 'one row and one value per sample')
    r = [x for q in rng.draws for x in c.items(q)]
    c.check(c.b(len(pts) == n and len(asked) == n - 1 and len(r) == n - 1), 'one proposal and one draw per further sample')
    cur = 0
    for i in range(n):
        if i:
            c.check(c.and_(*[c.eq(a, b) for a, b in zip(asked[i - 1], pts[cur])]), 'a proposal starts at the current sample')
            # acceptance with probability min(1, ratio): a draw on the border decides nothing
            ratio = vals[i] - r[i - 1] * vals[cur]
            c.assume(c.not_(c.eq(ratio, 0)))
            if c.decide(c.gt(ratio, 0)):
                cur = i
        for q in range(d):
            c.check(c.eq(S[i, q], pts[cur][q]), 'the sample moves exactly when the draw is below the ratio of densities, and is repeated otherwise')
        c.check(c.eq(F[i], vals[cur]), 'the value is that of the sample')


@H('P01', '2 particles (thorough: 3), 0..2 iterations, 1D and 2D, both topologies, every objective value, bound and draw', cfg=CFG, budget=150,
   quick=[dict(d=1, it=2), dict(d=2, it=1)], thorough=[dict(d=1, it=2, n=3), dict(d=2, it=2, n=2), dict(d=1, it=3, n=2)])
def swarm(c, d, it, n=2):
    it = c.concrete_int('iterations', 0, it)
    lb, w = c.reals('lb', d), c.reals('w', d)
    for x in c.items(w):
        c.assume(c.ge(x, 0))
    ub = c.array(c.add(list(lb), list(w)))
    kw = dict(topology=['full', 'ring'][c.concrete_int('ring', 0, 1)])
    form = c.concrete_int('array', 0, 2)
    seen = []

    def fun(x):
        f = c.real('f%d' % len(seen))
        seen.append((c.items(x), f))
        for q in range(d):
            c.check(c.and_(c.ge(seen[-1][0][q], lb[q]), c.le(seen[-1][0][q], ub[q])), 'the objective is only evaluated within the bounds')
        if form == 2:
            return c.plain(f)
        return c.array([f]) if form else c.array([f])[0]
    x, f = c.g.particle_swarm(fun, lb, ub, n_particles=n, max_iter=it, use_cpp=False, **kw)
    x, f = c.items(x), c.items(f)[0]
    c.check(c.b(len(seen) == n * (it + 1)), 'every particle is evaluated at the start and in every iteration')
    for p, v in seen:
        c.check(c.le(f, v), 'no point evaluated was better')
    c.check(c.or_(*[c.and_(c.eq(f, v), *[c.eq(a, b) for a, b in zip(x, p)]) for p, v in seen]), 'the value is that of the point')


# ---------------------------------------------------------------- V01
@H('V01', 'every pair of values, palettes of 1..5 (thorough: 8) arbitrary colors, constant, or linear with arbitrary colors in a fixed range or fixed colors in any range; range given, partly given or not (wide enough for floats)', cfg=CFG, budget=120,
   quick=[dict(linear=0), dict(linear=1), dict(linear=2, hi=3), dict(linear=0, hi=3, zero='min'), dict(linear=0, hi=3, zero='max')], thorough=[dict(linear=0, hi=8, m=3), dict(linear=1, hi=8), dict(linear=2, hi=5)])
def apply(c, linear, hi=5, m=2, zero=None):
    n = c.concrete_int('colors', 1, hi)
    C = c.ints('C', (n, 3), 0, 255)
    if linear == 2:
        C = c.array([[(97 * i + 50 * q + 3) % 256 for q in range(3)] for i in range(n)])
    f = c.reals('f', m)
    for x in c.items(f):
        c.assume(c.and_(c.ge(x, -10**6), c.le(x, 10**6)))
    kw = {}
    lo, hi = c.items(f), c.items(f)
    if linear == 1:
        kw['min'], kw['max'] = c.frac(-3, 2), c.frac(7, 4)
        lo, hi = [kw['min']], [kw['max']]
    elif zero:
        kw[zero] = 0
        (lo if zero == 'min' else hi)[:] = [0]
    elif c.concrete_int('min', 0, 1):
        kw['min'] = c.real('min', -10**6, 10**6)
        lo = [kw['min']]
    if not linear == 1 and not zero and c.concrete_int('max', 0, 1):
        kw['max'] = c.real('max', -10**6, 10**6)
        hi = [kw['max']]
    i = c.concretize(c.np.argmin(c.array(lo)))
    j = c.concretize(c.np.argmax(c.array(hi)))
    a, b = lo[i], hi[j]
    c.assume(c.ge(b, a + c.frac(1, 10**6)))
    if linear:
        kw['piecewise_linear'] = True
    X = c.g.apply_colormap(C, f, **kw)
    c.check(c.b(tuple(X.shape) == (m, 3)), 'one color per value')
    for k in range(m):
        if n == 1:
            for q in range(3):
                c.check(c.eq(X[k, q], C[0, q]), 'a palette of one color colors everything')
            continue
        v = f[k]
        if c.decide(c.lt(v, a)):
            v = a
        elif c.decide(c.gt(v, b)):
            v = b
        s, w = (v - a) * (n - 1), b - a
        p = 0
        while p < n - 2 and c.decide(c.gt(s, (p + 1) * w)):
            p += 1
        for q in range(3):
            if linear:
                y = C[p, q] + (C[p + 1, q] - C[p, q]) * (s / w - p)
                c.check(c.and_(c.le(X[k, q] - c.frac(1, 2), y), c.ge(X[k, q] + c.frac(1, 2), y)), 'the color is the interpolated one, rounded')
            else:
                y = (s - p * w) * 2
                c.check(c.or_(c.and_(c.le(y, w), c.eq(X[k, q], C[p, q])), c.and_(c.ge(y, w), c.eq(X[k, q], C[p + 1, q]))), 'the color is that of the nearest step')


@H('V01', 'palettes of arbitrary colors (one, or 4..6 sizes: thorough 4..9), 1..7 colors asked for', cfg=CFG, quick=[dict(hi=6)], thorough=[dict(hi=9, m=12)])
def palette(c, hi, m=7):
    g = c.g.colormap.__globals__
    tabs = [k for k, v in g.items() if isinstance(v, dict) and 'RdBu' in v]
    if not tabs:
        return
    n = c.concrete_int('colors', 4, hi)
    C = {}
    for k in range(1, n + 1):
        C[k] = c.reals('C%d' % k, k, 3, lo=0, hi=255)
    keep = {k: c.items(v) for k, v in C.items()}
    old = g[tabs[0]]
    g[tabs[0]] = {'test': C}
    try:
        k = c.concrete_int('asked', 0, n)
        X = c.g.colormap('test', k, interpolate=False)
        c.check(c.b(tuple(X.shape) == (k or n, 3)), 'the colors asked for')
        c.check(c.and_(*[c.eq(p, q) for p, q in zip(c.items(X), keep[k or n])]), 'the palette of the size asked for, the largest for zero')
        k = c.concrete_int('interpolated', 1, m)
        X = c.g.colormap('test', k)
        c.check(c.b(tuple(X.shape) == (k, 3)), 'the colors asked for')
        for x in c.items(X):
            c.check(c.and_(c.ge(x, 0), c.le(x, 255)), 'a color', unit=lambda: 1)
        full = c.array([keep[n][i:i + 3] for i in range(0, 3 * n, 3)])
        for i in range(k):
            # where the interpolation meets an entry of the palette, it has its color
            if k == 1:
                t = 0
            elif i * (n - 1) % (k - 1) == 0:
                t = i * (n - 1) // (k - 1)
            else:
                continue
            for q in range(3):
                c.check(c.and_(c.le(X[i, q] - full[t, q], c.frac(1, 1000)), c.ge(X[i, q] - full[t, q], -c.frac(1, 1000))), 'entries of the palette are kept')
    finally:
        g[tabs[0]] = old
    for k, v in C.items():
        c.check(c.and_(*[c.eq(p, q) for p, q in zip(c.items(v), keep[k])]), 'the palette stays as it is')


# ---------------------------------------------------------------- X01
def merge(c):
    """remove_duplicate_vertices (see T06) for vertices that are exactly equal, in the order of their first occurrence"""
    def f(V, epsilon=0.0, faces=None, **k):
        rows = [list(V[i]) for i in range(V.shape[0])]
        first, to = [], []
        for r in rows:
            for j, s in enumerate(first):
                if all(c.decide(c.eq(a, b)) for a, b in zip(r, rows[s])):
                    to.append(j)
                    break
            else:
                to.append(len(first))
                first.append(len(to) - 1)
        if faces is None:
            return c.array([rows[i] for i in first]), c.array(first), c.array(to)
        new = [[to[c.concretize(v)] for v in e] for e in faces]
        return c.array([rows[i] for i in first]), c.array(first), c.array(to), c.array(new)
    return f


@H('X01', 'grids of one and two cells (thorough: four to six), every non-zero value per node, any rectangle', cfg=CFG, budget=200,
   quick=[dict(nx=2, ny=2), dict(nx=3, ny=2), dict(nx=2, ny=3)], thorough=[dict(nx=3, ny=3), dict(nx=4, ny=2), dict(nx=2, ny=4), dict(nx=4, ny=3), dict(nx=3, ny=4)])
def squares(c, nx, ny):
    S = c.reals('S', nx * ny)
    for x in c.items(S):
        c.assume(c.not_(c.eq(x, 0)))
    pos = {(i, j): c.decide(c.gt(S[i + nx * j], 0)) for i in range(nx) for j in range(ny)}
    o, h = c.reals('o', 2), c.reals('h', 2)
    for x in c.items(h):
        c.assume(c.gt(x, 0))
    at = lambda i, j: [o[0] + h[0] * i, o[1] + h[1] * j]
    GV = c.array([at(i, j) for j in range(ny) for i in range(nx)])
    g = c.g.marching_squares.__globals__
    old = g.get('remove_duplicate_vertices')
    if old is not None:
        g['remove_duplicate_vertices'] = merge(c)
    try:
        V, E = c.g.marching_squares(S, GV, nx, ny)
    finally:
        if old is not None:
            g['remove_duplicate_vertices'] = old
    E = [[c.concretize(v) for v in c.items(e)] for e in E]
    n = V.shape[0] if len(E) else 0
    # the grid edges whose ends have different signs
    cross = []
    for i in range(nx):
        for j in range(ny):
            for p, q in ((1, 0), (0, 1)):
                if i + p < nx and j + q < ny and pos[i, j] != pos[i + p, j + q]:
                    cross.append(((i, j), (i + p, j + q)))
    c.check(c.b(n == len(cross)), 'one vertex per grid edge that changes sign')
    want = []
    for a, b in cross:
        x, y = S[a[0] + nx * a[1]], S[b[0] + nx * b[1]]
        w = x / (x - y)
        want.append(c.add(c.scale(1 - w, at(*a)), c.scale(w, at(*b))))
    # vertices on different grid edges are different points
    where = {}
    for v in range(n):
        for k, p in enumerate(want):
            if c.decide(c.and_(*[c.eq(V[v, q], p[q]) for q in range(2)])):
                where[v] = k
                break
        c.check(c.b(v in where), 'a vertex is at the linear zero of a grid edge')
    c.check(c.b(len(set(where.values())) == n), 'no vertex is repeated')
    for i in range(nx - 1):
        for j in range(ny - 1):
            corners = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            ring = [tuple(sorted((corners[k], corners[(k + 1) % 4]))) for k in range(4)]
            here = [k for k, e in enumerate(cross) if e in ring]
            segs = [e for e in E if where[e[0]] in here and where[e[1]] in here]
            c.check(c.b(len(segs) * 2 == len(here)), 'a cell has a segment per two changes of sign')
            c.check(c.b(sorted(where[v] for e in segs for v in e) == here), 'the segments of a cell join its changes of sign')
            for e in segs:
                # walking along a segment, positive values are to the same side as everywhere
                a, b = (cross[where[v]] for v in e)
                p = [list(V[e[0]]), list(V[e[1]])]
                dlt = c.sub(p[1], p[0])
                for ends in (a, b):
                    for nd in ends:
                        off = c.sub(at(*nd), p[0])
                        s = dlt[0] * off[1] - dlt[1] * off[0]
                        c.check(c.le(s, 0) if pos[nd] else c.ge(s, 0), 'positive values are to the right of a segment')
    c.check(c.b(len(E) * 2 == sum(len([1 for k in range(nx - 1) for l in range(ny - 1) if
                                      set(e) <= {(k, l), (k + 1, l), (k + 1, l + 1), (k, l + 1)}]) for e in cross)), 'there are no other segments')


@H('X01', 'one to two cells, every value per node, zero included', cfg=CFG, budget=150, quick=[dict(nx=2, ny=2), dict(nx=3, ny=2)])
def zeros(c, nx, ny):
    S = c.reals('S', nx * ny)
    sg = {}
    for i in range(nx):
        for j in range(ny):
            x = S[i + nx * j]
            sg[i, j] = 1 if c.decide(c.gt(x, 0)) else -1 if c.decide(c.lt(x, 0)) else 0
    GV = c.array([[i, j] for j in range(ny) for i in range(nx)])
    g = c.g.marching_squares.__globals__
    old = g.get('remove_duplicate_vertices')
    if old is not None:
        g['remove_duplicate_vertices'] = merge(c)
    try:
        V, E = c.g.marching_squares(S, GV, nx, ny)
    finally:
        if old is not None:
            g['remove_duplicate_vertices'] = old
    E = [[c.concretize(v) for v in c.items(e)] for e in E]
    want = []
    for i in range(nx):
        for j in range(ny):
            for p, q in ((1, 0), (0, 1)):
                if i + p < nx and j + q < ny and (sg[i, j] > 0) != (sg[i + p, j + q] > 0):
                    x, y = S[i + nx * j], S[i + p + nx * (j + q)]
                    w = x / (x - y)
                    want.append([i + p * w, j + q * w])
    used = sorted(set(v for e in E for v in e))
    for v in used:
        c.check(c.or_(*[c.and_(c.eq(V[v, 0], p[0]), c.eq(V[v, 1], p[1])) for p in want]), 'a vertex is where the interpolated values change from positive to not positive')
    for e in E:
        c.check(c.b(e[0] != e[1]), 'no segment is a point')
    rows = V.shape[0] if len(want) else 0
    for p in want:
        c.check(c.or_(*[c.and_(c.eq(V[v, 0], p[0]), c.eq(V[v, 1], p[1])) for v in range(rows)]), 'every change of sign has its vertex')
