"""L01 constrained quadratic and l1 problems, L02 fixed degrees of freedom, L03 linear elasticity"""
import itertools
from sym.harness import H

CFG = {'div0': 'assume', 'check_timeout': 20, 'linsolve': 'auto'}


def det(c, M):
    return c.det([list(r) for r in M])


def subset(c, name, n, o):
    """every ordered choice of o distinct indices"""
    k = []
    for i in range(o):
        left = [x for x in range(n) if x not in k]
        k.append(left[c.concrete_int('%s%d' % (name, i), 0, len(left) - 1)])
    return k


def given(c, name, n, p, forms):
    """None, a scalar, or an array; with the values meant"""
    f = forms[c.concrete_int(name + '_form', 0, len(forms) - 1)] if len(forms) > 1 else forms[0]
    q = max(p, 1)
    if f == 'none':
        return None, [[0] * q for _ in range(n)]
    if f == 'scalar':
        x = c.real(name)
        return x, [[x] * q for _ in range(n)]
    a = c.reals(name, n, p) if p else c.reals(name, n)
    return a, [[a[i, j] for j in range(p)] if p else [a[i]] for i in range(n)]


def isarr(x):
    return getattr(x, 'ndim', 0) > 0


def sparse_of(c, rows, kind):
    sp = c.sp
    return {'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'array': sp.csr_array}[kind](c.array(rows))


def entries(c, name, n, m, kind, zeros=()):
    return [[(0 if (i, j) in zeros else c.real('%s_%d_%d' % (name, i, j))) for j in range(m)] for i in range(n)]


def regular(c, M):
    """the system has one solution; the scale is free, so its determinant may be kept off zero"""
    if M:
        d = det(c, M)
        c.assume(c.ge(d * d, c.frac(1, 4)))


@H('L01', 'quadratics in 2 or 3 unknowns (thorough: 4), symmetric or not in their corner entries, up to 2 fixed in any order, up to one equality, one or two right-hand sides in every form', cfg=CFG, budget=120,
   quick=[dict(n=3, o=0, m=0, p=0), dict(n=3, o=0, m=0, p=0, sym=1), dict(n=3, o=2, m=0, p=0), dict(n=3, o=1, m=1, p=0), dict(n=3, o=2, m=0, p=0, sym=1), dict(n=2, o=0, m=1, p=2, sym=1), dict(n=3, o=1, m=0, p=2, sym=1), dict(n=3, o=1, m=1, p=1, sym=1), dict(n=4, o=3, m=0, p=0, sym=1)],
   thorough=[dict(n=3, o=o, m=m, p=p, sym=s) for o in (0, 1, 2) for m in (0, 1) for p in (0, 1, 2) for s in (0, 1) if o + m < 3] + [dict(n=4, o=2, m=0, p=0, sym=1), dict(n=4, o=1, m=2, p=0, sym=1), dict(n=4, o=3, m=0, p=0, sym=1)])
def quadratic(c, n, o, m, p, sym=0):
    q = max(p, 1)
    # symmetric part, and what the library has to symmetrise away
    T = {}
    S = [[T.setdefault((min(i, j), max(i, j)), None) for j in range(n)] for i in range(n)]
    for i, j in T:
        S[i][j] = S[j][i] = c.real('Q_%d_%d' % (i, j))
    Q = [list(r) for r in S]
    if not sym:
        for i in range(n):
            for j in range(i):
                x = c.real('skew_%d_%d' % (i, j))
                if (i, j) == (n - 1, 0):
                    c.assume(c.gt(x, 0))
                Q[i][j], Q[j][i] = Q[i][j] + x, Q[j][i] - x
    A = entries(c, 'A', m, n, 'csr') if m else None
    k = subset(c, 'k', n, o)
    free = [i for i in range(n) if i not in k]
    K = [[S[i][j] for j in free] + [A[r][i] for r in range(m)] for i in free] + [[A[r][j] for j in free] + [0] * m for r in range(m)]
    regular(c, K)
    Qs = sparse_of(c, Q, 'csr')
    As = sparse_of(c, A, 'csr') if m else None
    big = 'array'
    cs, cv = given(c, 'c', n, p, ['none', 'scalar', big] if o + m == 0 and not p else [big])
    bs, bv = given(c, 'b', m, p, ['none', 'scalar', big] if m else ['none'])
    ys, yv = given(c, 'y', o, p, ['none', 'scalar', big] if o else ['none'])
    ks = c.array(k, dtype=int) if o else None
    pre = c.concrete_int('pre', 0, 1)
    keep = [c.items(x) if isarr(x) else None for x in (cs, bs, ys, ks)]
    if pre:
        solver = c.g.min_quad_with_fixed_precompute(Qs, As, ks)
        if c.concrete_int('reuse', 0, 1):
            solver.solve(c=c.array([1] * n), b=(0 if m else None), y=(1 if o else None))
        u = solver.solve(cs, bs, ys)
    else:
        u = c.g.min_quad_with_fixed(Qs, c=cs, A=As, b=bs, k=ks, y=ys)
    for x, old in zip((cs, bs, ys, ks), keep):
        if old is not None:
            for s, t in zip(c.items(x), old):
                c.check(c.eq(s, t), 'the arrays given are unchanged')
    c.check(c.b(tuple(u.shape) == ((n, p) if p else (n,))), 'the solution has the shape of the right-hand side')
    U = [[u[i, j] for j in range(p)] if p else [u[i]] for i in range(n)]
    for i, v in enumerate(k):
        for j in range(q):
            c.check(c.eq(U[v][j], yv[i][j]), 'fixed values hold')
    for r in range(m):
        for j in range(q):
            c.check(c.eq(sum((A[r][i] * U[i][j] for i in range(n)), 0), bv[r][j]), 'equality constraints hold')
    # stationary: along every direction d with A d = 0 over the free unknowns the derivative vanishes
    for j in range(q):
        g = {i: sum((S[i][t] * U[t][j] for t in range(n)), 0) + cv[i][j] for i in free}
        if m == 0:
            for i in free:
                c.check(c.eq(g[i], 0), 'the energy is stationary in every admissible direction')
        elif m == 1:
            for a, b in itertools.combinations(free, 2):
                c.check(c.eq(g[a] * A[0][b] - g[b] * A[0][a], 0), 'the energy is stationary in every admissible direction')
        else:
            for t in itertools.combinations(free, m + 1):
                c.check(c.eq(det(c, [[g[i]] + [A[r][i] for r in range(m)] for i in t]), 0), 'the energy is stationary in every admissible direction')


@H('L02', 'systems in 2 or 3 unknowns (thorough: 4), up to 2 fixed in any order, one or two right-hand sides in every form', cfg=CFG, budget=120,
   quick=[dict(n=2, o=0, p=0), dict(n=3, o=1, p=0), dict(n=3, o=2, p=0), dict(n=3, o=1, p=2), dict(n=3, o=2, p=1), dict(n=2, o=0, p=2)],
   thorough=[dict(n=3, o=o, p=p) for o in (0, 1, 2) for p in (0, 1, 2)] + [dict(n=4, o=o, p=0) for o in (0, 1, 2, 3)] + [dict(n=4, o=2, p=2)])
def fixed(c, n, o, p):
    q = max(p, 1)
    A = entries(c, 'A', n, n, 'csr')
    k = subset(c, 'k', n, o)
    free = [i for i in range(n) if i not in k]
    regular(c, [[A[i][j] for j in free] for i in free])
    fmt = ['csr', 'csc'][c.concrete_int('format', 0, 1)]
    As = sparse_of(c, A, fmt)
    bs, bv = given(c, 'b', n, p, ['none', 'scalar', 'array'])
    ys, yv = given(c, 'y', o, p, ['none', 'scalar', 'array'] if o else ['none'])
    if p and not isarr(bs) and not isarr(ys):
        p, q = 0, 1
    ks = c.array(k, dtype=int) if o else None
    pre = c.concrete_int('pre', 0, 1)
    keep = [c.items(x) if isarr(x) else None for x in (bs, ys, ks)]
    if pre:
        solver = c.g.fixed_dof_solve_precompute(As, ks)
        if c.concrete_int('reuse', 0, 1):
            solver.solve(b=c.array([1] * n), y=(1 if o else None))
        u = solver.solve(bs, ys)
    else:
        u = c.g.fixed_dof_solve(As, b=bs, k=ks, y=ys)
    for x, old in zip((bs, ys, ks), keep):
        if old is not None:
            for s, t in zip(c.items(x), old):
                c.check(c.eq(s, t), 'the arrays given are unchanged')
    M = As.toarray()
    for i in range(n):
        for j in range(n):
            c.check(c.eq(M[i, j], A[i][j]), 'the matrix given is unchanged')
    c.check(c.b(tuple(u.shape) == ((n, p) if p else (n,))), 'the solution has the shape of the right-hand side')
    U = [[u[i, j] for j in range(p)] if p else [u[i]] for i in range(n)]
    for i, v in enumerate(k):
        for j in range(q):
            c.check(c.eq(U[v][j], yv[i][j]), 'fixed values hold')
    for i in free:
        for j in range(q):
            c.check(c.eq(sum((A[i][t] * U[t][j] for t in range(n)), 0), bv[i][j]), 'the equations of the free rows hold')


class Scs:
    """stands in for the cone solver: keeps the problem it is given and answers with x"""

    def __init__(self, c):
        self.c = c
        self.calls = []
        outer = self

        class SCS:
            def __init__(self, data, cone, **settings):
                N = len(c.items(data['c']))
                self.x = c.reals('x', N)
                outer.calls.append((data, cone, self.x))

            def solve(self):
                return {'x': self.x, 'info': {'status_val': 1, 'status': 'solved'}}
        self.SCS = SCS


@H('L01', 'l1 problems in 2 unknowns with 2 norms of 1 or 2 entries and every kind of further term; the problem handed to the cone solver, for every feasible point', cfg=CFG, budget=120,
   quick=[dict(d=1), dict(d=2), dict(d=2, full=1)], thorough=[dict(d=1), dict(d=2), dict(d=3), dict(d=1, full=1), dict(d=2, full=1), dict(d=1, n=3), dict(d=2, n=3, full=1)])
def l1(c, d, n=2, full=0):
    opt = c.concrete_int('terms', 0, 5)
    has_c, has_q, has_l, has_k, has_a = opt in (0, 1, 5), opt in (1, 3), opt == 2, opt in (2, 3, 5), opt in (3, 4)
    m = 1 if full else 2
    own = not full and d == 1 and c.concrete_int('own G', 0, 1) == 0
    if own:
        m = n
        G = [[int(i == j) for j in range(n)] for i in range(n)]
    elif full:
        G = entries(c, 'G', m * d, n, 'csr')
    else:
        # a difference operator with weights
        w = c.reals('g', m * d)
        G = [[w[i] * ((j == i % n) - (j == (i + 1) % n)) + (j == 0) * (i // 2) for j in range(n)] for i in range(m * d)]
    kw = {}
    if not own:
        kw['G'] = c.sp.csr_array(c.array(G))
    cv = [0] * n
    if has_c:
        kw['c'] = c.reals('c', n)
        cv = c.items(kw['c'])
    Q = [[0] * n for _ in range(n)]
    if has_q:
        for i in range(n):
            for j in range(i + 1):
                Q[i][j] = Q[j][i] = c.real('Q_%d_%d' % (i, j))
        kw['Q'] = c.sp.csr_array(c.array(Q))
    if has_l:
        Lm = entries(c, 'L', n, 2, 'csr')
        kw['L'] = c.sp.csr_array(c.array(Lm))
        Q = [[sum(Lm[i][t] * Lm[j][t] for t in range(2)) for j in range(n)] for i in range(n)]
    k, yv, A, bv = [], [], [], []
    if has_k:
        k = subset(c, 'k', n, 1)
        kw['k'], kw['y'] = c.array(k, dtype=int), c.reals('y', 1)
        yv = c.items(kw['y'])
    if has_a:
        A = entries(c, 'A', 1, n, 'csr')
        kw['A'], kw['b'] = c.array(A), c.reals('b', 1, 1)
        bv = c.items(kw['b'])
    if own and not (has_c or has_q or has_l or has_a):
        return
    s = Scs(c)
    env = c.g.min_l1_with_fixed.__globals__
    old = env['scs']
    env['scs'] = s
    try:
        u = c.g.min_l1_with_fixed(d=d, **kw)
    finally:
        env['scs'] = old
    c.check(c.b(len(s.calls) == 1), 'one problem is solved')
    data, cone, x = s.calls[0]
    X = c.items(x)
    N = len(X)
    c.check(c.b(tuple(u.shape) == (n,)), 'the solution has the size of the problem')
    for i in range(n):
        c.check(c.eq(u[i], X[i]), 'the solution returned is that of the cone problem')
    Am = data['A'].toarray()
    b = c.items(data['b'])
    R = Am.shape[0]
    c.check(c.b(Am.shape[1] == N and len(b) == R), 'the cone problem is well formed')
    P = data['P'].toarray() if data.get('P') is not None else None

    def slack(v):
        return [b[i] - sum((Am[i, j] * v[j] for j in range(N)), 0) for i in range(R)]

    def objective(v):
        o = sum((t * y for t, y in zip(c.items(data['c']), v)), 0)
        if P is not None:
            for i in range(N):
                for j in range(i, N):
                    o = o + P[i, j] * v[i] * v[j] * (c.frac(1, 2) if i == j else 1)
        return o

    def wanted(v, norms):
        return sum((cv[i] * v[i] for i in range(n)), 0) + c.frac(1, 2) * sum((Q[i][j] * v[i] * v[j] for i in range(n) for j in range(n)), 0) + sum(norms, 0)

    def cones(sl):
        """the conditions on the slacks, in the order of the solver"""
        q = cone.get('q', 0)
        q = [c.concretize(t) for t in c.items(c.array(q))] if not isinstance(q, int) else [q] * (q > 0)
        z, l = c.concretize(cone.get('z', 0)), c.concretize(cone.get('l', 0))
        c.check(c.b(z + l + sum(q) == len(sl)), 'the cones cover the rows')
        out = [c.eq(t, 0) for t in sl[:z]] + [c.ge(t, 0) for t in sl[z:z + l]]
        at = z + l
        for k_ in q:
            g = sl[at:at + k_]
            out.append(c.and_(c.ge(g[0], 0), c.ge(g[0] * g[0], sum((t * t for t in g[1:]), 0))))
            at += k_
        return out
    Gu = [sum((G[r][j] * X[j] for j in range(n)), 0) for r in range(m * d)]
    which = c.concrete_int('side', 0, 1)
    if which == 0:
        # a feasible point satisfies the constraints and costs at least what is asked
        for f in cones(slack(X)):
            c.assume(f)
        for i, v in enumerate(k):
            c.check(c.eq(X[v], yv[i]), 'feasible points have the fixed values')
        for r in range(len(A)):
            c.check(c.eq(sum((A[r][j] * X[j] for j in range(n)), 0), bv[r]), 'feasible points satisfy the equalities')
        c.check(c.b(N == n + m), 'one bound per norm')
        extra = objective(X) - wanted(X, X[n:])
        c.check(c.eq(extra, 0), 'the objective is the asked one with the bounds in place of the norms')
        for i in range(m):
            t = X[n + i]
            c.check(c.ge(t, 0), 'the bounds are at least the norms')
            c.check(c.ge(t * t, sum((y * y for y in Gu[i * d:(i + 1) * d]), 0)), 'the bounds are at least the norms')
    else:
        # every point satisfying the constraints is feasible with the norms as bounds
        for i, v in enumerate(k):
            c.assume(c.eq(X[v], yv[i]))
        for r in range(len(A)):
            c.assume(c.eq(sum((A[r][j] * X[j] for j in range(n)), 0), bv[r]))
        norms = [c.sqrt(c.sos(Gu[i * d:(i + 1) * d])) for i in range(m)]
        if c.b(N == n + m):
            for f in cones(slack(X[:n] + norms)):
                c.check(f, 'points that satisfy the constraints are feasible')


# ---------------------------------------------------------------------------------------------------------------------- L03
def shape_gradients(V, f):
    """twice the signed area of a face and, times that, the gradients of its hat functions"""
    p = [[V[v, 0], V[v, 1]] for v in f]
    a = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
    g = []
    for k in range(3):
        q, r = p[(k + 1) % 3], p[(k + 2) % 3]
        g.append([q[1] - r[1], r[0] - q[0]])
    return a, g


@H('L03', 'generic planar meshes of up to 2 triangles (thorough: 3), both orientations, all materials; areas and masses given or not', cfg=CFG, budget=120,
   quick=[dict(name='tri'), dict(name='tri_x'), dict(name='diamond_r')], thorough=[dict(name=n) for n in ('tri', 'tri_r', 'tri_x', 'diamond', 'diamond_r', 'diamond_g', 'two', 'fan3')])
def stiffness(c, name):
    from harness.geo import mesh, MESHES
    V, F = mesh(c, name, 2)
    fs = MESHES[name]
    n, m = V.shape[0], len(fs)
    for f in fs:        # the scale is free
        a = shape_gradients(V, f)[0]
        c.assume(c.ge(a * a, 1))
    for x in c.items(V):
        c.assume(c.and_(c.le(x, 32), c.ge(x, -32)))
    opt = c.concrete_int('given', 0, 2)
    kw = {}
    if opt == 0:
        K0, mu = c.frac(7, 4), c.frac(23, 2000)
    else:
        K0, mu = c.real('K'), c.real('mu')
        kw = dict(K=K0, mu=mu)
    if opt == 2:
        kw['volumes'] = c.reals('vol', m)
        mass = c.reals('mass', n)
        kw['mass'] = c.sp.diags(mass)
    K, C, S, A, M = c.g.linear_elasticity_stiffness(V, F, **kw)
    K, C, S, A, M = [x.toarray() for x in (K, C, S, A, M)]
    c.check(c.b(tuple(K.shape) == (2 * n, 2 * n) and tuple(S.shape) == (3 * m, 2 * n) and tuple(C.shape) == (3 * m, 3 * m) == tuple(A.shape) and tuple(M.shape) == (2 * n, 2 * n)), 'the matrices have the sizes of the mesh')
    lam = K0 - c.frac(2, 3) * mu
    area = kw['volumes'] if opt == 2 else c.array([c.frac(1, 2) * x for x in c.items(c.g.doublearea(V, F))])
    for i, f in enumerate(fs):
        a, g = shape_gradients(V, f)
        for v in range(n):
            gx, gy = [sum((g[k][d] for k in range(3) if f[k] == v), 0) for d in range(2)]
            for r, (x, y) in enumerate([(gx, 0), (0, gy), (gy, gx)]):
                c.check(c.and_(c.eq(S[r * m + i, v] * a, x), c.eq(S[r * m + i, n + v] * a, y)), 'the strain matrix differentiates the displacement')
        for j in range(m):
            for r in range(3):
                for s in range(3):
                    want = 0 if i != j else [[lam + 2 * mu, lam, 0], [lam, lam + 2 * mu, 0], [0, 0, mu]][r][s]
                    c.check(c.eq(C[r * m + i, s * m + j], want), 'the material matrix is the isotropic one')
                    c.check(c.eq(A[r * m + i, s * m + j], area[i] if (r, i) == (s, j) else 0), 'every strain component is weighted by its area')
    W = c.g.massmatrix(V, F, 'voronoi').toarray() if opt != 2 else None
    for i in range(2 * n):
        for j in range(2 * n):
            want = 0 if i // n != j // n else W[i % n, j % n] if W is not None else (mass[i % n] if i == j else 0)
            c.check(c.eq(M[i, j], want), 'the mass matrix repeats that of the mesh in both directions')
    for i in range(2 * n):
        for j in range(i + 1):
            e = 0
            for q in range(m):
                b, d = [S[r * m + q, i] for r in range(3)], [S[r * m + q, j] for r in range(3)]
                e = e + area[q] * (lam * (b[0] + b[1]) * (d[0] + d[1]) + 2 * mu * (b[0] * d[0] + b[1] * d[1]) + mu * b[2] * d[2])
            c.check(c.eq(K[i, j], e), 'the stiffness matrix is the elastic energy')
            c.check(c.eq(K[j, i], K[i, j]), 'the stiffness matrix is symmetric')
    fields = [[1] * n + [0] * n, [0] * n + [1] * n, [0 - V[v, 1] for v in range(n)] + [V[v, 0] for v in range(n)]]
    for u in fields:
        for i in range(2 * n):
            c.check(c.eq(sum((K[i, j] * u[j] for j in range(2 * n)), 0), 0), 'rigid motions cost no energy')


@H('L03', 'one or two given triangles, every initial state, force, material and time step; no, one or two fixed vertices', cfg=dict(CFG, linsolve='stub'), budget=120,
   quick=[dict(two=0), dict(two=1)], thorough=[dict(two=0), dict(two=1), dict(two=2)])
def step(c, two):
    V, F = [([[0, 0], [2, 0], [1, 3]], [[0, 1, 2]]), ([[0, 0], [2, 0], [1, 3], [3, 2]], [[2, 0, 1], [1, 3, 2]]), ([[0, 0], [2, 0], [1, 3], [3, 2], [4, 0]], [[2, 0, 1], [1, 3, 2], [3, 1, 4]])][two]
    n, m = len(V), len(F)
    V, F = c.array(V, dtype=float), c.array(F)
    def bounded(name, *shape):
        # the step is linear in the state and the forces, so their scale is free
        x = c.reals(name, *shape)
        for y in c.items(x):
            c.assume(c.and_(c.le(y, 8), c.ge(y, -8)))
        return x
    U0 = bounded('U', n, 2)
    kw = {}
    opt = c.concrete_int('given', 0, 3)
    vel, force, dt = [[[0] * 2] * n] * 2 + [c.frac(1, 10)]
    if opt in (1, 3):
        kw['Ud0'] = bounded('v', n, 2)
        vel = kw['Ud0'].tolist()
    if opt in (2, 3):
        kw['fext'] = bounded('f', n, 2)
        force = kw['fext'].tolist()
    if opt == 3:
        dt = kw['dt'] = c.real('dt')
        c.assume(c.and_(c.ge(dt, c.frac(1, 100)), c.le(dt, 1)))
    K0, mu = c.frac(7, 4), c.frac(23, 2000)
    if opt == 2:
        K0, mu = c.reals('k', 2)
        c.assume(c.and_(c.ge(mu, c.frac(1, 100)), c.ge(K0, mu), c.le(K0, 8)))
        kw.update(K=K0, mu=mu)
    if opt == 1:
        kw['volumes'] = c.reals('vol', m)
        mass = c.reals('mass', n)
        for x in c.items(kw['volumes']) + c.items(mass):
            c.assume(c.and_(c.ge(x, c.frac(1, 8)), c.le(x, 8)))
        kw['mass'] = c.sp.diags(mass)
    fixed = c.concrete_int('fixed', 0, 2)
    bb = subset(c, 'b', n, fixed)
    if fixed:
        kw['bb'], kw['bc'] = c.array(bb, dtype=int), bounded('w', fixed, 2)
    before = c.items(U0) + [x for q in ('Ud0', 'fext', 'bc') if q in kw for x in c.items(kw[q])]
    U, sv = c.g.linear_elasticity(V, F, U0, **kw)
    after = c.items(U0) + [x for q in ('Ud0', 'fext', 'bc') if q in kw for x in c.items(kw[q])]
    for x, y in zip(before, after):
        c.check(c.eq(x, y), 'the arrays given are unchanged')
    U = c.items(U)
    c.check(c.b(len(U) == 2 * n), 'one displacement per vertex and direction')
    K, C, S, A, M = [x.toarray() for x in c.g.linear_elasticity_stiffness(V, F, K=K0, mu=mu, volumes=kw.get('volumes'), mass=kw.get('mass'))]
    for i, v in enumerate(bb):
        for d in range(2):
            c.check(c.eq(U[d * n + v], kw['bc'][i, d]), 'fixed vertices keep their displacement')
    u0 = [U0[v, d] for d in range(2) for v in range(n)]
    v0 = [vel[v][d] for d in range(2) for v in range(n)]
    f0 = [force[v][d] for d in range(2) for v in range(n)]
    for i in range(2 * n):
        if i % n in bb:
            continue
        r = 0
        for j in range(2 * n):
            r = r + M[i, j] * (U[j] - u0[j] - dt * v0[j] - dt * dt * f0[j]) + dt * dt * K[i, j] * U[j]
        c.check(c.eq(r, 0), 'the other vertices satisfy the implicit step')
    stress = []
    for q in range(m):
        e = [sum((S[r * m + q, j] * U[j] for j in range(2 * n)), 0) for r in range(3)]
        s = [sum((C[r * m + q, t * m + q] * e[t] for t in range(3)), 0) for r in range(3)]
        stress.append(s)
    c.check(c.b(len(c.items(sv)) == m), 'one stress per face')
    for q, (s, y) in enumerate(zip(stress, c.items(sv))):
        c.check(c.eq(2 * y * y, s[0] * s[0] - s[0] * s[1] + s[1] * s[1] + 3 * s[2] * s[2]), 'the stress of a face is its von Mises measure')
