from sym.harness import H
from harness.geo import *

CFG = {'div0': 'fork'}


def cot_of(c, V, f, k):
    return cosdot(c, V, f, k) / dbl(c, V, f)


@H('G01', 'generic meshes of up to 4 triangles in 2D/3D, all real coordinates with positive areas', cfg=CFG,
   quick=[dict(name='tri_x', d=3), dict(name='diamond_r', d=3), dict(name='diamond', d=2), dict(name='two', d=3)],
   thorough=[dict(name=n, d=d) for n in ('tri_r', 'tri_x', 'diamond', 'diamond_r', 'diamond_g', 'two', 'fan3', 'disk3', 'tet') for d in (2, 3) if (n, d) != ('tet', 2)])
def laplacian(c, name, d):
    V, F = mesh(c, name, d)
    fs = MESHES[name]
    n = V.shape[0]
    L = c.mat(c.g.cotangent_laplacian(V, F))
    c.check(c.b(tuple(L.shape) == (n, n)), 'one row and column per vertex')
    W = c.g.cotangent_weights(V, F)
    ref = [[0] * n for _ in range(n)]
    for i, f in enumerate(fs):
        for k in range(3):
            w = cot_of(c, V, f, k) / 2
            c.check(c.eq(W[i, k], w), 'cotangent weights are half the cotangents of the facing angles')
            a, b = f[(k + 1) % 3], f[(k + 2) % 3]
            for x, y, s in ((a, a, 1), (b, b, 1), (a, b, -1), (b, a, -1)):
                ref[x][y] = ref[x][y] + s * w
    for i in range(n):
        c.check(c.eq(sum(L[i, j] for j in range(n)), 0), 'constants are annihilated')
        for j in range(n):
            c.check(c.eq(L[i, j], L[j, i]), 'symmetric')
            c.check(c.eq(L[i, j], ref[i][j]), 'entries are sums of half cotangents')


@H('G01', 'generic meshes of up to 3 triangles in 2D/3D, all real coordinates', cfg=CFG,
   quick=[dict(name='tri_r', d=3), dict(name='diamond_r', d=2)],
   thorough=[dict(name='tri_r', d=3), dict(name='tri', d=2), dict(name='diamond_r', d=2), dict(name='diamond', d=3), dict(name='tri_x', d=3)])
def dirichlet(c, name, d):
    V, F = mesh(c, name, d)
    n, m = V.shape[0], F.shape[0]
    L = c.mat(c.g.cotangent_laplacian(V, F))
    G = c.mat(c.g.grad(V, F))
    A = c.g.doublearea(V, F)
    for i in range(n):
        for j in range(n):
            s = 0
            for k in range(m):
                for x in range(d):
                    s = s + G[x * m + k, i] * G[x * m + k, j] * A[k] / 2
            c.check(c.eq(L[i, j], s), 'Laplacian is the Dirichlet form of the gradient (hence positive semi-definite)')


@H('G01', 'one triangle, all real coordinates and vertex values', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def psd(c, d):
    V, F = mesh(c, 'tri_r', d)
    x = c.reals('x', 3)
    L = c.mat(c.g.cotangent_laplacian(V, F))
    q = 0
    for i in range(3):
        for j in range(3):
            q = q + x[i] * L[i, j] * x[j]
    f = MESHES['tri_r'][0]
    # twice the area times the energy is half the squared length of a vector
    w = [0] * d
    for k in range(3):
        o = vec(V, f[(k + 1) % 3], f[(k + 2) % 3])
        w = [w[t] + x[f[k]] * o[t] for t in range(d)]
    c.check(c.eq(q * dbl(c, V, f) * 2, c.dot(w, w)), 'the energy is a square over the area')


@H('G01', 'one interior vertex with three triangles, all real planar coordinates, counterclockwise', cfg=CFG,
   quick=[dict(name='disk3')], thorough=[dict(name='disk3')])
def linear_precision(c, name):
    V, F = mesh(c, name, 2, oriented=True)
    L = c.mat(c.g.cotangent_laplacian(V, F))
    n = V.shape[0]
    for k in range(2):
        c.check(c.eq(sum(L[0, j] * V[j, k] for j in range(n)), 0), 'linear functions are harmonic at interior vertices of flat meshes')


# ------------------------------------------------------------------------------------------------ G02
INTR = ['doublearea', 'massmatrix_v', 'massmatrix_b', 'massmatrix_f', 'cotangent_weights', 'cotangent_laplacian', 'tip_angles', 'tip_angles_n', 'angle_defect',
        'dec_h0', 'dec_h1', 'dec_h2', 'dec_h1inv', 'dec_h2inv', 'dec_h0inv', 'biharmonic_energy']


@H('G02', 'every operator pair on generic meshes of up to 3 triangles, all real coordinates', cfg=dict(CFG, div0='assume'),
   quick=[dict(name='diamond_r', d=3, skip=('massmatrix_v', 'biharmonic_energy', 'tip_angles')), dict(name='tri_x', d=2)],
   thorough=[dict(name=n, d=d) for n in ('tri_x', 'tri_r') for d in (2, 3)] + [dict(name=n, d=d, skip=('massmatrix_v', 'biharmonic_energy', 'tip_angles')) for n in ('diamond_r', 'diamond_g', 'fan3') for d in (2, 3)])
def pairs(c, name, d, skip=()):
    """extrinsic operators equal their intrinsic version fed with independently computed squared lengths"""
    g = c.g
    which = c.concrete_int('which', 0, len(INTR) - 1)
    V, F = mesh(c, name, d)
    n = V.shape[0]
    l = lsq(c, V, MESHES[name])
    hl = g.halfedge_lengths_squared(V, F)
    for i in range(F.shape[0]):
        for k in range(3):
            c.check(c.eq(hl[i, k], l[i, k]), 'squared half-edge lengths')
    if which == 0:
        h1 = g.halfedge_lengths(V, F)
        for i in range(F.shape[0]):
            for k in range(3):
                c.check(c.and_(c.eq(h1[i, k] * h1[i, k], l[i, k]), c.ge(h1[i, k], 0)), 'half-edge lengths')
    nm = INTR[which]
    if nm in skip:
        return
    if nm.startswith('tip'):
        for k in range(3):
            for i in range(F.shape[0]):
                c.assume(c.ge(l[i, k], c.frac(1, 1000)))
    f2 = {'massmatrix_v': ('massmatrix', dict(type='voronoi')), 'massmatrix_b': ('massmatrix', dict(type='barycentric')), 'massmatrix_f': ('massmatrix', dict(type='full')),
          'tip_angles_n': ('tip_angles', dict(use_small_angle_approx=False)), 'angle_defect': ('angle_defect', dict(use_small_angle_approx=False)),
          }.get(nm, (nm, {}))
    a = c.mat(getattr(g, f2[0])(V, F, **f2[1]))
    kw = dict(f2[1])
    if name.startswith('diamond_r'):
        pass        # the number of vertices is inferred from the faces
    elif nm.startswith('massmatrix') or nm in ('cotangent_laplacian', 'angle_defect', 'dec_h0', 'dec_h0inv', 'biharmonic_energy'):
        kw['n'] = n
    b = c.mat(getattr(g, f2[0] + '_intrinsic')(l, F, **kw))
    c.check(c.eq(a, b), nm + ': extrinsic equals intrinsic')


@H('G02', 'one segment, all rotations (quaternions), translations and coordinates', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def rigid(c, d):
    g = c.g
    V, F = mesh(c, 'tri', d)
    t = c.reals('t', d)
    q = c.reals('q', 2 if d == 2 else 4)
    nq = c.sos(list(q))
    c.assume(c.gt(nq, 0))
    if d == 2:
        a, b = q[0], q[1]
        R = [[a * a - b * b, -2 * a * b], [2 * a * b, a * a - b * b]]
    else:
        w, x, y, z = q[0], q[1], q[2], q[3]
        R = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    V2 = c.array([[sum(R[k][j] * V[i, j] for j in range(d)) / nq + t[k] for k in range(d)] for i in range(3)])
    c.check(c.eq(g.halfedge_lengths_squared(V2, F), g.halfedge_lengths_squared(V, F)), 'squared lengths are invariant under rigid motions')


@H('G02', 'one triangle, all edge lengths of a non-degenerate triangle, all scales > 0', cfg=CFG, quick=[dict(d=3)])
def scaling(c, d):
    g = c.g
    V, F = mesh(c, 'tri_r', d)
    s = c.nonneg(c.real('s'))
    c.assume(c.gt(s, 0))
    which = c.concrete_int('which', 0, 4)
    V2 = c.array([[s * V[i, k] for k in range(d)] for i in range(3)])
    nm, p, kw = [('doublearea', 2, {}), ('massmatrix', 2, dict(type='barycentric')), ('cotangent_laplacian', 0, {}), ('massmatrix', 2, dict(type='full')), ('cotangent_weights', 0, {})][which]
    a = c.mat(getattr(g, nm)(V2, F, **kw))
    b = c.mat(getattr(g, nm)(V, F, **kw))
    f = s * s if p == 2 else 1
    for x, y in zip(c.items(a), c.items(b)):
        c.check(c.eq(x, y * f), nm + ' scales with length**%d' % p)


# ------------------------------------------------------------------------------------------------ G03
@H('G03', 'generic triangles in 2D and 3D and segments, all real coordinates, all linear functions', cfg=CFG,
   quick=[dict(name='tri_x', d=3), dict(name='diamond_r', d=2), dict(name='tri_r', d=2)],
   thorough=[dict(name=n, d=d) for n in ('tri_x', 'tri_r', 'diamond_r', 'diamond_g', 'disk3') for d in (2, 3)])
def gradient(c, name, d):
    V, F = mesh(c, name, d)
    fs = MESHES[name]
    n, m = V.shape[0], F.shape[0]
    G = c.mat(c.g.grad(V, F))
    c.check(c.b(tuple(G.shape) == (d * m, n)), 'd rows per face, one column per vertex')
    for i, f in enumerate(fs):
        u, w = vec(V, f[0], f[1]), vec(V, f[0], f[2])
        for v in range(n):
            col = [G[k * m + i, v] for k in range(d)]
            if v not in f:
                c.check(c.eq(c.array(col), 0), 'vertices outside a face do not matter')
                continue
            a = f.index(v)
            h = [1 if a == k else 0 for k in range(3)]
            # the gradient of the hat function: tangential, and exact along both edges
            c.check(c.eq(c.dot(col, u), h[1] - h[0]), 'gradient is exact along the first edge')
            c.check(c.eq(c.dot(col, w), h[2] - h[0]), 'gradient is exact along the second edge')
            if d == 3:
                c.check(c.eq(c.dot(col, c.cross(u, w)), 0), 'gradient is tangential')


@H('G03', 'a polyline of 3 segments in 1D..3D, all real coordinates', cfg=CFG, quick=[dict(d=1), dict(d=3)])
def gradient_segments(c, d):
    V = c.reals('V', 4, d)
    E = [[0, 1], [2, 1], [1, 3]]
    full = c.concrete_int('default', 0, 1)
    if full:
        E = [[0, 1], [1, 2], [2, 3]]
    for e in E:
        c.assume(c.gt(c.sos(vec(V, *e)), 0))
    G = c.mat(c.g.grad(V) if full else c.g.grad(V, c.array(E)))
    c.check(c.b(tuple(G.shape) == (3, 4)), 'one row per segment')
    for i, e in enumerate(E):
        l = c.sqrt(sqlen(c, V, *e))
        for v in range(4):
            c.check(c.eq(G[i, v] * l, {e[0]: -1, e[1]: 1}.get(v, 0)), 'arc-length derivative per segment')


@H('G02', 'gradients of one or two triangles given by any edge lengths', cfg=CFG, quick=[dict(name='tri_x'), dict(name='diamond_r')])
@H('G03', 'one or two triangles given by any edge lengths', cfg=CFG, quick=[dict(name='tri_x'), dict(name='diamond_r')], thorough=[dict(name=x) for x in ('tri_x', 'tri_r', 'diamond', 'diamond_r', 'diamond_g')])
def gradient_intrinsic(c, name):
    """same inner products of gradients as any embedding has"""
    l, dots, ds, F = gram(c, name)
    fs = MESHES[name]
    n, m = 1 + max(max(f) for f in fs), len(fs)
    dflt = c.concrete_int('default n', 0, 1)
    G = c.mat(c.g.grad_intrinsic(l, F) if dflt else c.g.grad_intrinsic(l, F, n=n + 1))
    if not dflt:
        n += 1
    c.check(c.b(tuple(G.shape) == (2 * m, n)), 'two rows per face')
    for i, f in enumerate(fs):
        for a in range(3):
            for b in range(a + 1):
                s = G[i, f[a]] * G[i, f[b]] + G[m + i, f[a]] * G[m + i, f[b]]
                oo = l[i, a] if a == b else -dots[i][3 - a - b]
                c.check(c.eq(s * ds[i] * ds[i], oo), 'gradients of hat functions have the metric of the triangle')
        for x in (i, m + i):
            c.check(c.eq(sum(G[x, v] for v in range(n)), 0), 'constants have no gradient')
            for v in range(n):
                if v not in f:
                    c.check(c.eq(G[x, v], 0), 'vertices outside a face do not matter')


# ------------------------------------------------------------------------------------------------ G04
@H('G04', 'generic meshes of up to 3 triangles, all real coordinates', cfg=CFG,
   quick=[dict(name='tri_x', d=3), dict(name='tri_x', d=2), dict(name='diamond_r', d=3), dict(name='diamond', d=2)],
   thorough=[dict(name=n, d=d) for n in ('tri_x', 'diamond', 'diamond_r', 'diamond_g', 'two', 'disk3') for d in (2, 3)])
def areas_masses(c, name, d):
    V, F = mesh(c, name, d)
    g = c.g
    fs = MESHES[name]
    n, m = V.shape[0], F.shape[0]
    A = g.doublearea(V, F)
    c.check(c.b(A.shape == (m,)), 'one area per face')
    D = [dbl(c, V, f) for f in fs]
    for i in range(m):
        c.check(c.eq(A[i], D[i]), 'double area is the cross product length')
    if d == 2:
        S = g.doublearea(V, F, signed=True)
        for i, f in enumerate(fs):
            u, w = vec(V, f[0], f[1]), vec(V, f[0], f[2])
            c.check(c.eq(S[i], u[0] * w[1] - u[1] * w[0]), 'signed double area is positive counterclockwise')
    B = g.barycenters(V, F)
    for i, f in enumerate(fs):
        for k in range(d):
            c.check(c.eq(B[i, k] * 3, V[f[0], k] + V[f[1], k] + V[f[2], k]), 'barycenter is the corner average')
    for ty in ('barycentric', 'full'):
        M = c.mat(g.massmatrix(V, F, type=ty))
        c.check(c.b(tuple(M.shape) == (n, n)), 'one row and column per vertex')
        for i in range(n):
            for j in range(n):
                s = 0
                for k, f in enumerate(fs):
                    if i in f and j in f:
                        if ty == 'full':
                            s = s + D[k] / (12 if i == j else 24)
                        elif i == j:
                            s = s + D[k] / 6
                c.check(c.eq(M[i, j], s), ty + ' mass matrix')


def voronoi_ref(c, fs, n, lens, dots, ds):
    ref = [0] * n
    for i, f in enumerate(fs):
        D = ds[i]
        obt = [k for k in range(3) if c.decide(c.lt(dots[i][k], 0))]
        for k in range(3):
            if obt:
                ref[f[k]] = ref[f[k]] + D / (4 if obt[0] == k else 8)
            else:
                a, b = (k + 1) % 3, (k + 2) % 3
                ref[f[k]] = ref[f[k]] + (lens[i][a] * dots[i][a] + lens[i][b] * dots[i][b]) / (8 * D)
    return ref


def check_masses(c, M, ref, ds):
    tot = 0
    n = len(ref)
    c.check(c.b(tuple(M.shape) == (n, n)), 'one row and column per vertex')
    for i in range(n):
        for j in range(n):
            c.check(c.eq(M[i, j], ref[i] if i == j else 0), 'voronoi mass matrix (mixed areas for obtuse triangles)')
        tot = tot + M[i, i]
    c.check(c.eq(tot, sum(ds) / 2), 'masses sum to the area')


@H('G04', 'one triangle in 2D/3D, all real coordinates', cfg=CFG, budget=120,
   quick=[dict(name='tri_x', d=2), dict(name='tri_r', d=3)], thorough=[dict(name=n, d=d) for n in ('tri', 'tri_x', 'tri_r') for d in (2, 3)])
def voronoi_masses(c, name, d):
    V, F = mesh(c, name, d)
    fs = MESHES[name]
    n = V.shape[0]
    M = c.mat(c.g.massmatrix(V, F) if name != 'tri_x' else c.g.massmatrix(V, F, type='voronoi'))
    ds = [dbl(c, V, f) for f in fs]
    dots = [[cosdot(c, V, f, k) for k in range(3)] for f in fs]
    check_masses(c, M, voronoi_ref(c, fs, n, lsq(c, V, fs).tolist(), dots, ds), ds)


@H('G04', 'one triangle or two sharing an edge, all edge lengths', cfg=CFG, budget=120,
   quick=[dict(name='diamond_r')], thorough=[dict(name=n) for n in ('tri_r', 'tri_x', 'diamond', 'diamond_r', 'diamond_g')])
def voronoi_intrinsic(c, name):
    l, dots, ds, F = gram(c, name)
    fs = MESHES[name]
    n = 1 + max(max(f) for f in fs)
    dflt = c.concrete_int('default n', 0, 1)
    M = c.mat(c.g.massmatrix_intrinsic(l, F) if dflt else c.g.massmatrix_intrinsic(l, F, n=n + 1, type='voronoi'))
    check_masses(c, M, voronoi_ref(c, fs, n if dflt else n + 1, [[l[i, k] for k in range(3)] for i in range(len(fs))], dots, ds), ds)


@H('G04', 'one tetrahedron pair, segments; all real coordinates', cfg=CFG, quick=[dict(what=0), dict(what=1), dict(what=2)])
def volumes_lengths(c, what):
    g = c.g
    if what == 0:
        V = c.reals('V', 5, 3)
        T = [[0, 1, 2, 3], [4, 2, 0, 3]]
        vol = g.volume(V, c.array(T))
        c.check(c.b(vol.shape == (2,)), 'one volume per tetrahedron')
        for i, t in enumerate(T):
            c.check(c.eq(vol[i] * 6, c.det([vec(V, t[0], t[k]) for k in (1, 2, 3)])), 'signed volume is a sixth of the determinant')
        B = g.barycenters(V, c.array(T))
        for i, t in enumerate(T):
            for k in range(3):
                c.check(c.eq(B[i, k] * 4, sum(V[t[a], k] for a in range(4))), 'barycenter is the corner average')
        return
    d = 2 if what == 1 else 3
    V = c.reals('V', 4, d)
    dflt = c.concrete_int('default', 0, 1)
    E = [[0, 1], [1, 2], [2, 3]] if dflt else [[0, 1], [3, 1]]
    for e in E:
        c.sos(vec(V, *e))
    Ea = c.array(E)
    A = g.doublearea(V) if dflt else g.doublearea(V, Ea)
    M = c.mat(g.massmatrix(V) if dflt else g.massmatrix(V, Ea))
    ls = [c.sqrt(sqlen(c, V, *e)) for e in E]
    for i in range(len(E)):
        c.check(c.eq(A[i], 2 * ls[i]), 'twice the length')
    for i in range(4):
        for j in range(4):
            s = 0
            if i == j:
                for k, e in enumerate(E):
                    if i in e:
                        s = s + ls[k] / 2
            c.check(c.eq(M[i, j], s), 'lumped length masses')
