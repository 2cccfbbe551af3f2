from sym.harness import H
from harness.geo import *

CFG = {'div0': 'fork'}


# ------------------------------------------------------------------------------------------------ G05
@H('G05', 'one or two triangles with all edge lengths (needles included), both small-angle settings', cfg=dict(CFG, tol=1e-5),
   quick=[dict(name='tri_r', approx=True), dict(name='diamond_r', approx=False)],
   thorough=[dict(name=n, approx=a) for n in ('tri_r', 'diamond_r', 'diamond_g') for a in (True, False) if n == 'tri_r' or not a])
def tips(c, name, approx):
    l, dots, ds, F = gram(c, name)
    fs = MESHES[name]
    A = c.g.tip_angles_intrinsic(l, F) if approx else c.g.tip_angles_intrinsic(l, F, use_small_angle_approx=False)
    c.check(c.b(tuple(A.shape) == (len(fs), 3)), 'one angle per corner')
    for i in range(len(fs)):
        for k in range(3):
            p, q, o = l[i, (k + 1) % 3], l[i, (k + 2) % 3], l[i, k]
            a = A[i, k]
            cosk = dots[i][k] / (c.sqrt(p) * c.sqrt(q))
            exact = c.and_(c.eq(c.cos(a), cosk), c.ge(a, 0), c.le(a, c.pi))
            if approx:
                # the series is only used where it is accurate: opposite edge tiny relative to the others
                m = c.frac(1, 10**5)
                exact = c.or_(exact, c.and_(c.ge(a, 0), c.eq(a * a, 2 - 2 * cosk), c.le(o, m * p), c.le(o, m * q)))
            c.check(exact, 'tip angle obeys the law of cosines')


@H('G05', 'one triangle in 2D/3D, all coordinates', cfg=CFG, quick=[dict(name='tri_r', d=3), dict(name='tri_x', d=2)])
def tips_extrinsic(c, name, d):
    V, F = mesh(c, name, d)
    A = c.g.tip_angles(V, F, use_small_angle_approx=False)
    for i, f in enumerate(MESHES[name]):
        for k in range(3):
            p, q = sqlen(c, V, f[k], f[(k + 1) % 3]), sqlen(c, V, f[k], f[(k + 2) % 3])
            c.check(c.and_(c.eq(c.cos(A[i, k]) * c.sqrt(p) * c.sqrt(q), cosdot(c, V, f, k)), c.ge(A[i, k], 0), c.le(A[i, k], c.pi)), 'tip angle is the angle between the edges')


@H('G05', 'meshes of up to 4 triangles with arbitrary tip angles', cfg=CFG,
   quick=[dict(name='diamond_g'), dict(name='disk3', turn=3), dict(name='tet'), dict(name='fan3')],
   thorough=[dict(name=n, turn=4) for n in ('tri_x', 'two', 'fan3', 'diamond_g', 'disk3', 'tet')])
def defect(c, name, turn=0):
    """every set of squared lengths; the angles are the library's own (checked above)"""
    # every choice of the first corner of a face
    fs = [list(f) for f in MESHES[name]]
    for i in range(min(turn, len(fs))):
        k = c.concrete_int('turn%d' % i, 0, 2)
        fs[i] = fs[i][k:] + fs[i][:k]
    F = c.array(fs)
    n = 1 + max(max(f) for f in fs)
    edges = sorted({tuple(sorted((f[a], f[b]))) for f in fs for a in range(3) for b in range(a)})
    sq = {e: c.nonneg(c.real('l%d_%d' % e)) for e in edges}
    for e in edges:
        c.assume(c.gt(sq[e], 0))
    l = c.array([[sq[tuple(sorted((f[(k + 1) % 3], f[(k + 2) % 3])))] for k in range(3)] for f in fs])
    for i, f in enumerate(fs):
        p, q, r = l[i, 0], l[i, 1], l[i, 2]
        c.nonneg(4 * p * q - (p + q - r) * (p + q - r))
    A = c.g.tip_angles_intrinsic(l, F, use_small_angle_approx=False)
    which = c.concrete_int('n given', 0, 1)
    N = n + 1 if which else n
    K = c.g.angle_defect_intrinsic(l, F, n=N, use_small_angle_approx=False) if which else c.g.angle_defect_intrinsic(l, F, use_small_angle_approx=False)
    c.check(c.b(K.shape == (N,)), 'one value per vertex')
    cnt = {}
    for f in fs:
        for a in range(3):
            e = tuple(sorted((f[a], f[(a + 1) % 3])))
            cnt[e] = cnt.get(e, 0) + 1
    bd = {v for e, k in cnt.items() if k == 1 for v in e}
    for v in range(n):
        s = 0
        ref = False
        for i, f in enumerate(fs):
            for k in range(3):
                if f[k] == v:
                    s = s + A[i, k]
                    ref = True
        if ref:
            c.check(c.eq(K[v], 0 if v in bd else 2 * c.pi - s), 'angle defect: 2 pi minus the incident angles inside, zero on the boundary')


@H('G05', 'open and closed fans of 3..4 isosceles triangles (thorough: 2..6), with 60, 90 or 120 degrees at the hub', cfg=CFG, quick=[dict(n=3), dict(n=4)], thorough=[dict(n=n) for n in (2, 3, 4, 5, 6)])
def hub(c, n):
    closed = c.concrete_int('closed', 0, 1) if n > 2 else 0
    fs = [[0, i + 1, (i + 1) % n + 1 if closed else i + 2] for i in range(n)]
    a, prev = [], 0
    for i in range(n):      # a fan with the angles in order stands for its permutations
        prev = c.concrete_int('angle%d' % i, prev, 2)
        a.append(prev)
    l = c.array([[1 + x, 1, 1] for x in a], dtype=float)
    K = c.g.angle_defect_intrinsic(l, c.array(fs))
    s = sum([c.pi * c.frac([2, 3, 4][x], 6) for x in a], 0)
    c.check(c.eq(K[0], 2 * c.pi - s if closed else 0), 'angle defect: 2 pi minus the incident angles inside, zero on the boundary')
    for v in range(1, n + (not closed) + 1):
        c.check(c.eq(K[v], 0), 'angle defect: 2 pi minus the incident angles inside, zero on the boundary')


@H('G05', 'two triangles sharing an edge in every rotation, all 3D coordinates', cfg=CFG, budget=120,
   quick=[dict(r0=0, r1=2), dict(r0=1, r1=1)], thorough=[dict(r0=a, r1=b) for a in range(3) for b in range(3)])
def dihedral(c, r0, r1):
    t0, t1 = [0, 1, 2], [1, 0, 3]
    fs = [t0[r0:] + t0[:r0], t1[r1:] + t1[:r1]]
    MESHES['_dih'] = fs
    V, F = mesh(c, '_dih', 3)
    T = c.g.dihedral_angles(V, F)
    c.check(c.b(tuple(T.shape) == (2, 3)), 'one angle per half-edge')
    N = []
    for f in fs:
        N.append(c.cross(vec(V, f[0], f[1]), vec(V, f[0], f[2])))
    ln = [dbl(c, V, f) for f in fs]
    for i, f in enumerate(fs):
        for k in range(3):
            if f[k] in (2, 3):
                a = T[i, k]
                c.check(c.b(not c.isnan(a)), 'interior edges have an angle')
                cs = c.dot(N[0], N[1]) / (ln[0] * ln[1])
                c.check(c.and_(c.eq(c.cos(a), cs), c.ge(a, 0), c.le(a, c.pi)), 'dihedral angle is the angle between the normals')
                c.check(c.eq(T[0, (2 - r0) % 3], T[1, (2 - r1) % 3]), 'both sides agree')
            else:
                c.check(c.b(bool(c.isnan(T[i, k]))), 'boundary half-edges are nan')


# ------------------------------------------------------------------------------------------------ G06
@H('G06', 'generic meshes of up to 2 triangles in 3D, all coordinates', cfg=CFG, quick=[dict(name='tri_x'), dict(name='diamond_r')],
   thorough=[dict(name=n) for n in ('tri_x', 'tri_r', 'diamond', 'diamond_r', 'diamond_g', 'two', 'disk3', 'tet')])
def face_normals(c, name):
    V, F = mesh(c, name, 3)
    fs = MESHES[name]
    N1 = c.g.per_face_normals(V, F)
    N0 = c.g.per_face_normals(V, F, unit_norm=False)
    c.check(c.b(tuple(N1.shape) == (len(fs), 3) and tuple(N0.shape) == (len(fs), 3)), 'one normal per face')
    for i, f in enumerate(fs):
        x = c.cross(vec(V, f[0], f[1]), vec(V, f[0], f[2]))
        D = dbl(c, V, f)
        for k in range(3):
            c.check(c.eq(N0[i, k], x[k]), 'unnormalised normal is the cross product (right-hand rule, twice the area)')
            c.check(c.eq(N1[i, k] * D, x[k]), 'unit normal is parallel to it')


@H('G06', 'two segments in 2D, all coordinates', cfg=CFG, quick=[dict()])
def face_normals_2d(c):
    V = c.reals('V', 3, 2)
    E = [[0, 1], [1, 2]]
    for e in E:
        c.assume(c.gt(c.sos(vec(V, *e)), 0))
    N1 = c.g.per_face_normals(V, c.array(E))
    N0 = c.g.per_face_normals(V, c.array(E), unit_norm=False)
    for i, e in enumerate(E):
        t = vec(V, *e)
        l = c.sqrt(sqlen(c, V, *e))
        c.check(c.and_(c.eq(N0[i, 0], t[1]), c.eq(N0[i, 1], -t[0])), 'normal is the edge turned clockwise')
        c.check(c.and_(c.eq(N1[i, 0] * l, t[1]), c.eq(N1[i, 1] * l, -t[0])), 'unit normal is parallel to it')


@H('G06', 'generic meshes of up to 4 triangles in 3D or 3 segments in 2D, all coordinates', cfg=CFG, budget=120,
   quick=[dict(name='diamond_r', d=3), dict(name='tri', d=3), dict(name='seg', d=2)],
   thorough=[dict(name=n, d=3) for n in ('tri', 'tri_r', 'diamond', 'diamond_r', 'fan3', 'disk3', 'tet')] + [dict(name='seg', d=2)])
def vertex_normals(c, name, d):
    if name == 'seg':
        V = c.reals('V', 4, 2)
        fs = [[0, 1], [1, 2], [3, 1]]
        for e in fs:
            c.assume(c.gt(c.sos(vec(V, *e)), 0))
        F = c.array(fs)
        nf = [[vec(V, *e)[1], -vec(V, *e)[0]] for e in fs]
    else:
        V, F = mesh(c, name, d)
        fs = MESHES[name]
        nf = [c.cross(vec(V, f[0], f[1]), vec(V, f[0], f[2])) for f in fs]
    sums = []
    for v in range(V.shape[0]):
        s = [0] * d
        for f, x in zip(fs, nf):
            if v in f:
                s = c.add(s, x)
        c.assume(c.gt(c.sos(s), 0))
        sums.append(s)
    N = c.g.per_vertex_normals(V, F)
    c.check(c.b(tuple(N.shape) == (V.shape[0], d)), 'one normal per vertex')
    for v, s in enumerate(sums):
        l = c.sqrt(c.dot(s, s))
        for k in range(d):
            c.check(c.eq(N[v, k] * l, s[k]), 'vertex normal is the normalised area-weighted sum of the face normals', unit=lambda: sum(c.dot(x, x) for x in nf) ** .5)


@H('G06', 'two perpendicular triangles on a common edge, every size and shape', cfg=CFG, quick=[dict(flip=0), dict(flip=1)])
def vertex_normals_hinge(c, flip):
    a, q, s = [c.nonneg(c.real(n)) for n in 'aqs']
    for x in (a, q, s):
        c.assume(c.gt(x, 0))
    p, r = c.real('p'), c.real('r')
    V = c.array([[0, 0, 0], [a, 0, 0], [p, q, 0], [r, 0, s]])
    F = [[0, 1, 2], [3, 1, 0] if flip else [1, 3, 0]]
    N = c.g.per_vertex_normals(V, c.array(F))
    n0, n1 = [c.cross(vec(V, f[0], f[1]), vec(V, f[0], f[2])) for f in F]
    for v, x in enumerate((c.add(n0, n1), c.add(n0, n1), n0, n1)):
        l = c.dot(list(N[v]), list(N[v]))
        c.check(c.eq(l, 1), 'vertex normals have unit length')
        for i in range(3):
            for j in range(i):
                c.check(c.eq(N[v, i] * x[j], N[v, j] * x[i]), 'vertex normal is parallel to the area-weighted sum of the face normals', unit=lambda: abs(a * (q + s)))
        c.check(c.gt(c.dot(list(N[v]), x), 0), 'vertex normal points to the side of the area-weighted sum', unit=lambda: abs(a * (q + s)))


# ------------------------------------------------------------------------------------------------ G07
@H('G07', 'edge-manifold meshes of up to 6 triangles with every vertex labelling', cfg=CFG,
   quick=[dict(name='diamond'), dict(name='disk3'), dict(name='tet')], thorough=[dict(name=n) for n in ('tri', 'diamond', 'two', 'bowtie', 'fan3', 'disk3', 'tet', 'annulus6', 'strip3', 'tetopen')])
def dec_derivatives(c, name):
    from harness.topo import labelled
    g = c.g
    F, n = labelled(c, name)
    he, E, he_to_E, E_to_he = g.halfedge_edge_map(F, assume_manifold=True)
    which = c.concrete_int('given', 0, 2)
    d0 = c.mat(g.dec_d0(F) if which == 0 else g.dec_d0(F, E=E, n=n + 1) if which == 1 else g.dec_d0(F, n=n))
    d1 = c.mat(g.dec_d1(F) if which != 1 else g.dec_d1(F, E_to_he=E_to_he))
    ne, m = E.shape[0], F.shape[0]
    N = n + 1 if which == 1 else n
    c.check(c.b(tuple(d0.shape) == (ne, N) and tuple(d1.shape) == (m, ne)), 'operator sizes')
    for e in range(ne):
        for v in range(N):
            x = d0[e, v]
            t, h = c.b2i(c.eq(E[e, 0], v)), c.b2i(c.eq(E[e, 1], v))
            c.check(c.eq(x, t - h), 'd0 is the difference along each edge')
    for f in range(m):
        for e in range(ne):
            x = d1[f, e]
            s = 0
            for k in range(3):
                a, b = F[f, (k + 1) % 3], F[f, (k + 2) % 3]
                s = s + c.b2i(c.and_(a == E[e, 0], b == E[e, 1])) - c.b2i(c.and_(b == E[e, 0], a == E[e, 1]))
            c.check(c.eq(x, s), 'd1 is the signed sum around each face')
        for v in range(N):
            c.check(c.eq(sum(d1[f, e] * d0[e, v] for e in range(ne)), 0), 'differentiating twice gives zero')


@H('G07', 'meshes of up to 4 triangles (closed and open), all real coordinates', cfg=CFG,
   quick=[dict(name='diamond_r', d=2), dict(name='tri_r', d=3), dict(name='tri_x', d=3)],
   thorough=[dict(name=n, d=d) for n in ('tri_r', 'tri_x', 'diamond_r', 'diamond_g', 'fan3', 'disk3', 'tet') for d in (2, 3) if (n, d) != ('tet', 2)])
def dec_stars(c, name, d):
    g = c.g
    V, F = mesh(c, name, d)
    fs = MESHES[name]
    n, m = V.shape[0], len(fs)
    D = [dbl(c, V, f) for f in fs]
    for x in D:         # the scale is free
        c.assume(c.ge(x * x, 1))
    he, E, he_to_E, E_to_he = g.halfedge_edge_map(F, assume_manifold=True)
    ne = E.shape[0]
    Ec = [[c.concretize(E[i, j]) for j in range(2)] for i in range(ne)]
    part = c.concrete_int('part', 0, 3)
    if part == 0:
        h0, i0 = c.mat(g.dec_h0(V, F)), c.mat(g.dec_h0inv(V, F))
        c.check(c.b(tuple(h0.shape) == (n, n) and tuple(i0.shape) == (n, n)), 'operator sizes')
        for i in range(n):
            tot = sum([D[k] / 6 for k, f in enumerate(fs) if i in f], 0)
            for j in range(n):
                c.check(c.eq(h0[i, j], tot if i == j else 0), 'h0 is the barycentric vertex area')
                c.check(c.eq(i0[i, j] * tot, 1 if i == j and any(i in f for f in fs) else 0), 'h0inv is the inverse')
    elif part == 1:
        h2, i2 = c.mat(g.dec_h2(V, F)), c.mat(g.dec_h2inv(V, F))
        c.check(c.b(tuple(h2.shape) == (m, m) and tuple(i2.shape) == (m, m)), 'operator sizes')
        for i in range(m):
            for j in range(m):
                c.check(c.eq(h2[i, j], D[i] / 2 if i == j else 0), 'h2 is the face area')
                c.check(c.eq(i2[i, j] * D[i], 2 if i == j else 0), 'h2inv is the inverse')
    else:
        cots = []
        for e in Ec:
            s = 0
            for i, f in enumerate(fs):
                if e[0] in f and e[1] in f:
                    k = [t for t in range(3) if f[t] not in e][0]
                    s = s + cosdot(c, V, f, k) / (2 * D[i])
            cots.append(s)
        given = c.concrete_int('given', 0, 1)
        kw = dict(E_to_he=E_to_he) if given else {}
        if part == 2:
            h1 = c.mat(g.dec_h1(V, F, **kw))
            c.check(c.b(tuple(h1.shape) == (ne, ne)), 'operator sizes')
            for i in range(ne):
                for j in range(ne):
                    c.check(c.eq(h1[i, j], cots[i] if i == j else 0), 'h1 is the half cotangent sum')
            d0 = c.mat(g.dec_d0(F, n=n))
            L = c.mat(g.cotangent_laplacian(V, F))
            for i in range(n):
                for j in range(n):
                    c.check(c.eq(L[i, j], sum(d0[e, i] * h1[e, e] * d0[e, j] for e in range(ne))), 'd0^T h1 d0 is the cotangent Laplacian')
        else:
            for s in cots:
                c.assume(c.not_(c.eq(s, 0)))
            i1 = c.mat(g.dec_h1inv(V, F, **kw))
            c.check(c.b(tuple(i1.shape) == (ne, ne)), 'operator sizes')
            for i in range(ne):
                for j in range(ne):
                    c.check(c.eq(i1[i, j] * cots[i], 1 if i == j else 0), 'h1inv is the inverse')


# ------------------------------------------------------------------------------------------------ G08
@H('G08', 'one or two triangles, all edge lengths / all coordinates', cfg=dict(CFG, div0='assume'), budget=120,
   quick=[dict(name='tri_r'), dict(name='diamond_r')], thorough=[dict(name=n) for n in ('tri_r', 'tri_x', 'diamond_r', 'diamond_g')])
def biharmonic_mixed(c, name):
    g = c.g
    l, dots, ds, F = gram(c, name)
    fs = MESHES[name]
    n = 1 + max(max(f) for f in fs)
    Q = c.mat(g.biharmonic_energy_intrinsic(l, F))
    L = c.mat(g.cotangent_laplacian_intrinsic(l, F))
    M = c.mat(g.massmatrix_intrinsic(l, F, type='voronoi'))
    ref = sorted({v for f in fs for v in f})
    for i in range(n):
        for j in range(n):
            c.check(c.eq(Q[i, j], sum(L[k, i] * L[k, j] / M[k, k] for k in ref)), 'biharmonic energy is the mass-weighted squared Laplacian')
            c.check(c.eq(Q[i, j], Q[j, i]), 'symmetric')
        c.check(c.eq(sum(Q[i, j] for j in range(n)), 0), 'constants have no energy')


@H('G08', 'one interior vertex with three triangles, all planar coordinates, counterclockwise; one triangle', cfg=dict(CFG, div0='assume', check_timeout=15), budget=120,
   quick=[dict(name='disk3', d=2)], thorough=[dict(name='disk3', d=2), dict(name='disk3', d=3)])
def biharmonic_hessian(c, name, d):
    g = c.g
    V, F = mesh(c, name, d, oriented=True, unit=True)
    fs = MESHES[name]
    n, m = V.shape[0], len(fs)
    Q = c.mat(g.biharmonic_energy(V, F, bc='hessian'))
    for i in range(n):
        c.check(c.eq(sum(Q[i, j] for j in range(n)), 0), 'constants have no energy')
        for j in range(i):
            c.check(c.eq(Q[i, j], Q[j, i]), 'symmetric')
        if d == 2:
            for k in range(2):
                c.check(c.eq(sum(Q[i, j] * V[j, k] for j in range(n)), 0), 'linear functions on flat meshes have no Hessian energy')
