from sym.harness import H
from harness.geo import vec, sqlen

CFG = {'div0': 'fork', 'exact': True}


def frame(c, vecs, d, perm):
    """rows in another orthonormal frame: permuted coordinates or a fixed rational rotation"""
    if perm in ('tilt', 'tilt2'):
        R = [[1, 2, 2], [2, 1, -2], [2, -2, 1]] if perm == 'tilt' else [[2, -1, 2], [2, 2, -1], [-1, 2, 2]]
        return [[sum(c.frac(R[k][j], 3) * v[j] for j in range(3)) for k in range(3)] for v in vecs]
    return [[v[perm[k]] for k in range(d)] for v in vecs]


@H('D01', 'a point in 1D..3D, all coordinates', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def to_point(c, d):
    V = c.reals('V', 3, d)
    P = c.reals('P', d)
    nd = c.concrete_int('shape', 0, 1)
    s, l = c.g.squared_distance_to_element(P, V, c.array([[2]] if nd else [2]))
    c.check(c.eq(s, c.dot(c.sub(list(P), list(V[2])), c.sub(list(P), list(V[2])))), 'squared distance to a point')
    c.check(c.eq(l, 1), 'its only coordinate is one')


@H('D01', 'a segment longer than 1e-9 and a point in 2D and 3D, all coordinates', cfg=CFG, quick=[dict(d=2), dict(d=3)], budget=100)
def to_segment(c, d):
    V = c.reals('V', 3, d)
    P = c.reals('P', d)
    el = [2, 0]
    A, B = list(V[2]), list(V[0])
    L = c.sos(c.sub(B, A))
    c.assume(c.gt(L, c.frac(1, 10**18)))
    s, l = c.g.squared_distance_to_element(P, V, c.array(el))
    c.check(c.and_(c.ge(l[0], 0), c.ge(l[1], 0), c.eq(l[0] + l[1], 1)), 'barycentric coordinates are a convex combination')
    N = c.add(c.scale(l[0], A), c.scale(l[1], B))
    r = c.sub(list(P), N)
    c.check(c.eq(s, c.dot(r, r)), 'the distance is attained at the returned point')
    # variational inequality of the convex problem; with t in [0,1] it reads:
    t = c.dot(c.sub(list(P), A), c.sub(B, A))       # unconstrained parameter times L
    c.check(c.or_(c.eq(l[1] * L, t), c.and_(c.eq(l[1], 0), c.le(t, 0)), c.and_(c.eq(l[1], 1), c.ge(t, L))), 'no point of the segment is closer')


@H('D01', 'a segment of zero length', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def to_degenerate(c, d):
    A = c.reals('A', d)
    P = c.reals('P', d)
    V = c.array([list(A), list(A)])
    s, l = c.g.squared_distance_to_element(P, V, c.array([0, 1]))
    r = c.sub(list(P), list(A))
    c.check(c.eq(s, c.dot(r, r)), 'degenerate segments are points')
    c.check(c.eq(l[0] + l[1], 1), 'barycentric coordinates sum to one')


@H('D01', 'a non-degenerate triangle, up to rotation (four coordinate frames and two oblique rational ones), and any point', cfg=dict(CFG, check_timeout=20), budget=150,
   quick=[dict(perm=(0, 1, 2)), dict(perm=(2, 0, 1)), dict(perm='tilt')], thorough=[dict(perm=q) for q in ((0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 2, 1), 'tilt', 'tilt2')])
def to_triangle(c, perm):
    b = c.reals('b', 3)
    x = c.nonneg(c.real('x'))
    u, v = c.real('u'), c.real('v')
    c.assume(c.gt(x, 0))
    c.assume(c.not_(c.eq(v, 0)))
    E0, E1 = frame(c, [[x, 0, 0], [u, v, 0]], 3, perm)
    p = c.reals('p', 3)
    (pp,) = frame(c, [list(p)], 3, perm)
    B = list(b)
    V = c.array([c.add(B, E1), B, [0, 0, 0], c.add(B, E0)])
    el = [1, 3, 0]
    P = c.array(c.add(B, pp))
    s, l = c.g.squared_distance_to_element(P, V, c.array(el))
    l = c.items(l)
    c.check(c.and_(c.eq(l[0] + l[1] + l[2], 1)), 'barycentric coordinates sum to one')
    c.check(c.and_(*[c.ge(t, 0) for t in l]), 'barycentric coordinates are not negative')
    N = c.add(c.scale(l[1], E0), c.scale(l[2], E1))
    r = c.sub(pp, N)
    c.check(c.eq(s, c.dot(r, r)), 'the distance is attained at the returned point')
    for q in ([0, 0, 0], E0, E1):
        c.check(c.le(c.dot(r, c.sub(q, N)), 0), 'no point of the triangle is closer')


@H('B01', 'non-degenerate triangles and points in 2D and 3D, all coordinates, one or two query points', cfg=CFG, quick=[dict(d=2), dict(d=3)])
def barycentric(c, d):
    n = c.concrete_int('n', 0, 2)       # 0: one-dimensional input
    k = max(n, 1)
    P = c.reals('P', k, d)
    base = c.reals('b', k, d)
    e = c.reals('e', k, 2, d)
    v = [[], [], []]
    for i in range(k):
        v[0].append(list(base[i]))
        for j in range(2):
            v[1 + j].append([base[i, t] + e[i, j, t] for t in range(d)])
        if d == 2:
            c.assume(c.not_(c.eq(e[i, 0, 0] * e[i, 1, 1] - e[i, 0, 1] * e[i, 1, 0], 0)))
        else:
            c.assume(c.gt(c.sos(c.cross(list(e[i, 0]), list(e[i, 1]))), 0))
    if n == 0:
        B = c.g.barycentric_coordinates(c.array(list(P[0])), *[c.array(x[0]) for x in v])
    else:
        B = c.g.barycentric_coordinates(P, *[c.array(x) for x in v])
    c.check(c.b(tuple(B.shape) == (k, 3)), 'three coordinates per point')
    for i in range(k):
        c.check(c.eq(B[i, 0] + B[i, 1] + B[i, 2], 1), 'coordinates sum to one')
        q = [sum(B[i, j] * v[j][i][t] for j in range(3)) for t in range(d)]
        r = [P[i, t] - q[t] for t in range(d)]
        if d == 2:
            for t in range(d):
                c.check(c.eq(r[t], 0), 'the weighted corners give the point')
        else:
            for j in range(2):
                c.check(c.eq(c.dot(r, list(e[i, j])), 0), 'the weighted corners give the projection of the point')


# ------------------------------------------------------------------------------------------------ D02
@H('D02', 'two segments in 3D (possibly parallel, crossing or of zero length), up to a rotation: five orthonormal frames', cfg=dict(div0='fork', check_timeout=20), budget=150,
   quick=[dict(perm=(0, 1, 2)), dict(perm='tilt'), dict(perm=(2, 0, 1), deg=1), dict(perm=(1, 2, 0), deg=2), dict(perm='tilt', deg=3)],
   thorough=[dict(perm=q, deg=d) for q in ((0, 1, 2), (2, 0, 1), 'tilt', 'tilt2') for d in (0, 1, 2, 3)])
def edge_edge(c, perm, deg=0):
    a = c.nonneg(c.real('a'))
    b = c.reals('b', 2)
    t = c.reals('t', 3)
    p = c.reals('p', 3)
    if deg & 1:
        A0 = [0, 0, 0]
    else:
        c.assume(c.gt(a, 0))
        A0 = [a, 0, 0]
    if deg & 2:
        B0 = [0, 0, 0]
    else:
        B0 = [b[0], b[1], 0]
        c.assume(c.gt(c.sos(B0), 0))
    A, B, T = frame(c, [A0, B0, list(t)], 3, perm)
    P1 = list(p)
    Q1 = c.add(P1, A)
    P2 = c.add(P1, T)
    Q2 = c.add(P2, B)
    d, R1, R2 = c.g.edge_edge_distance(*[c.array(x) for x in (P1, Q1, P2, Q2)])
    R1, R2 = c.items(R1), c.items(R2)
    r = c.sub(R1, R2)
    c.check(c.and_(c.ge(d, 0), c.eq(d * d, c.dot(r, r))), 'the distance is that of the returned points')
    for R, P, E, nm in ((R1, P1, A, 'first'), (R2, P2, B, 'second')):
        q = c.sub(R, P)
        # on the segment: parallel to it and between its end points
        x = c.cross(q, E)
        c.check(c.and_(*[c.eq(z, 0) for z in x]), 'returned point is on the line of the %s segment' % nm)
        c.check(c.and_(c.ge(c.dot(q, E), 0), c.le(c.dot(q, E), c.dot(E, E))), 'returned point is on the %s segment' % nm)
    for X, R, s in ((P1, R1, 1), (Q1, R1, 1), (P2, R2, -1), (Q2, R2, -1)):
        c.check(c.ge(c.dot(c.scale(s, r), c.sub(X, R)), 0), 'no pair of points is closer')


SHAPES = {
    'a': ([[0, 0, 0], [4, 0, 0], [0, 3, 0]], [[0, 0, 0], [1, 3, 1], [-2, 1, 2]]),
    'b': ([[0, 0, 0], [2, 2, 1], [-1, 2, 2]], [[0, 0, 0], [5, 0, 1], [0, 1, 3]]),
    'par': ([[0, 0, 0], [4, 0, 0], [0, 4, 0]], [[0, 0, 0], [2, 0, 0], [2, 3, 0]]),       # parallel planes, parallel edges
    'perp': ([[0, 0, 0], [3, 0, 0], [0, 3, 0]], [[0, 0, 0], [0, 0, 2], [2, 0, 2]]),
    'obt': ([[0, 0, 0], [6, 1, 0], [-5, 1, 0]], [[0, 0, 0], [0, 4, 3], [0, -3, 4]]),
}
LINES = {
    'z': ([1, 1, -3], [0, 0, 1]),
    'x': ([-6, 1, 0], [1, 0, 0]),
    'over': ([-6, -2, 1], [2, 1, 0]),
    'skew': ([-3, 2, 2], [3, -2, -1]),
    'edge': ([0, -7, 0], [0, 1, 0]),
}


def tri_dist(c, S, T):
    """distance by definition: zero when an edge pierces the other triangle, else the least vertex-face or edge-edge distance (squared)"""
    best = None

    def low(x):
        nonlocal best
        if best is None or c.decide(c.lt(x, best)):
            best = x
    for X, Y in ((S, T), (T, S)):
        n = c.cross(c.sub(Y[1], Y[0]), c.sub(Y[2], Y[0]))
        nn = c.dot(n, n)
        h = [c.dot(n, c.sub(x, Y[0])) for x in X]
        for i in range(3):
            inside = [c.ge(c.dot(c.cross(n, c.sub(Y[(k + 1) % 3], Y[k])), c.sub(X[i], Y[k])), 0) for k in range(3)]
            if c.decide(c.and_(*inside)):
                low(h[i] * h[i] / nn)
            j = (i + 1) % 3
            if c.decide(c.or_(c.and_(c.gt(h[i], 0), c.lt(h[j], 0)), c.and_(c.lt(h[i], 0), c.gt(h[j], 0)))):
                # crossing point times the (signed) height difference
                dh = h[i] - h[j]
                q = c.sub(c.scale(h[i], X[j]), c.scale(h[j], X[i]))
                ins = [c.ge(c.dot(c.cross(n, c.sub(Y[(k + 1) % 3], Y[k])), c.sub(q, c.scale(dh, Y[k]))) * dh, 0) for k in range(3)]
                if c.decide(c.and_(*ins)):
                    return 0
    for i in range(3):
        for j in range(3):
            d, P, Q = c.g.edge_edge_distance(*[c.array(x) for x in (S[i], S[(i + 1) % 3], T[j], T[(j + 1) % 3])])
            low(c.sos(c.sub(c.items(P), c.items(Q))))
    return best


@H('D02', 'two triangles of listed fixed shapes and sizes, the second translated by an arbitrary real amount along listed lines (thorough: also by two amounts); edge-edge distances by the harness above',
   cfg=dict(div0='fork', check_timeout=20), budget=150,
   quick=[dict(sh='a', ln='skew'), dict(sh='b', ln='z', sc=1e-5), dict(sh='perp', ln='x'), dict(sh='par', ln='over', sc=1e4), dict(sh='obt', ln='z'), dict(sh='a', ln='z')],
   thorough=[dict(sh=s, ln=l, sc=q) for s in SHAPES for l, q in (('z', 1), ('x', 1e-5), ('over', 1), ('skew', 1e4), ('edge', 1))] +
   [dict(sh='par', ln='z', ln2='x'), dict(sh='a', ln='skew', ln2='x', swap=1), dict(sh='perp', ln='x', swap=1), dict(sh='obt', ln='x', swap=1)])
def triangle_triangle(c, sh, ln, sc=1, ln2=None, swap=0):
    sc = c.frac(*sc.as_integer_ratio()) if sc >= 1 else c.frac(1, round(1 / sc))
    t = c.real('t')
    o, u = LINES[ln]
    S = [list(v) for v in SHAPES[sh][0]]
    T = [[v[k] + o[k] + t * u[k] for k in range(3)] for v in SHAPES[sh][1]]
    if ln2 is not None:
        r = c.real('r')
        T = [[v[k] + r * LINES[ln2][1][k] for k in range(3)] for v in T]
    if swap:
        S, T = T, S
    d = c.g.triangle_triangle_distance(*[c.array(c.scale(sc, v), dtype=float) for v in S + T])
    e = tri_dist(c, S, T)
    c.check(c.ge(d, 0), 'distances are not negative')
    c.check(c.eq(d / sc * (d / sc), e), 'the distance is the least over all pairs of points')
