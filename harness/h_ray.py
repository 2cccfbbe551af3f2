"""R01 ray casting"""
from sym.harness import H
from harness.h_dist import frame
from harness.h_tree import PTS3, TRI3

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


@H('R01', 'a box of positive width in 2D and 3D, any ray with non-zero direction', cfg=CFG, budget=100, quick=[dict(d=2), dict(d=3)])
def box(c, d):
    C = c.reals('C', d)
    W = c.reals('W', d)
    p = c.reals('p', d)
    u = c.reals('u', d)
    s = c.nonneg(c.real('s'))
    for k in range(d):
        c.assume(c.gt(W[k], 0))
    c.assume(c.or_(*[c.not_(c.eq(u[k], 0)) for k in range(d)]))
    O = c.array(c.add(list(C), list(p)))
    hit, x = c.g.ray_box_intersect(O, u, C, W)
    hit = c.concretize(c.b2i(c.b(hit)))
    half = c.frac(1, 2)
    inside = c.and_(*[c.and_(c.le(p[k] + s * u[k], W[k] * half), c.ge(p[k] + s * u[k], -W[k] * half)) for k in range(d)])
    if not hit:
        c.check(c.not_(inside), 'a box met by the forward ray is reported')
        return
    r = c.sub(c.items(x), list(O))
    for k in range(d):
        c.check(c.and_(c.le(p[k] + r[k], W[k] * half), c.ge(p[k] + r[k], -W[k] * half)), 'the hit is in the box')
    for i in range(d):
        for j in range(i):
            c.check(c.eq(r[i] * u[j], r[j] * u[i]), 'the hit is on the line')
    for k in range(d):
        c.check(c.ge(r[k] * u[k], 0), 'the hit is not behind the ray')
        c.check(c.implies(inside, c.le(r[k] * u[k], s * u[k] * u[k])), 'no earlier point of the ray is in the box')


@H('R01', 'a non-degenerate triangle up to rotation (two coordinate frames, one oblique), every ray not within 1e-5 of its plane (sine, relative to the edge lengths), hits behind the origin included on request', cfg=CFG, budget=100,
   quick=[dict(perm=(0, 1, 2)), dict(perm='tilt')], thorough=[dict(perm=(0, 1, 2)), dict(perm='tilt'), dict(perm=(2, 0, 1)), dict(perm='tilt2')])
def triangle(c, perm):
    b = c.reals('b', 3)
    x = c.nonneg(c.real('x'))
    e, f = c.real('e'), c.real('f')
    c.assume(c.gt(x, 0))
    c.assume(c.not_(c.eq(f, 0)))
    w = c.reals('w', 3)
    u, v, s = c.real('u'), c.real('v'), c.real('s')
    E0, E1, D = frame(c, [[x, 0, 0], [e, f, 0], list(w)], 3, perm)
    det = x * f * w[2]
    c.assume(c.ge(det * det * 10**10, c.dot(D, D) * x * x * (e * e + f * f)))
    c.assume(c.not_(c.eq(det, 0)))
    B = list(b)
    # every origin is of this form
    O = c.sub(c.add(B, c.add(c.scale(u, E0), c.scale(v, E1))), c.scale(s, D))
    neg = bool(c.concrete_int('negative', 0, 1))
    nd = c.concrete_int('rows', 0, 1)
    vs = [c.array(q) if not nd else c.array([q]) for q in (B, c.add(B, E0), c.add(B, E1))]
    t, hit, p = c.g.ray_triangle_intersect(c.array(O), c.array(D), *vs, **(dict(return_negative=True) if neg else {}))
    hit = c.concretize(c.b2i(c.b(hit)))
    want = c.and_(c.ge(u, 0), c.ge(v, 0), c.le(u + v, 1))
    if not neg:
        want = c.and_(want, c.ge(s, 0))
    if hit:
        c.check(want, 'a reported hit is on the triangle and the ray')
        c.check(c.eq(t, s), 'the parameter is that of the intersection')
        c.check(c.and_(*[c.eq(a, z) for a, z in zip(c.items(p), c.add(O, c.scale(s, D)))]), 'the point is the intersection')
    else:
        c.check(c.not_(want), 'a triangle met by the ray is reported')
        c.check(c.not_(c.finite(c.array([t]))), 'no hit has infinite parameter')


@H('R01', 'two independent edges of a polyline in 2D and any ray starting off them; edges exactly parallel to the ray or off by a determinant of at least 1e-8; any maximum distance for unit directions', cfg=CFG, budget=150,
   quick=[dict(n=1, m=0), dict(n=1, m=1), dict(n=2, m=0)], thorough=[dict(n=1, m=0), dict(n=1, m=1), dict(n=2, m=0), dict(n=2, m=1)])
def polyline(c, n, m):
    p = c.reals('p', 2)
    if m:
        u = [1, 0]
        M = c.real('M')
        c.assume(c.gt(M, 0))
    else:
        u = [c.nonneg(c.real('u')), 0]
        c.assume(c.gt(u[0], 0))
        M = None
    a = c.reals('a', n, 2)
    e = c.reals('e', n, 2)
    V, E = [], []
    eps = c.frac(1, 10**8)
    for k in range(n):
        A = list(a[k])
        det = u[0] * e[k, 1] - u[1] * e[k, 0]
        eq = u[1] * a[k, 0] - u[0] * a[k, 1]
        c.assume(c.gt(c.sos(list(e[k])), 0))
        for z in (det, eq):
            c.assume(c.or_(c.eq(z, 0), c.ge(z, eps), c.le(z, -eps)))
        # the ray does not start on the edge
        c.assume(c.not_(c.and_(c.eq(a[k, 0] * e[k, 1], a[k, 1] * e[k, 0]), c.le(c.dot(A, list(e[k])), 0), c.ge(c.dot(A, list(e[k])) + c.dot(list(e[k]), list(e[k])), 0))))
        V += [c.add(list(p), A), c.add(list(p), c.add(A, list(e[k])))]
        E.append([2 * k, 2 * k + 1])
    kw = dict(max_distance=M) if m else dict(max_distance=float('inf'))
    x, nrm, ind = c.g.ray_polyline_intersect(p, c.array(u), c.array(V), EC=c.array(E), **kw)
    ind = c.concretize(ind)
    x, nrm = c.items(x), c.items(nrm)
    # (direction is along the first axis) parameter of the hit of each edge
    hits = []
    for k in range(n):
        A, B = list(a[k]), c.add(list(a[k]), list(e[k]))
        if c.decide(c.eq(e[k, 1], 0)):
            on = c.decide(c.eq(A[1], 0)) and c.decide(c.gt(A[0], 0))
            z = A[0] if c.decide(c.lt(A[0], B[0])) else B[0]
            on = on and c.decide(c.gt(z, 0))
        else:
            z = A[0] - A[1] * e[k, 0] / e[k, 1]
            on = c.decide(c.le(A[1] * B[1], 0)) and c.decide(c.gt(z, 0))
        if on and m and not c.decide(c.lt(z, M)):
            on = False
        hits.append(z if on else None)
    if ind == -1:
        c.check(c.b(all(h is None for h in hits)), 'an edge met by the ray is reported')
        c.check(c.not_(c.finite(c.array(x))), 'no hit is at infinity')
        return
    c.check(c.b(0 <= ind < n and hits[ind] is not None), 'the reported edge is met by the ray')
    h = hits[ind]
    c.check(c.and_(c.eq(x[0], p[0] + h), c.eq(x[1], p[1])), 'the point is the intersection')
    for k in range(n):
        if hits[k] is not None:
            c.check(c.le(h, hits[k]), 'no edge is hit earlier')
    c.check(c.eq(c.dot(nrm, nrm), 1), 'the normal has unit length')
    c.check(c.eq(c.dot(nrm, list(e[ind])), 0), 'the normal is orthogonal to the edge')
    c.check(c.gt(e[ind, 0] * nrm[1] - e[ind, 1] * nrm[0], 0), 'the normal is to the left of the edge')


@H('R01', 'a listed closed polygon without explicit edges, any ray origin off it, listed directions', cfg=CFG, quick=[dict(u=(1, 0)), dict(u=(1, 2)), dict(u=(-2, 1))])
def polygon(c, u):
    P = [[0, 0], [4, 0], [4, 3], [1, 2]]
    p = c.reals('p', 2)
    V = c.array(P, dtype=float)
    for i in range(4):
        a, b = P[i], P[(i + 1) % 4]
        e = c.sub(b, a)
        z = e[0] * (p[1] - a[1]) - e[1] * (p[0] - a[0])
        t = c.dot(e, c.sub(list(p), a))
        c.assume(c.not_(c.and_(c.eq(z, 0), c.ge(t, 0), c.le(t, c.dot(e, e)))))
        for q in (a,):
            eq = u[1] * (q[0] - p[0]) - u[0] * (q[1] - p[1])
            c.assume(c.or_(c.eq(eq, 0), c.ge(eq, c.frac(1, 10**8)), c.le(eq, -c.frac(1, 10**8))))
        c.assume(c.and_(c.le(p[i % 2], 40), c.ge(p[i % 2], -40)))
    x, n, ind = c.g.ray_polyline_intersect(p, c.array(u, dtype=float), V)
    ind = c.concretize(ind)
    hits = []
    for i in range(4):
        a, b = P[i], P[(i + 1) % 4]
        e = c.sub(b, a)
        det = u[0] * e[1] - u[1] * e[0]
        if det:
            r = c.sub(a, list(p))
            t = (r[0] * e[1] - r[1] * e[0]) * c.frac(1, det)
            s = (r[0] * u[1] - r[1] * u[0]) * c.frac(1, det)
            ok = c.decide(c.and_(c.gt(t, 0), c.ge(s, 0), c.le(s, 1)))
        else:
            r, q = c.sub(a, list(p)), c.sub(b, list(p))
            ok = c.decide(c.and_(c.eq(r[0] * u[1], r[1] * u[0]), c.gt(c.dot(r, u), 0)))
            t = c.dot(r, u) if ok and c.decide(c.le(c.dot(r, u), c.dot(q, u))) else c.dot(q, u)
            t = t * c.frac(1, u[0] * u[0] + u[1] * u[1])
        hits.append(t if ok else None)
    if ind == -1:
        c.check(c.b(all(h is None for h in hits)), 'an edge met by the ray is reported')
        return
    c.check(c.b(0 <= ind < 4 and hits[ind] is not None), 'the reported edge is met by the ray')
    for h in hits:
        if h is not None:
            c.check(c.le(hits[ind], h), 'no edge is hit earlier')
    for k in range(2):
        c.check(c.eq(c.items(x)[k], p[k] + hits[ind] * u[k]), 'the point is the intersection')


@H('R01', 'a listed mesh of four triangles, listed directions and any origin in listed planes, or a listed origin and a plane of directions; with and without a tree computed beforehand', cfg=CFG, budget=150,
   quick=[dict(o='xy', u=(0, 0, 1)), dict(o='xy', u=(1, 1, -3), pre=1), dict(o='yz', u=(-2, 0, 1)), dict(o='yz', u=(-1, 0, 0)), dict(o='xy', u=(0, 0, -1), pre=1), dict(o=None, at=(0, 0, 6)), dict(o=None, at=(1, 1, 1), pre=1)],
   thorough=[dict(o=o, u=u, pre=p) for o, u in (('xy', (0, 0, 1)), ('xy', (1, 1, -3)), ('yz', (-2, 0, 1)), ('yz', (1, 0, 0)), ('xz', (1, 3, 1)), ('xz', (0, -1, 0)), ('yz', (-1, 0, 0)), ('xy', (0, 0, -1)), ('xz', (-3, -1, 2))) for p in (0, 1)] +
   [dict(o=None, at=a) for a in ((0, 0, 6), (1, 1, 1), (6, -3, 0), (-1, -1, -1))])
def mesh(c, o, u=None, at=None, pre=0):
    V = c.array(PTS3, dtype=float)
    F = c.array(TRI3)
    a, b = c.real('a'), c.real('b')
    if o:
        O = {'xy': [a, b, -6 if u[2] > 0 else 6], 'yz': [-6 if u[0] > 0 else 6, a, b], 'xz': [a, -6 if u[1] > 0 else 6, b]}[o]
        D = list(u)
    else:
        O, D = list(at), [a, b, -1]
        # not nearly parallel to a face
        c.assume(c.le(a * a + b * b, 10000))
        for f in TRI3:
            n = c.cross(c.sub(PTS3[f[1]], PTS3[f[0]]), c.sub(PTS3[f[2]], PTS3[f[0]]))
            c.assume(c.or_(c.ge(c.dot(n, D), 1), c.le(c.dot(n, D), -1)))
    kw = {}
    if pre:
        C, W, CH, _, _, ti, _ = c.g.initialize_aabbtree(V, F=F)
        kw = dict(C=C, W=W, CH=CH, tri_ind=ti)
    t, i, l = c.g.ray_mesh_intersect(c.array([O], dtype=float), c.array([D], dtype=float), V, F, use_embree=False, **kw)
    k = c.concretize(i[0])
    t, l = c.items(t)[0], c.items(l[0])
    hs = []
    for f in TRI3:
        ts, h, x = c.g.ray_triangle_intersect(c.array(O, dtype=float), c.array(D, dtype=float), *[V[v] for v in f])
        hs.append(ts if c.decide(c.b(h)) else None)
    if k == -1:
        c.check(c.b(all(h is None for h in hs)), 'a mesh met by the ray is reported')
        c.check(c.not_(c.finite(c.array([t]))), 'no hit has infinite parameter')
        return
    c.check(c.b(0 <= k < len(TRI3) and hs[k] is not None), 'the reported face is met by the ray')
    c.check(c.eq(t, hs[k]), 'the parameter is that of the reported face')
    for h in hs:
        if h is not None:
            c.check(c.le(t, h), 'no face is hit earlier')
    q = [0, 0, 0]
    for z, v in zip(l, TRI3[k]):
        q = c.add(q, c.scale(z, PTS3[v]))
    c.check(c.and_(*[c.eq(q[j], O[j] + t * D[j]) for j in range(3)]), 'the barycentric coordinates describe the hit')
    c.check(c.and_(c.eq(sum(l), 1), *[c.ge(z, 0) for z in l]), 'the barycentric coordinates are those of a point of the face')
