from sym.harness import H
from harness.topo import *


def conc(c, F):
    return [[c.concretize(F[i, j]) for j in range(F.shape[1])] for i in range(F.shape[0])]


def same_cyc(a, b):
    return any(tuple(a[(k + r) % len(a)] for k in range(len(a))) == tuple(b) for r in range(len(a))) if len(a) == 3 else tuple(a) == tuple(b)


def edges_of(fs):
    return sorted({tuple(sorted((f[k], f[(k + 1) % 3]))) for f in fs for k in range(3)})


def tri_children(c, fs, Fu, n, mid):
    """the 4 children of every face occur exactly once, as cyclically ordered triples"""
    want = []
    for a, b, d in fs:
        ab, bd, da = mid[frozenset((a, b))], mid[frozenset((b, d))], mid[frozenset((d, a))]
        want += [(a, ab, da), (b, bd, ab), (d, da, bd), (ab, bd, da)]
    left = [tuple(f) for f in Fu]
    for w in want:
        hit = [k for k, f in enumerate(left) if same_cyc(f, w)]
        c.check(c.b(len(hit) == 1), 'every face is split into its four children, with the same orientation')
        if not hit:
            return
        left.pop(hit[0])
    c.check(c.b(not left), 'there are no other faces')


@H('S01', 'fixed edge-manifold complexes under every vertex labelling, all real vertex positions (2D)', budget=200,
   quick=[dict(name='diamond', method='upsample', spread=1), dict(name='diamond', method='loop'), dict(name='disk3', method='loop'), dict(name='tet', method='upsample'), dict(name='disk4', method='loop'),
          dict(name='fan3', method='upsample'), dict(name='tet', method='loop'), dict(name='octa', method='loop'), dict(name='grid33', method='loop'), dict(name='annulus6', method='upsample'), dict(name='grid33', method='upsample')],
   thorough=[dict(name=n, method=m) for n in ('tri', 'diamond', 'two', 'fan3', 'disk3', 'disk4', 'disk5', 'tet', 'strip3', 'tetopen', 'octa') for m in ('upsample', 'loop')] + [dict(name='diamond', method='upsample', spread=1), dict(name='annulus6', method='upsample')])
def triangles(c, name, method, spread=0):
    g = c.g
    if name in ('octa', 'disk5', 'annulus6', 'grid33', 'hexstrip'):
        fs0 = COMPLEXES[name]
        n = 1 + max(max(f) for f in fs0)
        perm = c.concrete_int('perm', 0, n - 1)     # cyclic relabelling only
        F = c.array([[(v + perm) % n for v in f] for f in fs0])
    else:
        F, n = labelled(c, name, spread)
    V = c.reals('V', n + spread, 2)
    mode = c.concrete_int('mode', 0, 2)
    kw = {} if method == 'upsample' and mode == 2 else dict(method=method)
    if mode == 0:
        Vu, Fu, S = g.subdivide(V, F, return_matrix=True, **kw)
    elif mode == 1:
        Vu, Fu = g.subdivide(V, F, **kw)
        _, _, S = g.subdivide(V, F, return_matrix=True, **kw)
    else:
        Vu, Fu, S = g.subdivide(None, F, iters=1, return_matrix=True, **kw)
        c.check(c.b(Vu is None), 'no vertices out when none are given')
    fs = conc(c, F)
    E = edges_of(fs)
    N = V.shape[0] if mode < 2 else 1 + max(max(f) for f in fs)
    Sd = c.mat(S)
    c.check(c.b(tuple(Sd.shape) == (N + len(E), N)), 'one new vertex per edge')
    # the edge vertex of each edge
    Fl = conc(c, Fu)
    c.check(c.b(len(Fl) == 4 * len(fs)), 'four children per face')
    mid = {}
    if method == 'upsample':
        for e in E:
            rows = [r for r in range(N, N + len(E)) if all(c.decide(c.eq(Sd[r, v], c.frac(1, 2) if v in e else 0)) for v in range(N))]
            c.check(c.b(len(rows) == 1), 'the midpoint of every edge is added exactly once')
            mid[frozenset(e)] = rows[0]
        for i in range(N):
            c.check(c.and_(*[c.eq(Sd[i, v], 1 if i == v else 0) for v in range(N)]), 'old vertices stay')
    else:
        # connectivity is that of upsampling
        U, Fx, S0 = g.subdivide(None, F, return_matrix=True)
        S0 = c.mat(S0)
        for e in E:
            mid[frozenset(e)] = [r for r in range(S0.shape[0]) if all(c.decide(c.eq(S0[r, v], c.frac(1, 2) if v in e else 0)) for v in range(N))][0]
        nf = {e: [f for f in fs if e[0] in f and e[1] in f] for e in E}
        for e in E:
            w = [0] * N
            if len(nf[e]) == 1:
                w[e[0]] = w[e[1]] = c.frac(1, 2)
            else:
                w[e[0]] = w[e[1]] = c.frac(3, 8)
                for f in nf[e]:
                    w[[v for v in f if v not in e][0]] += c.frac(1, 8)
            for v in range(N):
                c.check(c.eq(Sd[mid[frozenset(e)], v], w[v]), 'Loop rule for edge vertices')
        for i in sorted({v for f in fs for v in f}):
            nb = [e[0] + e[1] - i for e in E if i in e]
            bnb = [e[0] + e[1] - i for e in E if i in e and len(nf[e]) == 1]
            w = [0] * N
            if bnb:
                w[i] = c.frac(3, 4)
                for v in bnb:
                    w[v] += c.frac(1, 8)
            else:
                beta = c.frac(3, 16) if len(nb) == 3 else c.frac(3, 8 * len(nb))
                w[i] = 1 - beta * len(nb)
                for v in nb:
                    w[v] = beta
            for v in range(N):
                c.check(c.eq(Sd[i, v], w[v]), 'Loop rule for old vertices')
    tri_children(c, fs, Fl, N, mid)
    if mode < 2:
        c.check(c.b(tuple(Vu.shape) == tuple(Sd.shape[:1]) + (2,)), 'vertex array size')
        ref = {v for f in fs for v in f}
        for i in range(Vu.shape[0]):
            if i < N and i not in ref and method == 'loop':
                continue
            for k in range(2):
                c.check(c.eq(Vu[i, k], sum(Sd[i, v] * V[v, k] for v in range(N))), 'new vertices are the matrix times the old ones')


LINES = [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [(0, 1), (2, 1), (2, 3), (5, 3), (3, 4), (4, 6), (6, 7)], [(1, 0), (2, 3), (5, 4), (4, 2)]]


@H('S01', 'two segments with arbitrary end points among 3 vertices, and fixed closed, branched and split polylines of up to seven segments; all positions in 2D and 3D', quick=[dict(), dict(fix=0, dim=3), dict(fix=1), dict(fix=2, dim=3)], thorough=[dict(), dict(m=3), dict(fix=0), dict(fix=1, dim=3), dict(fix=2)])
def polyline(c, m=2, fix=None, dim=2):
    g = c.g
    if fix is None:
        n = m + 1
        F = any_faces(c, m, 2, 0, m)
    else:
        F = c.array([list(e) for e in LINES[fix]])
        m = len(LINES[fix])
        n = 1 + max(max(e) for e in LINES[fix])
    V = c.reals('V', n, dim)
    Vu, Fu, S = g.subdivide(V, F, return_matrix=True)
    Vv, Fv = g.subdivide(V, F, method='upsample')
    fs = conc(c, F)
    Fl = conc(c, Fu)
    c.check(c.b(tuple(Vu.shape) == (n + m, dim)), 'one new vertex per segment')
    c.check(c.and_(c.eq(Vu, Vv), c.eq(Fu, Fv)), 'returning the matrix does not change the result')
    Sd = c.mat(S)
    for i in range(n + m):
        for k in range(dim):
            c.check(c.eq(Vu[i, k], sum(Sd[i, v] * V[v, k] for v in range(n))), 'new vertices are the matrix times the old ones')
            if i < n:
                c.check(c.eq(Vu[i, k], V[i, k]), 'old vertices stay')
    left = [tuple(f) for f in Fl]
    c.check(c.b(len(left) == 2 * m), 'two children per segment')
    used = []
    for a, b in fs:
        x = [f for f in left if f[0] == a and f[1] >= n and (f[1], b) in left and f[1] not in used]
        ok = [f for f in x if c.decide(c.and_(*[c.eq(2 * Vu[f[1], k], V[a, k] + V[b, k]) for k in range(dim)]))]
        c.check(c.b(len(ok) >= 1), 'every segment is split at its midpoint, with the same orientation')
        if ok:
            used.append(ok[0][1])
            left.remove(ok[0])
            left.remove((ok[0][1], b))


@H('S01', 'one or two triangles / two segments, zero, two and three iterations, all positions', quick=[dict(method='upsample'), dict(method='loop'), dict(method='line'), dict(method='upsample', three=1), dict(method='loop', three=1), dict(method='line', three=1)])
def iterate(c, method, three=0):
    g = c.g
    F = c.array([[0, 1, 2], [2, 1, 3]]) if method != 'line' else c.array([[0, 1], [1, 3]])
    V = c.reals('V', 4, 2)
    if method == 'loop':
        pass
    mth = 'upsample' if method == 'line' else method
    V0, F0, S0 = g.subdivide(V, F, method=mth, iters=0, return_matrix=True)
    c.check(c.and_(c.eq(V0, V), c.eq(F0, F)), 'zero iterations change nothing')
    S0 = c.mat(S0)
    for i in range(4):
        for j in range(4):
            c.check(c.eq(S0[i, j], 1 if i == j else 0), 'zero iterations: identity matrix')
    V1, F1, S1 = g.subdivide(V, F, method=mth, return_matrix=True)
    V2, F2, S2 = g.subdivide(V1, F1, method=mth, return_matrix=True)
    W, G, S = g.subdivide(V, F, method=mth, iters=2, return_matrix=True)
    W_, G_ = g.subdivide(V, F, method=mth, iters=2)
    c.check(c.and_(c.eq(W, V2), c.eq(G, F2), c.eq(W_, W), c.eq(G_, G)), 'two iterations are one iteration twice')
    c.check(c.eq(c.mat(S), c.mat(S2 @ S1)), 'the matrix of two iterations is the product')
    if three:
        V3, F3, S3 = g.subdivide(V2, F2, method=mth, return_matrix=True)
        W, G, S = g.subdivide(V, F, method=mth, iters=3, return_matrix=True)
        c.check(c.and_(c.eq(W, V3), c.eq(G, F3)), 'three iterations are one iteration three times')
        c.check(c.eq(c.mat(S), c.mat(S3 @ S2 @ S1)), 'the matrix of three iterations is the product')
