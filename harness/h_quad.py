"""Q01 quadtrees and octrees, Q02 operators on them"""
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}
SIZE = 1 << 10


class Shape:
    """the cells as integer boxes: lo corner and width in units of root width / SIZE"""
    def __init__(self, c, T, o, size, dim):
        C, W, CH, PAR, D, A = T
        n = C.shape[0]
        self.n, self.dim = n, dim
        self.CH = [[c.concretize(x) for x in r] for r in CH.tolist()]
        self.PAR = [c.concretize(x) for x in c.items(PAR)]
        self.D = [c.concretize(x) for x in c.items(D)]
        u = c.frac(1, SIZE) * size
        c.check(c.b(tuple(C.shape) == (n, dim) and tuple(W.shape) == (n,) and len(self.CH) == n and len(self.PAR) == n and len(self.D) == n and tuple(A.shape) == (n, n) and n > 0),
                'the tree arrays have one row per cell')
        self.lo, self.w = {0: [0] * dim}, {0: SIZE}
        c.check(c.b(self.PAR[0] == -1 and self.D[0] == 1), 'the first cell is the root')
        order = [0]
        for q in order:
            h = self.w[q]
            c.check(c.eq(W[q], u * h), 'cells halve in size')
            for k in range(dim):
                c.check(c.eq(C[q, k], o[k] + u * (self.lo[q][k] * 2 + h) * c.frac(1, 2)), 'children tile their parent')
            ch = self.CH[q]
            if -1 in ch:
                c.check(c.b(ch == [-1] * 2 ** dim), 'a cell has all its children or none')
                continue
            c.check(c.b(len(set(ch)) == 2 ** dim and all(0 < x < n and x not in self.lo and self.PAR[x] == q and self.D[x] == self.D[q] + 1 for x in ch)), 'parent, child and depth agree')
            pats = set()
            for x in ch:
                s = [1 if c.decide(c.gt(C[x, k], C[q, k])) else 0 for k in range(dim)]
                pats.add(tuple(s))
                self.w[x] = h // 2
                self.lo[x] = [self.lo[q][k] + s[k] * (h // 2) for k in range(dim)]
                order.append(x)
            c.check(c.b(len(pats) == 2 ** dim), 'children tile their parent')
        c.check(c.b(len(order) == n), 'every cell is reached from the root once')
        self.leaf = [q for q in range(n) if self.CH[q][0] == -1]

    def side(self, i, j):
        """the direction 1.. in which cell j touches cell i with a face of positive measure, or 0"""
        a, b, w, v = self.lo[i], self.lo[j], self.w[i], self.w[j]
        touch = 0
        for k in range(self.dim):
            if b[k] + v == a[k]:
                t = 2 * k + 1
            elif a[k] + w == b[k]:
                t = 2 * k + 2
            elif b[k] < a[k] + w and a[k] < b[k] + v:
                continue
            else:
                return 0
            if touch:
                return 0
            touch = t
        return touch

    def sides(self):
        return [[0 if i == j else self.side(i, j) for j in range(self.n)] for i in range(self.n)]


def inside(c, p, o, u, lo, w, strict=False):
    f, g = (c.lt, c.lt) if strict else (c.le, c.le)
    return c.and_(*[t for k in range(len(lo)) for t in (f(o[k] + u * lo[k], p[k]), g(p[k], o[k] + u * (lo[k] + w)))])


def dense(c, A):
    return [[c.concretize(x) for x in r] for r in A.toarray().tolist()]


def links(c, S, A):
    M = dense(c, A)
    want = S.sides()
    for i in range(S.n):
        for j in range(S.n):
            c.check(c.b(M[i][j] == want[i][j]), 'cells are linked exactly when they share a face, with the direction from one to the other')


def data(c, S, P, o, u, max_depth, min_depth, graded):
    sd = S.sides()
    for q in range(S.n):
        hit = [inside(c, p, o, u, S.lo[q], S.w[q]) for p in P]
        if q in S.leaf:
            c.check(c.b(min_depth <= S.D[q] <= max_depth), 'leaf depths stay in the asked range')
            if S.D[q] < max_depth:
                c.check(c.not_(c.or_(*hit)), 'a leaf above the greatest depth holds no point')
        elif S.D[q] >= min_depth:
            c.check(c.b(S.D[q] < max_depth), 'leaf depths stay in the asked range')
            due = graded and any(sd[q][m] and S.D[m] == S.D[q] + 1 and m not in S.leaf for m in range(S.n))
            if not due:
                c.check(c.or_(*hit), 'a cell is refined for a point it holds, for the least depth or for the grading')
    if graded:
        for i in S.leaf:
            for j in S.leaf:
                if sd[i][j]:
                    c.check(c.b(abs(S.D[i] - S.D[j]) <= 1), 'adjacent leaves of a graded tree differ by at most one level')


def bookkeeping(c, S, T, A):
    C, W, CH, PAR, D, _ = T
    c.check(c.b([c.concretize(x) for x in c.items(c.g.quadtree_children(CH))] == S.leaf), 'the leaf list holds exactly the leaves')
    if S.dim == 2:
        kids, every = c.g.quadtree_boundary(CH, A)
        kids, every = [c.concretize(x) for x in kids], [c.concretize(x) for x in every]
        edge = [q for q in range(S.n) if any(S.lo[q][k] == 0 or S.lo[q][k] + S.w[q] == SIZE for k in range(2))]
        c.check(c.b(sorted(every) == edge), 'the boundary cells are those at the border of the root')
        c.check(c.b(sorted(kids) == [q for q in edge if q in S.leaf]), 'the boundary leaves are those at the border of the root')


@H('Q01', 'the quadtree or octree of one point, or of two points on a line, at any place in or around a root box at any place; depth up to 4, or 5 for a point on a line, in the quick tier, up to 6 in the thorough one, graded or not', cfg=CFG, budget=150,
   quick=[dict(dim=2, md=3, mn=1, gr=0), dict(dim=2, md=4, mn=2, gr=1, line=2), dict(dim=2, md=4, mn=2, gr=0, line=1), dict(dim=3, md=3, mn=1, gr=0, line=1), dict(dim=2, md=4, mn=1, gr=1), dict(dim=3, md=4, mn=1, gr=1, line=1),
          dict(dim=2, md=5, mn=1, gr=1, line=1)],
   thorough=[dict(dim=2, md=5, mn=1, gr=1), dict(dim=2, md=5, mn=3, gr=0), dict(dim=3, md=5, mn=1, gr=1, line=1), dict(dim=2, md=5, mn=1, gr=1, line=2), dict(dim=2, md=4, mn=1, gr=0), dict(dim=2, md=4, mn=1, gr=1), dict(dim=2, md=5, mn=1, gr=1, line=1), dict(dim=2, md=4, mn=2, gr=0), dict(dim=2, md=3, mn=3, gr=1), dict(dim=3, md=3, mn=1, gr=0), dict(dim=3, md=3, mn=2, gr=0, line=1),
             dict(dim=3, md=4, mn=1, gr=1, line=1), dict(dim=2, md=4, mn=2, gr=1, line=2), dict(dim=2, md=5, mn=1, gr=0, line=1), dict(dim=2, md=6, mn=1, gr=1, line=1)])
def points(c, dim, md, mn, gr, line=0):
    o = list(c.reals('o', dim))
    size = 64
    u = c.frac(size, SIZE)
    if line:
        P = []
        for q in range(line):
            t = c.real('t%d' % q)
            P.append([o[0] + t, o[1] + t * c.frac(1, 2) + 16 - 48 * q] + ([o[2] + 40] if dim == 3 else []))
    else:
        P = [c.add(o, list(c.reals('p', dim)))]
    T = c.g.initialize_quadtree(c.array(P), max_depth=md, min_depth=mn, graded=bool(gr), vmin=c.array(o), vmax=c.array([x + size for x in o]))
    S = Shape(c, T, o, size, dim)
    links(c, S, T[5])
    data(c, S, P, o, u, md, mn, gr)
    bookkeeping(c, S, T, T[5])
    if not gr:
        d0 = c.g.initialize_quadtree(c.array(P), md, mn, vmin=c.array(o), vmax=c.array([x + size for x in o]))
        c.check(c.b(d0[0].shape[0] == S.n), 'grading is off unless asked for')


@H('Q01', 'the default root box of three points in the plane, all coordinates', cfg=CFG, budget=60, quick=[dict(dim=2)], thorough=[dict(dim=2), dict(dim=3)])
def root(c, dim):
    P = c.reals('p', 3 if dim == 2 else 2, dim)
    C, W, CH, PAR, D, A = c.g.initialize_quadtree(P, max_depth=1)
    c.check(c.b(C.shape[0] == 1), 'depth one is a single box')
    for k in range(dim):
        for q in range(P.shape[0]):
            h = W[0] * c.frac(1, 2)
            c.check(c.and_(c.le(C[0, k] - h, P[q, k]), c.le(P[q, k], C[0, k] + h)), 'the root contains every point')
    n = P.shape[0]
    tight = c.or_(*[c.eq(P[a, k] - P[b, k], W[0]) for k in range(dim) for a in range(n) for b in range(n)])
    c.check(tight, 'the root is no wider than the points')


TREES = [[0, 3, 2, 10], [0, 4, 1, 6, 11], [0, 1, 2, 3, 4, 8, 13]]
TREES3 = [[0, 8], [0, 1, 11]]




def plant(c, T, k, graded):
    """subdivides k leaves chosen by the solver, in any order"""
    for q in range(k):
        CH = T[2].tolist()
        leaf = [x for x in range(len(CH)) if c.concretize(CH[x][0]) == -1]
        i = c.concrete_int('s%d' % q, 0, len(leaf) - 1)
        T = c.g.subdivide_quad(leaf[i], *T, graded)
    return T


def seed_tree(c, o, size, dim, graded, first):
    P = c.array([[x + size * 3 for x in o]])
    return c.g.initialize_quadtree(P, max_depth=9, min_depth=first, graded=graded, vmin=c.array(o), vmax=c.array([x + size for x in o]))


@H('Q01', 'trees grown from a root box at any place by any sequence of subdivisions of leaves', cfg=CFG, budget=900,
   quick=[dict(dim=2, k=3, gr=0), dict(dim=2, k=4, gr=1), dict(dim=3, k=2, gr=0), dict(dim=3, k=3, gr=0)],
   thorough=[dict(dim=2, k=4, gr=0), dict(dim=2, k=4, gr=1), dict(dim=3, k=2, gr=1), dict(dim=3, k=3, gr=1), dict(dim=2, k=5, gr=1)])
def grown(c, dim, k, gr):
    o = list(c.reals('o', dim))
    T = plant(c, seed_tree(c, o, 64, dim, bool(gr), 1), k, bool(gr))
    S = Shape(c, T, o, 64, dim)
    links(c, S, T[5])
    bookkeeping(c, S, T, T[5])
    if gr:
        sd = S.sides()
        for i in S.leaf:
            for j in S.leaf:
                if sd[i][j]:
                    c.check(c.b(abs(S.D[i] - S.D[j]) <= 1), 'adjacent leaves of a graded tree differ by at most one level')


@H('Q01', 'any query point against quadtrees of up to 4 subdivisions and octrees of up to 2, at any place', cfg=CFG, budget=150,
   quick=[dict(dim=2, tree=0), dict(dim=2, tree=1), dict(dim=3, tree=0, line=1)], thorough=[dict(dim=2, tree=0), dict(dim=2, tree=1), dict(dim=2, tree=2), dict(dim=3, tree=0), dict(dim=3, tree=1, line=1)])
def query(c, dim, tree, line=0):
    o = list(c.reals('o', dim))
    u = c.frac(64, SIZE)
    T = seed_tree(c, o, 64, dim, False, 1)
    for q in (TREES if dim == 2 else TREES3)[tree]:
        T = c.g.subdivide_quad(q, *T, False)
    S = Shape(c, T, o, 64, dim)
    if line:
        t = c.real('t')
        p = [o[0] + t, o[1] + t * c.frac(1, 2) + 10] + ([o[2] + 30 - t * c.frac(1, 4)] if dim == 3 else [])
    else:
        p = c.add(o, list(c.reals('p', dim)))
    i, others = c.g.in_quadtree(c.array(p), T[0], T[1], T[2])
    i = c.concretize(i)
    others = [c.concretize(x) for x in others]
    if i == -1:
        c.check(c.not_(inside(c, p, o, u, S.lo[0], S.w[0])), 'no cell is reported only for points outside the root')
        c.check(c.b(not others), 'no cell is reported only for points outside the root')
        return
    c.check(c.b(i in S.leaf), 'the reported cell is a leaf')
    c.check(inside(c, p, o, u, S.lo[i], S.w[i]), 'the reported cell contains the point')
    for q in others:
        c.check(inside(c, p, o, u, S.lo[q], S.w[q]), 'the other cells contain the point')
        c.check(c.b(q == i or q not in S.leaf), 'the other cells are not leaves')
    q = S.PAR[i]
    while q != -1:
        c.check(c.b(q in others), 'every cell above the reported one is listed')
        q = S.PAR[q]


@H('Q01', 'the display mesh of quadtrees of up to 4 subdivisions and octrees of up to 2, at any place', cfg=CFG, budget=100,
   quick=[dict(dim=2, tree=0), dict(dim=3, tree=0)], thorough=[dict(dim=2, tree=0), dict(dim=2, tree=1), dict(dim=3, tree=0), dict(dim=3, tree=1)])
def display(c, dim, tree):
    o = [c.frac(1, 8) * k for k in range(dim)]
    t = TREES if dim == 2 else TREES3
    T = seed_tree(c, o, 64, dim, False, 1)
    k = c.concrete_int('steps', 0, len(t[tree]))
    for q in t[tree][:k]:
        T = c.g.subdivide_quad(q, *T, False)
    S = Shape(c, T, o, 64, dim)
    V, Q, Hx = c.g.bad_quad_mesh_from_quadtree(T[0], T[1], T[2])
    Q = [[c.concretize(x) for x in r] for r in Q.tolist()]
    u = c.frac(64, SIZE)
    pts = {}
    for v in range(V.shape[0]):
        pts[v] = tuple(c.concretize((V[v, k] - o[k]) / u) for k in range(dim))
    c.check(c.b(len(set(pts.values())) == len(pts)), 'vertices are not repeated')
    want = []
    for q in S.leaf:
        lo, w = S.lo[q], S.w[q]
        corners = [[lo[k] + w * (m >> k & 1) for k in range(dim)] for m in range(2 ** dim)]
        if dim == 2:
            want.append(frozenset(map(tuple, corners)))
        else:
            for k in range(3):
                for s in (0, 1):
                    want.append(frozenset(tuple(x) for m, x in enumerate(corners) if (m >> k & 1) == s))
    got = [frozenset(pts[v] for v in f) for f in Q]
    c.check(c.b(sorted(map(sorted, got)) == sorted(map(sorted, want))), 'every leaf contributes its own faces')
    for f in Q:
        ring = [pts[v] for v in f]
        c.check(c.b(all(sum(1 for k in range(dim) if ring[m][k] != ring[(m + 1) % 4][k]) == 1 for m in range(4))), 'a face lists its corners around its border')
    if dim == 3:
        Hx = [[c.concretize(x) for x in r] for r in Hx.tolist()]
        hx = [frozenset(pts[v] for v in h) for h in Hx]
        wh = [frozenset(tuple(S.lo[q][k] + S.w[q] * (m >> k & 1) for k in range(3)) for m in range(8)) for q in S.leaf]
        c.check(c.b(hx == wh), 'every leaf contributes its own corners')


# ---------------------------------------------------------------------------------------------------------------------- Q02
def operators(c, T, S, size, x=None):
    C, W, CH, PAR, D, A = T
    n = len(S.leaf)
    at = {q: k for k, q in enumerate(S.leaf)}
    G, sg = c.g.quadtree_gradient(C, W, CH, D, A)
    L, sl = c.g.quadtree_laplacian(C, W, CH, D, A)
    c.check(c.b(tuple(G.shape) == (2 * n, n) and tuple(L.shape) == (n, n)), 'one value per leaf and direction')
    for q in S.leaf:
        for k in range(2):
            c.check(c.and_(c.eq(sg[at[q], k], C[q, k]), c.eq(sl[at[q], k], C[q, k])), 'the values are stored at the leaf centres')
    G, L = G.toarray(), L.toarray()
    u = size * c.frac(1, SIZE)
    mid = {q: [c.frac(2 * S.lo[q][k] + S.w[q], 2) for k in range(2)] for q in S.leaf}
    for q in S.leaf:
        i = at[q]
        nb = [[r for r in S.leaf if r != q and S.side(q, r) == j] for j in (1, 2, 3, 4)]
        fine = all(S.w[r] <= S.w[q] for s in nb for r in s)
        inner = all(nb)
        lap = {}
        for k in range(2):
            lo, hi = nb[2 * k], nb[2 * k + 1]
            a = mid[q][k] - mid[lo[0]][k] if lo else 0
            b = mid[hi[0]][k] - mid[q][k] if hi else 0
            row = {}
            for r in (lo or [q]):
                row[r] = row.get(r, 0) - c.frac(1, 1) / ((a + b) * len(lo or [q]))
            for r in (hi or [q]):
                row[r] = row.get(r, 0) + c.frac(1, 1) / ((a + b) * len(hi or [q]))
            for r in S.leaf:
                c.check(c.eq(G[k * n + i, at[r]] * u, row.get(r, 0)), 'the gradient is the difference of the leaves on both sides, averaged where there are two, over their distance')
            for s, h, o in ((lo, a, b), (hi, b, a)):
                for r in s:
                    v = c.frac(2, 1) / (h * (h + (o if o else h)) * len(s))
                    lap[r] = lap.get(r, 0) + v
                    lap[q] = lap.get(q, 0) - v
            c.check(c.eq(sum(G[k * n + i, at[r]] for r in S.leaf) * u, 0), 'the gradient of constants is zero')
            c.check(c.eq(sum(G[k * n + i, at[r]] * mid[r][k] for r in S.leaf) * u, 1), 'a coordinate has unit derivative along itself')
            if fine:
                c.check(c.eq(sum(G[k * n + i, at[r]] * mid[r][1 - k] for r in S.leaf) * u, 0), 'linear functions have their exact gradient at leaves with no larger neighbour')
        for r in S.leaf:
            c.check(c.eq(L[i, at[r]] * u * u, lap.get(r, 0)), 'the Laplacian is the second difference with the leaves on both sides')
        c.check(c.eq(sum(L[i, at[r]] for r in S.leaf) * u * u, 0), 'the Laplacian of constants is zero')
        if fine and inner:
            for k in range(2):
                c.check(c.eq(sum(L[i, at[r]] * mid[r][k] for r in S.leaf) * u * u, 0), 'linear functions are harmonic at inner leaves with no larger neighbour')
                if all(len(s) == 1 for s in nb):
                    c.check(c.eq(sum(L[i, at[r]] * mid[r][k] * mid[r][k] for r in S.leaf) * u * u, 2), 'squares have second derivative two at inner leaves of a uniform neighbourhood')


@H('Q02', 'gradient and Laplacian of the graded quadtree of a point at any place in or on a line through the root box, or of any sequence of up to 3 (thorough: 4) subdivisions; a root box of any place and size', cfg=CFG, budget=300,
   quick=[dict(md=3), dict(md=5, line=1), dict(k=3), dict(md=4, line=2), dict(md=3, mn=3)], thorough=[dict(md=4), dict(md=4, mn=3), dict(md=6, line=1), dict(md=5, line=2), dict(k=4)])
def operator(c, md=0, line=0, k=0, mn=2):
    o = list(c.reals('o', 2))
    if k:
        size = c.real('s')
        c.assume(c.gt(size, 0))
        T = seed_tree(c, o, size, 2, True, 2)
        T = plant(c, T, k, True)
    else:
        size = 64
        if line:
            P = []
            for q in range(line):
                t = c.real('t%d' % q)
                P.append([o[0] + t, o[1] + t * c.frac(1, 2) + 16 - 48 * q])
        else:
            P = [c.add(o, list(c.reals('p', 2)))]
        T = c.g.initialize_quadtree(c.array(P), max_depth=md, min_depth=mn, graded=True, vmin=c.array(o), vmax=c.array([x + size for x in o]))
    S = Shape(c, T, o, size, 2)
    operators(c, T, S, size)
