"""D03 mesh distance queries, D04 bounding volume trees"""
from sym.harness import H
from harness.h_dist import SHAPES

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


def elem(c, P, V, el):
    s, l = c.g.squared_distance_to_element(P, V, c.array(el))
    return c.items(s)[0]


def least(c, xs):
    b = xs[0]
    for x in xs[1:]:
        if c.decide(c.lt(x, b)):
            b = x
    return b


def judge(c, P, V, F, s, i, l, ds=None):
    """s is the least of the element distances, attained by element i with barycentric coordinates l"""
    ds = ds or [elem(c, P, V, f) for f in F]
    for d in ds:
        c.check(c.le(s, d), 'no element is closer than the returned distance')
    k = c.concretize(i)
    c.check(c.b(0 <= k < len(F)), 'the reported element exists')
    c.check(c.eq(s, ds[k]), 'the reported element attains the distance')
    q = [0] * V.shape[1]
    for a, v in zip(c.items(l), F[k]):
        q = c.add(q, c.scale(a, list(V[v])))
    r = c.sub(list(P), q)
    c.check(c.eq(c.dot(r, r), s), 'the barycentric coordinates give a point at that distance')


@H('D03', 'point clouds of three points and one query point in 2D and 3D, of three points and two queries in 1D, all coordinates', cfg=CFG, quick=[dict(d=1), dict(d=2)], thorough=[dict(d=1), dict(d=2), dict(d=3)])
def cloud(c, d):
    P = c.reals('P', 2 if d == 1 else 1, d)
    e = c.reals('e', 3, d)
    V = c.array([c.add(list(P[0]), list(e[k])) for k in range(3)])
    s, i, l = c.g.squared_distance(P, V, use_aabb=False)
    for q in range(P.shape[0]):
        ds = [c.dot(c.sub(list(P[q]), list(V[k])), c.sub(list(P[q]), list(V[k]))) for k in range(3)]
        judge(c, P[q], V, [[0], [1], [2]], s[q], i[q], l[q], ds)


@H('D03', 'clouds of four points and chains of three segments in 1D through the bounding volume tree, all coordinates', cfg=CFG, budget=600,
   quick=[dict(k=1, n=3), dict(k=2, n=3)], thorough=[dict(k=1, n=3), dict(k=1, n=4), dict(k=2, n=3), dict(k=2, n=4)])
def line_tree(c, k, n):
    V = c.reals('V', n, 1)
    P = c.reals('P', 1, 1)
    if k == 1:
        F = [[q] for q in range(n)]
    else:
        F = [[q + 1, q] for q in range(n - 1)]
        for f in F:
            e = V[f[0], 0] - V[f[1], 0]
            c.assume(c.gt(e * e, c.frac(1, 10**18)))
    s, i, l = c.g.squared_distance(P, V, c.array(F), use_aabb=True)
    judge(c, P[0], V, F, s[0], i[0], l[0])


PTS2 = [[0, 0], [4, 1], [5, 5], [1, 4], [2, 2], [-3, 1], [3, -2], [-1, -4]]
CLOUD2 = [PTS2[k] for k in (0, 1, 3, 5, 6, 7)]
SEG2 = [[0, 1], [1, 2], [2, 3], [3, 4], [5, 6], [6, 7]]
PTS3 = [[0, 0, 0], [3, 0, 1], [0, 3, -1], [2, 3, 2], [-2, 1, 3], [1, -3, 2]]
TRI3 = [[0, 1, 2], [2, 1, 3], [4, 0, 2], [1, 0, 5]]


def query(c, d, plane):
    if d == 2:
        return list(c.reals('p', 2))
    a, b = c.reals('p', 2)
    o, u, w = {'xy': ([0, 0, 1], [1, 0, 0], [0, 1, 0]), 'yz': ([1, 0, 0], [0, 1, 0], [0, 0, 1]), 'ob': ([0, 1, 1], [1, 0, 1], [1, 1, 0]), 'line': ([-4, 1, 2], [2, 1, 0], [0, 0, 0])}[plane]
    return [o[k] + a * u[k] + b * w[k] for k in range(3)]


@H('D03', 'listed clouds, polylines and triangle meshes of up to 8 points, 6 segments or 4 triangles; any query point of the plane, or of listed lines and planes in space; with and without the tree, also with a tree computed beforehand',
   cfg=CFG, budget=150,
   quick=[dict(kind='cloud', aabb=1), dict(kind='poly', aabb=1), dict(kind='poly', aabb=0), dict(kind='tri', aabb=0, plane='line'), dict(kind='tri', aabb=1, plane='line'), dict(kind='tri', aabb=2, plane='line')],
   thorough=[dict(kind=k, aabb=a) for k in ('cloud', 'poly') for a in (0, 1, 2)] + [dict(kind='tri', aabb=a, plane=q) for a in (0, 1, 2) for q in ('line', 'xy', 'yz', 'ob')])
def fixed_mesh(c, kind, aabb, plane=None):
    if kind == 'cloud':
        V, F = CLOUD2, [[k] for k in range(len(CLOUD2))]
    elif kind == 'poly':
        V, F = PTS2, SEG2
    else:
        V, F = PTS3, TRI3
    V, d = c.array(V, dtype=int if (aabb + (kind == 'poly')) % 2 else float), len(V[0])
    P = query(c, d, plane)
    kw = {}
    if aabb == 2:
        C, W, CH, _, _, ti, sd = c.g.initialize_aabbtree(V, F=c.array(F))
        kw = dict(C=C, W=W, CH=CH, tri_ind=ti, split_dir=sd)
    s, i, l = c.g.squared_distance(c.array(P), V, None if kind == 'cloud' else c.array(F), use_aabb=aabb > 0, **kw)
    judge(c, c.array(P), V, F, s[0], i[0], l[0])


@H('D03', 'unsigned distance (python path) to listed polygons and polylines, any query point of the plane', cfg=CFG, budget=100, quick=[dict(F=0), dict(F=1)])
def unsigned(c, F):
    V = c.array(PTS2[:4], dtype=int if F else float)
    fs = [[3, 1], [1, 0]] if F else [[0, 1], [1, 2], [2, 3], [3, 0]]
    P = c.reals('p', 1, 2)
    s, i, l = c.g.unsigned_distance(P, V, c.array(fs) if F else None, use_cpp=False)
    c.check(c.ge(s[0], 0), 'distances are not negative')
    judge(c, P[0], V, fs, s[0] * s[0], i[0], l[0])


MA = ([[0, 0, 0], [3, 0, 1], [0, 3, -1], [2, 3, 2], [-2, 1, 3]], [[0, 1, 2], [2, 1, 3], [4, 0, 2]])
MB = ([[0, 0, 0], [1, 3, 1], [-2, 1, 2], [2, -1, 1]], [[0, 1, 2], [3, 1, 0]])
# separate triangles of very different sizes, and a single one to move past them
MC = ([[0, 0, 0], [1, 0, 0], [0, 1, 1], [8, 5, 0], [9, 6, 1], [8, 6, 0], [3, -9, -2], [12, -8, 1], [7, -3, 0], [-8, 6, 1], [-2, 9, -1], [-3, 5, 0]], [[0, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]])
MD = ([[0, 0, 0], [1, 1, 0], [0, 1, 2]], [[0, 1, 2]])
WIDE = ([[-6, 0], [-5, 1], [-1, 3], [4, 4], [6, 0], [9, -1], [10, 3], [11, 4]], [[0, 1], [2, 3], [4, 5], [6, 7]])


def moving(c, ln, sc=1):
    o, u = ([-7, 0, 1], [1, 0, 0]) if ln == 'x' else ([1, 1, -6], [0, 0, 1]) if ln == 'z' else ([-6, 3, 5], [3, -1, -2])
    t = c.real('t')
    return c.array([[x * sc for x in v] for v in MA[0]], dtype=float), c.array([[sc * (v[k] + o[k] + t * u[k]) for k in range(3)] for v in MB[0]], dtype=float)


@H('D03', 'the least distance between two listed meshes of three and two triangles, one moved by any amount along listed lines; triangle distances by the D02 harness', cfg=CFG, budget=200,
   quick=[dict(ln='x'), dict(ln='past'), dict(ln='past', swap=1)], thorough=[dict(ln='x'), dict(ln='z'), dict(ln='o'), dict(ln='x', swap=1), dict(ln='o', swap=1)] + [dict(ln=x, swap=q) for x in ('past', 'back') for q in (0, 1)])
def between(c, ln, swap=0):
    if ln in ('past', 'back'):
        t = c.real('t')
        o, u = ([0, 2, 1], [1, 0, 0]) if ln == 'past' else ([1, 0, 0], [1, 2, 0])
        V, F, G = c.array(MC[0], dtype=int if swap else float), MC[1], MD[1]
        U = c.array([[v[k] + o[k] + t * u[k] for k in range(3)] for v in MD[0]], dtype=float)
    else:
        V, U = moving(c, ln)
        F, G = MA[1] if c.thorough else MA[1][:2], MB[1]
    if swap:
        V, F, U, G = U, G, V, F
    d = c.g.minimum_distance(V, c.array(F), U, c.array(G))
    ds = [c.g.triangle_triangle_distance(*[V[k] for k in f], *[U[k] for k in g]) for f in F for g in G]
    for x in ds:
        c.check(c.le(d, x), 'no pair of faces is closer')
    c.check(c.or_(*[c.eq(d, x) for x in ds]), 'some pair of faces is at that distance')


@H('D03', 'vertex-sampled Hausdorff distance (python path) of two listed meshes, one moved by any amount along listed lines, and of two polylines in the plane, of equal and different lengths', cfg=CFG, budget=200,
   quick=[dict(ln='x'), dict(ln='flat'), dict(ln='wide'), dict(ln='short'), dict(ln='short', swap=1)], thorough=[dict(ln='x'), dict(ln='z'), dict(ln='o'), dict(ln='flat'), dict(ln='wide'), dict(ln='x', swap=1), dict(ln='flat', swap=1), dict(ln='wide', swap=1), dict(ln='short'), dict(ln='short', swap=1)])
def hausdorff(c, ln, swap=0):
    if ln == 'flat':
        t = c.real('t')
        V, F = c.array([[0, 0], [4, 0], [4, 3]], dtype=int), [[0, 1], [1, 2]]
        U, G = c.array([[t, 1], [t + 1, 3], [t + 5, 1]], dtype=float), [[0, 1], [1, 2]]
    elif ln == 'short':
        t = c.real('t')
        V, F = c.array([[0, 0], [2, 0]], dtype=float if swap else int), [[0, 1]]
        U, G = c.array([[0, 0], [1, 0], [1, 1], [2, 1], [2 + t, 0]], dtype=float), [[0, 1], [1, 2], [2, 3], [3, 4]]
    elif ln == 'wide':
        t = c.real('t')
        U, G = c.array(WIDE[0], dtype=float), WIDE[1]
        V, F = c.array(WIDE[0] + [[t, 7], [t + 2, 6]], dtype=float), WIDE[1] + [[8, 9]]
    else:
        V, U = moving(c, ln)
        F, G = MA[1][:2], MB[1]
        V = V[:4]
    if swap:
        V, F, U, G = U, G, V, F
    h = c.g.approximate_hausdorff_distance(V, c.array(F), U, c.array(G), use_cpp=False)
    far = []
    for A, B, E in ((V, U, G), (U, V, F)):
        for k in range(A.shape[0]):
            far.append(least(c, [elem(c, A[k], B, f) for f in E]))
    for x in far:
        c.check(c.ge(h * h, x), 'every vertex is within the distance')
    c.check(c.and_(c.ge(h, 0), c.or_(*[c.eq(h * h, x) for x in far])), 'some vertex is at the distance')


# ---------------------------------------------------------------------------------------------------------------------- D04
def well_formed(c, V, F, T, tight=True):
    C, W, CH, PAR, D, ti, sd = T
    n, d = len(F), V.shape[1]
    m = 2 * n - 1
    CH, PAR, D = CH.tolist(), c.items(PAR), c.items(D)
    CH = [[c.concretize(x) for x in r] for r in CH]
    PAR, D, ti = [c.concretize(x) for x in PAR], [c.concretize(x) for x in D], [c.concretize(x) for x in c.items(ti)]
    c.check(c.b(len(CH) == m and len(PAR) == m and len(D) == m and len(ti) == m and tuple(C.shape) == (m, d) and tuple(W.shape) == (m, d)), 'a binary tree with one leaf per element')
    c.check(c.b(PAR[0] == -1), 'the first node is the root')
    below = {}
    seen = []

    def walk(q, depth):
        seen.append(q)
        if CH[q][0] == -1 or CH[q][1] == -1:
            c.check(c.b(CH[q] == [-1, -1]), 'a node has two children or none')
            c.check(c.b(0 <= ti[q] < n), 'a leaf holds an element')
            below[q] = [ti[q]]
        else:
            c.check(c.b(ti[q] == -1), 'an inner node holds no element')
            below[q] = []
            for ch in CH[q]:
                c.check(c.b(0 < ch < m and ch not in seen and PAR[ch] == q and D[ch] == D[q] + 1), 'parent, child and depth agree')
                walk(ch, depth + 1)
                below[q] += below[ch]
    walk(0, 1)
    c.check(c.b(sorted(seen) == list(range(m))), 'every node is reached from the root once')
    c.check(c.b(sorted(below[0]) == list(range(n))), 'the leaves partition the elements')
    half = c.frac(1, 2)
    for q in seen:
        vs = sorted(set(v for e in below[q] for v in F[e]))
        for k in range(d):
            lo, hi = C[q, k] - W[q, k] * half, C[q, k] + W[q, k] * half
            for v in vs:
                c.check(c.and_(c.le(lo, V[v, k]), c.le(V[v, k], hi)), 'a box contains every element below its node')
            if tight:
                c.check(c.and_(c.or_(*[c.eq(lo, V[v, k]) for v in vs]), c.or_(*[c.eq(hi, V[v, k]) for v in vs])), 'a box is no larger than its elements require')
        if CH[q][0] != -1:
            s = c.concretize(c.items(sd)[q])
            c.check(c.b(0 <= s < d), 'an inner node records its splitting dimension')


@H('D04', 'sets of points, segments or triangles in 1D..3D, all coordinates up to 10000 in magnitude', cfg=CFG, budget=120,
   quick=[dict(d=1, el=[[0], [1], [2], [3]]), dict(d=2, el=[[0], [1], [2]]), dict(d=1, el=[[1, 0], [1, 2], [3, 0]]), dict(d=2, el=[[0, 1], [2, 1]]), dict(d=3, el=[[0], [1]]), dict(d=3, el=[[2, 0, 1]])],
   thorough=[dict(d=1, el=[[0], [1], [2], [3], [4]]), dict(d=2, el=[[0], [1], [2], [3]]), dict(d=1, el=[[1, 0], [1, 2], [3, 0], [2, 3]]), dict(d=2, el=[[0, 1], [2, 1], [0, 2]]), dict(d=3, el=[[0], [1], [2]]),
             dict(d=2, el=[[2, 0, 1], [1, 0, 3]])])
def tree(c, d, el):
    n = 1 + max(max(e) for e in el)
    V = c.reals('V', n, d)
    for x in c.items(V):
        c.assume(c.and_(c.le(x, 10000), c.ge(x, -10000)))
    whole = len(el[0]) > 1 or c.concrete_int('default', 0, 1) == 0
    T = c.g.initialize_aabbtree(V, F=c.array(el)) if whole else c.g.initialize_aabbtree(V)
    well_formed(c, V, el, T)


@H('D04', 'one or two elements, all coordinates without bound', cfg=CFG, quick=[dict(d=2, el=[[0], [1], [2]]), dict(d=1, el=[[0, 1], [1, 2]])])
def tree_large(c, d, el):
    n = 1 + max(max(e) for e in el)
    V = c.reals('V', n, d)
    well_formed(c, V, el, c.g.initialize_aabbtree(V, F=c.array(el)), tight=False)


@H('D04', 'the tree of eight listed points with the second coordinate of each moved by its own real amount below 1', cfg=CFG, budget=120, quick=[{}])
def tree_eight(c):
    e = c.reals('e', 8)
    for x in c.items(e):
        c.assume(c.and_(c.lt(x, 1), c.gt(x, -1)))
    V = c.array([[p[0], 10 * p[1] + e[k]] for k, p in enumerate(PTS2)])
    el = [[k] for k in range(8)]
    well_formed(c, V, el, c.g.initialize_aabbtree(V))


@H('D04', 'traversal of the tree of five listed points with an arbitrary verdict at every node, with the default and a custom queue', cfg=CFG, quick=[dict(custom=0), dict(custom=1)])
def traverse(c, custom):
    V = c.array(PTS2[:5], dtype=float)
    T = c.g.initialize_aabbtree(V)
    C, W, CH, PAR, D, ti, sd = T
    yes = [c.decide(c.eq(c.int('y%d' % q, 0, 1), 1)) for q in range(C.shape[0])]
    seen = []
    par = [c.concretize(x) for x in c.items(PAR)]

    def fun(q, C_, W_, CH_, ti_, sd_, is_leaf):
        q = c.concretize(q)
        c.check(c.b(C_ is C and W_ is W and CH_ is CH and ti_ is ti and sd_ is sd), 'the traversal passes the tree on')
        c.check(c.b(bool(is_leaf) == (c.concretize(CH[q, 0]) == -1)), 'leaves are announced as such')
        c.check(c.b(q not in seen and (q == 0 or par[q] in seen and yes[par[q]])), 'a node is visited once, after its parent accepted')
        seen.append(q)
        return yes[q]
    kw = {}
    if custom:
        def add(queue, CH_, q):
            queue.insert(0, CH_[q, 1])
            queue.insert(0, CH_[q, 0])
        kw['add_to_queue'] = add
    c.g.traverse_aabbtree(C, W, CH, ti, sd, fun, **kw)
    want = [0]
    for q in range(1, len(par)):
        if par[q] in want and yes[par[q]]:
            want.append(q)
    c.check(c.b(sorted(seen) == sorted(want)), 'exactly the nodes whose ancestors all accepted are visited')
