"""W01 winding numbers and signed distances in the plane"""
import inspect
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


def crs(a, b):
    return a[0] * b[1] - a[1] * b[0]


def off(c, a, b):
    """the origin is not on the segment from a to b"""
    x, y = crs(a, b), c.dot(a, b)
    return c.not_(c.and_(c.eq(x, 0), c.le(y, 0)))


def turns(c, vs, edges):
    """how often the polyline goes around the origin: the angles of its edges, and the number of crossings of the negative first axis"""
    th = [c.np.arctan2(v[1], v[0]) for v in vs]
    sgn = [c.decide(c.ge(v[1], 0)) for v in vs]
    tot, k = 0, 0
    for i, j in edges:
        a, b = vs[i], vs[j]
        r = c.np.arctan2(crs(a, b), c.dot(a, b))
        q = 0
        if sgn[i] and not sgn[j] and c.decide(c.gt(crs(a, b), 0)):
            q = 1
        if not sgn[i] and sgn[j] and c.decide(c.lt(crs(a, b), 0)):
            q = -1
        # what the angle between two vectors is
        c.assume(c.eq(r, th[j] - th[i] + 2 * q * c.pi))
        tot, k = tot + r, k + q
    return tot, k


@H('W01', 'a triangle (both orientations) or quadrilateral (crossing itself or not), or two triangles at once; every position of its vertices and every query off its edges', cfg=CFG, budget=150,
   quick=[dict(n=3), dict(n=4), dict(n=3, m=3)], thorough=[dict(n=3), dict(n=4), dict(n=5), dict(n=3, m=3), dict(n=3, m=4)])
def winding(c, n, m=0):
    o = c.reals('o', 2)
    vs = [list(x) for x in c.reals('v', n + m, 2)]
    cyc = [list(range(n)), list(range(n, n + m))]
    edges = [(x[i], x[(i + 1) % len(x)]) for x in cyc if x for i in range(len(x))]
    for i, j in edges:
        c.assume(off(c, vs[i], vs[j]))
    if m:
        # in any order, and with any start
        edges = edges[::-1]
    tot, k = turns(c, vs, edges)
    V = c.array([c.add(list(o), v) for v in vs])
    W = c.g.winding_number(c.array([list(o)]), V, c.array([list(e) for e in edges]))
    c.check(c.b(tuple(W.shape) == (1,)), 'one number per query')
    c.check(c.eq(W[0] * 2 * c.pi, tot), 'the winding number adds up the angles of the edges')
    c.check(c.eq(W[0], k), 'the winding number counts how often the curve goes around')
    if n == 3 and not m:
        s = [crs(vs[i], vs[j]) for i, j in edges]
        if c.decide(c.and_(*[c.gt(x, 0) for x in s])):
            c.check(c.b(k == 1), 'one inside')
        elif c.decide(c.and_(*[c.lt(x, 0) for x in s])):
            c.check(c.b(k == -1), 'minus one inside a reversed curve')
        else:
            c.check(c.b(k == 0), 'zero outside')
        R = c.g.winding_number(c.array([list(o)]), V, c.array([[j, i] for i, j in edges]))
        c.check(c.eq(R[0], -W[0]), 'reversing the curve negates it')


@H('W01', 'one open edge, two queries', cfg=CFG, quick=[dict()])
def edge(c):
    vs = [list(x) for x in c.reals('v', 2, 2)]
    O = c.reals('o', 2, 2)
    W = c.g.winding_number(O, c.array(vs), c.array([[0, 1]]))
    c.check(c.b(tuple(W.shape) == (2,)), 'one number per query')
    for k in range(2):
        a, b = (c.sub(v, list(O[k])) for v in vs)
        c.assume(off(c, a, b))
        c.check(c.eq(W[k] * 2 * c.pi, c.np.arctan2(crs(a, b), c.dot(a, b))), 'the angle of the edge as seen from the query')


def level(c, vs):
    """is the origin inside: the edges that the ray along the first axis meets, an edge without its upper end"""
    odd = False
    up = [c.decide(c.gt(v[1], 0)) for v in vs]
    for i in range(len(vs)):
        a, b = vs[i - 1], vs[i]
        if up[i - 1] != up[i] and c.decide(c.gt(crs(a, b), 0)) == up[i]:
            odd = not odd
    return odd


class Blur:
    """numpy, but for what a distance is computed with: any number of the same sign (only the sign of the outcome matters here)"""

    def __init__(self, c, np):
        self._c, self._np, self._n = c, np, 0

    def __getattr__(self, n):
        return getattr(self._np, n)

    def _new(self, x, lo, hi=None):
        self._n += 1
        sh = tuple(x.shape)
        return self._c.reals('any%d' % self._n, *sh, lo=lo, hi=hi) if sh else self._c.real('any%d' % self._n, lo, hi)

    def clip(self, x, lo, hi):
        return self._new(self._np.asarray(x), lo, hi)

    def minimum(self, x, y):
        return self._new(self._np.asarray(x) + y, 0)

    def sqrt(self, x):
        r = self._new(self._np.asarray(x), 0)
        for y in self._c.items(r):
            self._c.assume(self._c.gt(y, 0))
        return r


def sign_of(c, o, vs):
    f = c.g.signed_distance_polygon
    args = c.array([list(o)]), c.array([c.add(list(o), v) for v in vs])
    g = f.__globals__
    old = g.get('np')
    if c.mode == 'sym' and old is not None:
        g['np'] = Blur(c, old)
    try:
        return f(*args)
    finally:
        if old is not None:
            g['np'] = old


@H('W01', 'triangles and quadrilaterals (crossing themselves or not; thorough: pentagons), every position of the vertices and every query off the edges, level with vertices included', cfg=CFG, budget=200,
   quick=[dict(n=3), dict(n=4)], thorough=[dict(n=3), dict(n=4), dict(n=5)])
def polygon(c, n):
    o = c.reals('o', 2)
    vs = [list(x) for x in c.reals('v', n, 2)]
    for i in range(n):
        c.assume(off(c, vs[i - 1], vs[i]))
    inside = level(c, vs)
    S = sign_of(c, o, vs)
    c.check(c.b(tuple(S.shape) == (1,)), 'one distance per query')
    S = S[0]
    c.check(c.le(S, 0) if inside else c.ge(S, 0), 'negative inside, positive outside')


@H('W01', 'triangles: a query is inside when it is on the same side of all edges', cfg=CFG, budget=100, quick=[dict()])
def sides(c):
    o = c.reals('o', 2)
    vs = [list(x) for x in c.reals('v', 3, 2)]
    s = [crs(vs[i - 1], vs[i]) for i in range(3)]
    sg = [c.decide(c.gt(x, 0)) for x in s]
    for x in s:
        c.assume(c.not_(c.eq(x, 0)))
    S = sign_of(c, o, vs)[0]
    c.check(c.le(S, 0) if len(set(sg)) == 1 else c.ge(S, 0), 'negative inside, positive outside')


@H('W01', 'closed polylines of 2 edges (thorough: triangles), any query, one edge possibly of no length: the distance', cfg=CFG, budget=150, quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)])
def distance(c, n):
    o = c.reals('o', 2)
    vs = [list(x) for x in c.reals('v', n, 2)]
    if c.concrete_int('repeat', 0, 1):
        vs = vs + [vs[0]]
    level(c, vs)
    near = []
    for i in range(len(vs)):
        a, b = vs[i - 1], vs[i]
        e = c.sub(b, a)
        l, q = c.dot(e, e), -c.dot(a, e)
        if c.decide(c.le(q, 0)):
            near.append(c.dot(a, a))
        elif c.decide(c.ge(q, l)):
            near.append(c.dot(b, b))
        else:
            near.append(crs(a, e) * crs(a, e) / l)
    S = c.g.signed_distance_polygon(c.array([list(o)]), c.array([c.add(list(o), v) for v in vs]))[0]
    for x in near:
        c.check(c.le(S * S, x), 'no point of the polygon is nearer')
    c.check(c.or_(*[c.eq(S * S, x) for x in near]), 'some point of the polygon is that near')


@H('W01', 'a triangle in counterclockwise order, every query off its edges, for every squared distance, index and coordinates that the distance query returns (see D03)', cfg=CFG, budget=100, quick=[dict()])
def signed(c):
    o = c.reals('o', 2)
    vs = [list(x) for x in c.reals('v', 3, 2)]
    edges = [(0, 1), (1, 2), (2, 0)]
    for i, j in edges:
        c.assume(off(c, vs[i], vs[j]))
    c.assume(c.gt(crs(c.sub(vs[1], vs[0]), c.sub(vs[2], vs[0])), 0))
    tot, k = turns(c, vs, edges)
    given = c.concrete_int('edges', 0, 1)
    d = c.real('d', 0)
    lam = c.reals('b', 2)
    idx = c.concrete_int('i', 0, 2)
    V = c.array([c.add(list(o), v) for v in vs])
    Q = c.array([list(o)])
    seen = []

    def squared(*a, **k):
        k = sig.bind(*a, **k).arguments
        Q_, V_ = list(k.values())[:2]
        F_ = k.get('F')
        seen.append((c.items(Q_), c.items(V_), None if F_ is None else [c.concretize(x) for x in c.items(F_)]))
        return c.array([d]), c.array([idx]), c.array([list(lam)])
    args = (Q, V) + ((c.array([list(e) for e in edges]),) if given else ())
    out = []
    for f in (c.g.signed_distance, c.g.unsigned_distance):
        g = f.__globals__
        old = g.get('squared_distance')
        if old is None:
            return
        sig = inspect.signature(old)
        g['squared_distance'] = squared
        try:
            out.append(f(*args, use_cpp=False))
        finally:
            g['squared_distance'] = old
    for r in seen:
        c.check(c.and_(*[c.eq(a, b) for a, b in zip(r[0] + r[1], c.items(Q) + c.items(V))]), 'the distance is asked for the points given')
        c.check(c.b(r[2] == [x for e in edges for x in e]), 'to the closed polyline')
    inside = c.decide(c.and_(*[c.gt(crs(vs[i], vs[j]), 0) for i, j in edges]))
    for f, (s, i, b) in zip((-1 if inside else 1, 1), out):
        c.check(c.eq(s[0], f * c.sqrt(d)), 'the distance has the sign of the side')
        c.check(c.and_(c.eq(i[0], idx), *[c.eq(p, q) for p, q in zip(c.items(b), lam)]), 'the closest point is that of the distance query')
