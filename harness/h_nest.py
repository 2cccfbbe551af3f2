"""A01 nesting a shape in another one"""
import inspect
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20}
SD, PLANE = 1e-6, 1e-6
OUT = 'the C++ queries (inside or outside, rays) are replaced by arbitrary answers'


class World:
    """stands in for the compiled queries and the particle swarm: any answer at all, remembered"""

    def __init__(self, c, full=None, xs=()):
        self.c, self.full, self.xs = c, full, xs
        self.calls = []         # samples, distances, [(directions, t, hit), ...]
        self.box = None

    def __enter__(self):
        self.env = self.c.g.matryoshka.__globals__
        names = ('signed_distance', 'ray_mesh_intersect', 'squared_distance_precompute', 'fast_winding_number_precompute', 'ray_mesh_intersect_precompute', 'particle_swarm', 'random_points_on_mesh')
        self.old = {n: self.env[n] for n in names}
        for n, f in zip(names, (self.distance, self.rays, self.precompute, self.precompute, self.precompute, self.swarm, self.sample)):
            self.env[n] = self.instead(self.old[n], f)
        return self

    @staticmethod
    def instead(real, f):
        """called like the real function"""
        sig = inspect.signature(real)
        return lambda *a, **k: f(list(sig.bind(*a, **k).arguments.values()), sig.bind(*a, **k).arguments)

    def __exit__(self, *a):
        self.env.update(self.old)

    def precompute(self, a, kw):
        return ('tree of', a[0], a[1])

    def outer(self, V, F, *trees):
        """the queries are about the outer shape"""
        c = self.c
        for a, b in [(V, self.V)] + [(t[1], self.V) for t in trees if t is not None]:
            c.check(c.and_(c.b(tuple(a.shape) == tuple(b.shape)), *[c.eq(x, y) for x, y in zip(c.items(a), c.items(b))]), 'the queries are about the outer shape')

    def sample(self, a, kw):
        self.surface = c_ = self.c.reals('surface', a[2], 3)
        return c_

    def distance(self, a, kw):
        P = a[0]
        self.outer(a[1], a[2], kw.get('cpp_aabb'), kw.get('fwn_bvh'))
        k = len(self.calls)
        d = self.c.reals('sd%d' % k, P.shape[0]) if k in self.rich else self.c.array([self.c.real('sd%d' % k)] * P.shape[0])
        self.calls.append((self.c.lists(P), self.c.items(d), []))
        return d, None, None

    def rays(self, a, kw):
        c = self.c
        P, D = a[:2]
        self.outer(a[2], a[3], kw.get('intersector'))
        k = len(self.calls) - 1
        m = P.shape[0]
        which = len(self.calls[k][2])
        if k in self.rich:
            t, hit = c.reals('t%d_%d' % (k, which), m), c.ints('hit%d_%d' % (k, which), (m,), -1, 1)
        else:
            t, hit = c.np.zeros(m), c.array([-1] * m)
        self.calls[k][2].append((c.lists(P), c.lists(D), c.items(t), c.items(hit)))
        return t, hit, None

    def swarm(self, a, kw):
        """evaluates the objective at given points, in one array that it reuses"""
        c = self.c
        fun, lb, ub = a[:3]
        self.box = (c.items(lb), c.items(ub))
        x = c.np.zeros(len(lb))
        best = None
        for p in self.xs:
            for q in range(len(lb)):
                x[q] = p[q]
            f = fun(x)
            self.got.append(f)
        for q in range(len(lb)):
            x[q] = 0
        return x, best

    rich = ()
    got = ()


def free(c, call, point, normal, ap, am):
    """nothing keeps the copy from the inside, nor the two halves from leaving"""
    P, sd, rays = call
    ok = [c.le(x, c.frac(-1, 10 ** 6)) for x in sd]
    for (Q, D, t, hit), a, sign in zip(rays, (ap, am), (1, -1)):
        for i in range(len(P)):
            at = [P[i][k] - t[i] * a[k] for k in range(3)]
            side = sum(((at[k] - point[k]) * normal[k] for k in range(3)), 0) * sign
            ok.append(c.or_(c.lt(hit[i], 0), c.le(side, c.frac(1, 10 ** 6))))
    return c.and_(c.b(len(rays) == 2), *ok)


def unit(c, v):
    n = c.sqrt(c.sos(v))
    return [x / n for x in v]


def fr(c, x):
    return c.frac(*x) if isinstance(x, tuple) else c.frac(x, 1)


UNITS = [[0, 0, 1], [(3, 5), 0, (4, 5)], [(2, 3), (-2, 3), (1, 3)]]
TRI = [[(1, 2), -1, 2], [2, (1, 4), 1]]


@H('A01', 'an inner shape of 2 points, every rotation matrix (arbitrary points without), translation, cutting point; removal directions and normal given or not; a search of up to 4 (thorough: 5) scales; ' + OUT, cfg=CFG, budget=150,
   quick=[dict(rich=k) for k in range(4)], thorough=[dict(rich=k, tol=.2) for k in range(5)])
def scale(c, rich, tol=.3):
    V = c.reals('V', 2, 3)
    F = c.array([[0, 1, 1]])
    kw = {}
    B = V
    if c.concrete_int('given', 0, 1):
        kw = dict(R=c.reals('R', 3, 3), c=c.reals('c', 3), cut_point=c.reals('p', 3), cut_normal=c.array([fr(c, x) for x in UNITS[1]]),
                  a_plus=c.array([fr(c, x) for x in UNITS[2]]), a_minus=c.array([0 - fr(c, x) for x in UNITS[0]]))
        B = c.array([[fr(c, x) for x in r] for r in TRI])
    elif c.concrete_int('other', 0, 1):
        B = c.reals('B', 2, 3)
    if B is not V:
        kw.update(VB=B, FB=F)
    with World(c) as w:
        w.V, w.rich = V, (rich,)
        n = c.concrete_int('samples', 0, 1)
        r = c.g.matryoshka(V, F, optimize='scale_only', n_samples=n, scale_tol=tol, **kw)
    pts = c.lists(B) + (c.lists(w.surface) if n else [])
    R = c.lists(kw['R']) if 'R' in kw else [[c.frac(int(i == j), 1) for j in range(3)] for i in range(3)]
    cc = c.items(kw['c']) if 'c' in kw else mean(c, V)
    point = c.items(kw['cut_point']) if 'cut_point' in kw else mean(c, V)
    normal = c.items(kw['cut_normal']) if 'cut_normal' in kw else [fr(c, x) for x in UNITS[0]]
    ap = c.items(kw['a_plus']) if 'a_plus' in kw else normal
    am = c.items(kw['a_minus']) if 'a_minus' in kw else [0 - x for x in normal]
    result(c, w.calls, r, pts, mean(c, B), (R, cc, point, normal, ap, am), tol)
    for k in range(3):
        for key, v in (('c', cc), ('cut_point', point), ('cut_normal', normal), ('a_plus', ap), ('a_minus', am), ('B_center', mean(c, B))):
            c.check(c.eq(r[key][k], v[k]), 'the configuration is the one asked for')
        for q in range(3):
            c.check(c.eq(r['R'][k, q], R[k][q]), 'the configuration is the one asked for')


def mean(c, X):
    return [(X[0, k] + X[1, k]) * c.frac(1, 2) for k in range(3)]


def offsets(pts, R, mid):
    return [[sum((R[i][j] * (x[j] - mid[j]) for j in range(3)), 0) for i in range(3)] for x in pts]


def result(c, calls, r, pts, mid, conf, tol):
    """calls: the evaluations for one configuration"""
    R, cc, point, normal, ap, am = conf
    s = c.items(c.array(r['s']))[0]
    y = offsets(pts, R, mid)
    c.assume(c.not_(c.eq(y[0][0], 0)))
    ok = []
    for call in calls:
        P = call[0]
        c.check(c.b(len(P) == len(pts)), 'every point of the inner shape is tested')
        for Q, D, t, hit in call[2]:
            c.check(c.and_(*[c.eq(a, b) for p, q in zip(P, Q) for a, b in zip(p, q)]), 'the rays start at the points')
        for a, b in zip(P, y):
            for k in range(3):
                c.check(c.eq((a[k] - cc[k]) * y[0][0], (P[0][0] - cc[0]) * b[k]), 'every copy tried is scaled about the centre, turned and moved there')
        ok.append(free(c, call, point, normal, ap, am))
    yy = y[0][0] * y[0][0]
    at = [(call[0][0][0] - cc[0]) * y[0][0] for call in calls]
    c.check(c.and_(c.ge(s, 0), c.le(s, 1)), 'the scale lies between 0 and 1')
    if c.decide(c.eq(s, 0)):
        c.check(c.or_(*[c.and_(c.not_(o), c.le(a, c.frac(1, 100) * yy)) for o, a in zip(ok, at)]), 'scale zero means that even a tiny copy is in the way')
        return
    c.check(c.or_(*[c.and_(o, c.eq(a, s * yy)) for o, a in zip(ok, at)]), 'the copy of the returned scale was found to fit and to come out')
    if not c.decide(c.eq(s, 1)):
        c.check(c.or_(*[c.and_(c.not_(o), c.gt(a, s * yy), c.le(a, (s + tol) * yy)) for o, a in zip(ok, at)]), 'a slightly larger copy was found not to')


def turn(c, aa, theta):
    """Rodrigues: the rotation about the unit vector aa by the angle theta"""
    s, o = c.np.sin(theta), 1 - c.np.cos(theta)
    k = aa
    K = [[0, 0 - k[2], k[1]], [k[2], 0, 0 - k[0]], [0 - k[1], k[0], 0]]
    return [[c.frac(int(i == j), 1) + s * K[i][j] + o * sum(K[i][q] * K[q][j] for q in range(3)) for j in range(3)] for i in range(3)]


@H('A01', 'two configurations proposed by the swarm, with every rotation vector along one of three directions, every translation, normal, offset and direction; ' + OUT, cfg=CFG, budget=150,
   quick=[dict(mode='rigid'), dict(mode='all', first=0), dict(mode='all', first=1)], thorough=[dict(mode='rigid'), dict(mode='all', first=0), dict(mode='all', first=1), dict(mode='all', first=2)])
def optimum(c, mode, first=0):
    V = c.reals('V', 2, 3)
    F = c.array([[0, 1, 1]])
    B = c.array([[fr(c, x) for x in r] for r in TRI])
    normal = [fr(c, x) for x in UNITS[0]]
    xs, confs = [], []
    for q in range(2):
        axis = [fr(c, x) for x in UNITS[(first + q) % 3]]
        th = c.real('angle%d' % q)
        c.assume(c.and_(c.ge(th, c.frac(1, 100)), c.le(th, 3)))
        tr = c.reals('c%d' % q, 3)
        x = [th * a for a in axis] + c.items(tr)
        point, n, ap, am = mean(c, V), normal, normal, [0 - a for a in normal]
        if mode == 'all':
            raw = [c.reals('%s%d' % (k, q), 1)[0] for k in ('n', 'p', 'm')]
            off = c.real('off%d' % q)
            u = [[fr(c, a) for a in UNITS[(first + q + k) % 3]] for k in range(3)]
            for a in raw:
                c.assume(c.ge(c.np.abs(a), c.frac(1, 100)))
            dirs = [[a * b for b in v] for a, v in zip(raw, u)]
            x += dirs[0] + [off] + dirs[1] + dirs[2]
            n, ap, am = [[b * c.np.sign(a) for b in v] for a, v in zip(raw, u)]
            point = [a + off * b for a, b in zip(point, n)]
            ap = flip(c, ap, n, 1)
            am = flip(c, am, n, -1)
        xs.append(x)
        confs.append((turn(c, axis, th), c.items(tr), point, n, ap, am))
    with World(c, xs=xs) as w:
        w.V, w.got = V, []
        r = c.g.matryoshka(V, F, VB=B, FB=F, optimize=mode, n_samples=0, scale_tol=.6)
    pts = c.lists(B)
    lo, hi = w.box
    c.check(c.b(len(lo) == len(hi) == len(xs[0])), 'one bound per unknown')
    for k in range(3):
        c.check(c.and_(c.eq(lo[3 + k], c.np.minimum(V[0, k], V[1, k])), c.eq(hi[3 + k], c.np.maximum(V[0, k], V[1, k]))), 'the centre stays within the box of the outer shape')
    # the better of the two
    s = c.items(c.array(r['s']))[0]
    for f in w.got:
        c.check(c.ge(s, 0 - f), 'no scale found was larger')
    for k in range(3):
        c.check(c.eq(r['B_center'][k], mean(c, B)[k]), 'the centre of the inner shape')
    if c.decide(c.eq(s, 0)):
        return
    which = 0 if c.decide(c.eq(s, 0 - w.got[0])) else 1
    R, cc, point, n, ap, am = confs[which]
    for k in range(3):
        for key, v in (('c', cc), ('cut_point', point), ('cut_normal', n), ('a_plus', ap), ('a_minus', am)):
            c.check(c.eq(r[key][k], v[k]), 'the configuration is the best one proposed')
        for q in range(3):
            c.check(c.eq(r['R'][k, q], R[k][q]), 'the configuration is the best one proposed')


def flip(c, a, n, sign):
    d = sum(x * y for x, y in zip(a, n)) * sign
    return [0 - x for x in a] if c.decide(c.lt(d, 0)) else a


@H('A01', 'a warm start from a nesting with no rotation or half a turn about one of three axes, every translation and plane, two choices of directions; ' + OUT, cfg=CFG, budget=150,
   quick=[dict(axis=k) for k in range(3)])
def warm(c, axis):
    V = c.reals('V', 2, 3)
    F = c.array([[0, 1, 1]])
    B = c.array([[fr(c, x) for x in r] for r in TRI])
    k = [fr(c, x) for x in UNITS[axis]]
    kind = c.concrete_int('kind', 0, 1)
    if kind == 0:
        R = [[c.frac(int(i == j), 1) for j in range(3)] for i in range(3)]
    else:
        R = [[2 * k[i] * k[j] - int(i == j) for j in range(3)] for i in range(3)]
    cc, point = c.reals('c', 3), c.reals('p', 3)
    n = [fr(c, x) for x in UNITS[(axis + c.concrete_int('normal', 0, 1)) % 3]]
    ap, am = list(n), [0 - x for x in n]
    if c.concrete_int('askew', 0, 1):
        ap = flip(c, [fr(c, x) for x in UNITS[(axis + 2) % 3]], n, 1)
        am = flip(c, [fr(c, x) for x in UNITS[(axis + 1) % 3]], n, -1)
    start = dict(s=c.frac(1, 2), R=c.array(R), c=cc, B_center=c.array(mean(c, B)), cut_point=point, cut_normal=c.array(n), a_plus=c.array(ap), a_minus=c.array(am))
    with World(c) as w:
        w.V, w.got = V, []
        r = c.g.matryoshka(V, F, VB=B, FB=F, optimize='all', n_samples=0, scale_tol=.6, warm_start=start)
    s = c.items(c.array(r['s']))[0]
    if c.decide(c.eq(s, 0)):
        return
    for i in range(3):
        for key, v in (('c', c.items(cc)), ('cut_normal', n), ('a_plus', ap), ('a_minus', am)):
            c.check(c.eq(r[key][i], v[i]), 'the nesting to start from is kept when nothing better is found')
        for q in range(3):
            c.check(c.eq(r['R'][i, q], R[i][q]), 'the rotation to start from is kept when nothing better is found')
    c.check(c.eq(sum((r['cut_point'][i] - point[i]) * n[i] for i in range(3)), 0), 'the plane to start from is kept')
