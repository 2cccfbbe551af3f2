"""F01 finite differences on grids, F02 interpolation and neighbours on grids"""
import itertools
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


def sizes(c, dim, hi, lo=2):
    return [c.concrete_int('n%d' % k, lo, hi) for k in range(dim)]


def nodes(gs):
    """grid nodes in library order: the first direction varies fastest"""
    return [tuple(reversed(t)) for t in itertools.product(*[range(g) for g in reversed(gs)])]


def index(gs, p):
    r = 0
    for g, x in zip(reversed(gs), reversed(p)):
        r = r * g + x
    return r


@H('F01', 'grids of 2..4 nodes per direction in the plane, 2..3 in space (thorough: 5 and 4), all spacings; every direction', cfg=CFG, quick=[dict(dim=2, hi=4), dict(dim=3, hi=3)], thorough=[dict(dim=2, hi=6), dict(dim=3, hi=4)])
def partial(c, dim, hi):
    gs = sizes(c, dim, hi)
    h = c.reals('h', dim)
    for x in c.items(h):
        c.assume(c.gt(x, 0))
    g = c.array(gs)
    N = len(nodes(gs))
    blocks = []
    for k in range(dim):
        D = c.g.fd_partial_derivative(g, h, k)
        c.check(c.b([c.concretize(x) for x in c.items(g)] == gs), 'the grid size given is not changed')
        st = [x - (q == k) for q, x in enumerate(gs)]
        rows = nodes(st)
        c.check(c.b(tuple(D.shape) == (len(rows), N)), 'one row per node of the staggered grid')
        M = D.toarray()
        want = [[0] * N for _ in rows]
        for r, p in enumerate(rows):
            q = tuple(x + (m == k) for m, x in enumerate(p))
            want[r][index(gs, p)], want[r][index(gs, q)] = -1, 1
        for r in range(len(rows)):
            for s in range(N):
                c.check(c.eq(M[r, s] * h[k], want[r][s]), 'a row is the difference of the two nodes around it over the spacing')
        blocks.append(M)
    G = c.g.fd_grad(g, h).toarray()
    c.check(c.b(tuple(G.shape) == (sum(b.shape[0] for b in blocks), N)), 'the gradient stacks the partial derivatives')
    r = 0
    for b in blocks:
        for i in range(b.shape[0]):
            for s in range(N):
                c.check(c.eq(G[r + i, s], b[i, s]), 'the gradient stacks the partial derivatives')
        r += b.shape[0]
    a = c.reals('a', dim)
    f = [sum(a[k] * h[k] * p[k] for k in range(dim)) + c.frac(3, 1) for p in nodes(gs)]
    d = G @ c.array(f)
    r = 0
    for k in range(dim):
        for i in range(blocks[k].shape[0]):
            c.check(c.eq(d[r + i], a[k]), 'linear data has its exact derivative')
        r += blocks[k].shape[0]


def modes(c, dim, m, l):
    """the candidate modes with their eigenvalue over pi squared"""
    return [(t, sum(c.frac(x * x, 1) / (l[k] * l[k]) for k, x in enumerate(t))) for t in itertools.product(range(m), repeat=dim)
            if len(set([1])) and _below(t) <= m]


def _below(t):
    r = 1
    for x in t:
        r *= x + 1
    return r


@H('F01', 'Neumann modes of grids of 4 and 7 nodes, up to 4 modes, all side lengths; up to 10 (thorough: 13) modes of long thin grids', cfg=CFG, budget=150,
   quick=[dict(dim=2, m=1), dict(dim=2, m=3), dict(dim=3, m=1), dict(dim=3, m=3), dict(dim=3, m=10, thin=1), dict(dim=2, m=10, thin=0)], thorough=[dict(dim=3, m=13, thin=0), dict(dim=3, m=13, thin=2), dict(dim=2, m=4), dict(dim=3, m=2), dict(dim=3, m=4)])
def eigen(c, dim, m, thin=None):
    gs = [7, 4] if dim == 2 else [4, 5, 4]
    if thin is not None:
        gs = [m + 2 if k == thin else 2 for k in range(dim)]
    if thin is None:
        l = c.reals('l', dim)
    else:
        l = c.array([c.real('l') if k == thin else 1 for k in range(dim)], 'f')
    for k in range(dim):
        c.assume(c.ge(l[k], 20) if k == thin else c.gt(l[k], 0))
    vecs = c.g.grid_laplacian_eigenfunctions(m, c.array(gs), l)
    P = nodes(gs)
    c.check(c.b(tuple(vecs.shape) == (len(P), m)), 'one column per mode and one row per node')
    cand = modes(c, dim, m, l)
    fn = {t: [_prod([c.cos(c.pi * c.frac(t[k] * p[k], gs[k] - 1)) for k in range(dim)]) for p in P] for t, _ in cand}
    used = []
    for s in range(m):
        hit = None
        for t, v in cand:
            if t not in used and c.decide(c.and_(*[c.eq(vecs[i, s], fn[t][i]) for i in range(len(P))])):
                hit = t
                break
        c.check(c.b(hit is not None), 'each column samples its own product of cosines at the grid nodes')
        if hit is None:
            return
        used.append(hit)
    ev = dict(cand)
    for a, b in zip(used, used[1:]):
        c.check(c.le(ev[a], ev[b]), 'the modes come in order of frequency')
    for t, v in cand:
        if t not in used:
            c.check(c.ge(v, ev[used[-1]]), 'no mode of lower frequency is left out')


def _prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


@H('F02', 'one query point anywhere in grids of 2..4 nodes per direction in the plane or 2..3 (thorough: also 2 by 3 by 4) in space, all spacings and corners; with and without the corner argument', cfg=CFG, budget=150,
   quick=[dict(dim=2, hi=3), dict(dim=3, hi=2), dict(dim=2, hi=3, two=1), dict(dim=3, gs=[2, 3, 3]), dict(dim=3, gs=[3, 2, 3])],
   thorough=[dict(dim=2, hi=4), dict(dim=3, hi=3), dict(dim=2, hi=3, two=1), dict(dim=3, hi=2, two=1), dict(dim=3, gs=[2, 3, 4]), dict(dim=3, gs=[4, 2, 3]), dict(dim=2, gs=[5, 2])])
def interpolate(c, dim, hi=0, two=0, gs=None):
    gs = gs or sizes(c, dim, hi)
    h = c.reals('h', dim)
    for x in c.items(h):
        c.assume(c.gt(x, 0))
    o = c.reals('o', dim)
    own = two or c.concrete_int('corner', 0, 1) == 1
    if not own:
        o = [0] * dim
    T = [c.reals('t', dim)]
    for k in range(dim):
        c.assume(c.and_(c.ge(T[0][k], 0), c.le(T[0][k], gs[k] - 1)))
        c.concretize(c.np.floor(T[0][k]))
    if two:
        T.append([c.frac(1, 3)] * dim)
        T.append([c.frac(2 * g - 3, 2) for g in gs])
    P = c.array([[o[k] + h[k] * t[k] for k in range(dim)] for t in T])
    W = c.g.fd_interpolate(P, c.array(gs), h, corner=c.array(o)) if own else c.g.fd_interpolate(P, c.array(gs), h)
    N = nodes(gs)
    c.check(c.b(tuple(W.shape) == (len(T), len(N))), 'one row per query and one column per node')
    W = W.toarray()
    for r, t in enumerate(T):
        for i, p in enumerate(N):
            w = W[r, i]
            c.check(c.ge(w, 0), 'weights are not negative')
            near = c.and_(*[c.and_(c.lt(t[k], p[k] + 1), c.gt(t[k], p[k] - 1)) for k in range(dim)])
            c.check(c.or_(near, c.eq(w, 0)), 'only corners of the containing cell have weight')
        c.check(c.eq(sum(W[r, i] for i in range(len(N))), 1), 'weights sum to one')
        for k in range(dim):
            c.check(c.eq(sum(W[r, i] * (o[k] + h[k] * p[k]) for i, p in enumerate(N)), P[r, k]), 'linear functions are reproduced')
        for i, p in enumerate(N):
            hat = _prod([_hat(c, t[k] - p[k]) for k in range(dim)])
            c.check(c.eq(W[r, i], hat), 'the weights are the products of the linear hat functions')


def _hat(c, d):
    if c.decide(c.ge(d, 0)):
        return 1 - d if c.decide(c.le(d, 1)) else 0
    return 1 + d if c.decide(c.ge(d, -1)) else 0


@H('F02', 'grids of 1..4 nodes per direction in the plane, 1..3 in space (thorough: up to 7 and 4), neighbourhoods of order 1..3, every option', cfg=CFG, budget=150,
   quick=[dict(dim=2, hi=4, order=1), dict(dim=2, hi=4, order=2), dict(dim=2, hi=3, order=3), dict(dim=3, hi=2, order=1)],
   thorough=[dict(dim=2, hi=7, order=1), dict(dim=2, hi=7, order=2), dict(dim=2, hi=5, order=3), dict(dim=3, hi=4, order=1), dict(dim=3, hi=2, order=2)])
def neighbours(c, dim, hi, order):
    gs = sizes(c, dim, hi, 1)
    diag, own, uniq = [c.concrete_int(k, 0, 1) == 1 for k in ('diagonals', 'self', 'unique')]
    R = c.g.grid_neighbors(c.array(gs), order=order, include_diagonals=diag, include_self=own, output_unique=uniq)
    N = nodes(gs)
    c.check(c.b(R.shape[1] == len(N)), 'one column per cell')
    R = [[c.concretize(x) for x in r] for r in R.tolist()]
    for i, p in enumerate(N):
        col = [r[i] for r in R]
        pos = [x for x in col if x >= 0]
        want = set()
        for j, q in enumerate(N):
            d = [abs(a - b) for a, b in zip(p, q)]
            if (max(d) if diag else sum(d)) <= order and (j != i or own):
                want.add(j)
        got = set(pos)
        if order > 1 and not own:
            got.discard(i)
        c.check(c.b(got == want), 'the neighbours of a cell are exactly the cells of its neighbourhood')
        if uniq:
            c.check(c.b(len(pos) == len(set(pos))), 'no neighbour is listed twice when duplicates are to be removed')
        c.check(c.b(all(x == -1 for x in col if x < 0)), 'places outside the grid are marked by minus one')
