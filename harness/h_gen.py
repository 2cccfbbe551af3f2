"""M01 generated surfaces, M02 regular grids"""
import itertools
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20, 'exact': True}


def rows(c, F):
    return [[c.concretize(x) for x in r] for r in F.tolist()]


def surface(c, V, F, boundary):
    """topology of an oriented triangle surface; boundary is the expected number of boundary rings"""
    n = V.shape[0]
    c.check(c.b(all(0 <= x < n for f in F for x in f) and all(len(set(f)) == len(f) for f in F)), 'faces index into the vertices and do not repeat a corner')
    c.check(c.b({x for f in F for x in f} == set(range(n))), 'every vertex is used')
    half = [(f[k], f[(k + 1) % 3]) for f in F for k in range(3)]
    c.check(c.b(len(set(half)) == len(half)), 'neighbouring faces are oriented alike')
    out = {}
    bd = [e for e in half if (e[1], e[0]) not in set(half)]
    for a, b in bd:
        c.check(c.b(a not in out), 'the boundary is a set of simple rings')
        out[a] = b
    rings, seen = [], set()
    for a in sorted(out):
        if a in seen:
            continue
        r = []
        while a in out and a not in seen:
            seen.add(a)
            r.append(a)
            a = out[a]
        c.check(c.b(a == r[0]), 'the boundary is a set of simple rings')
        rings.append(r)
    c.check(c.b(len(rings) == boundary), 'the surface has exactly the promised boundary')
    star = {}
    for f in F:
        for k in range(3):
            star.setdefault(f[k], []).append((f[(k + 1) % 3], f[(k + 2) % 3]))
    for v, es in star.items():
        nxt = dict(es)
        c.check(c.b(len(nxt) == len(es)), 'the faces around a vertex form one fan')
        start = [a for a, b in es if a not in set(nxt.values())]
        a = start[0] if start else es[0][0]
        k = 0
        while a in nxt and k < len(es):
            a = nxt[a]
            k += 1
        c.check(c.b(k == len(es) and len(start) <= 1), 'the faces around a vertex form one fan')
    comp = {v: v for v in range(n)}

    def root(v):
        while comp[v] != v:
            v = comp[v]
        return v
    for f in F:
        for x in f:
            comp[root(x)] = root(f[0])
    c.check(c.b(len({root(v) for v in range(n)}) == 1), 'the surface is connected')
    return n - len({frozenset(e) for e in half}) + len(F), rings


def det3(a, b, d):
    return a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0])


def distinct(c, V, n):
    P = [c.items(V[k]) for k in range(n)]
    for a in range(n):
        for b in range(a):
            c.check(c.not_(c.and_(*[c.eq(x, y) for x, y in zip(P[a], P[b])])), 'vertices are not repeated')


def normal(c, V, f):
    a, b, d = [c.items(V[x]) for x in f]
    return c.cross(c.sub(b, a), c.sub(d, a)), [a[k] + b[k] + d[k] for k in range(3)]


def resolution(c, lo, hi):
    return c.concrete_int('n', lo, hi)


@H('M01', 'cylinders of 3..8 by 2..4 vertices (thorough: 13 by 6)', cfg=CFG, quick=[dict(hi=6, hz=4), dict(lo=7, hi=8, hz=2)], thorough=[dict(hi=9, hz=5), dict(lo=10, hi=13, hz=3), dict(hi=4, hz=8)])
def cylinder(c, hi, hz, lo=3):
    nx, nz = resolution(c, lo, hi), c.concrete_int('nz', 2, hz)
    V, F = c.g.cylinder(nx, nz)
    F = rows(c, F)
    chi, rings = surface(c, V, F, 2)
    c.check(c.b(chi == 0), 'the surface has the promised genus')
    c.check(c.b(tuple(V.shape) == (nx * nz, 3)), 'the resolution is as asked')
    distinct(c, V, V.shape[0])
    level = {}
    for k in range(V.shape[0]):
        x, y, z = c.items(V[k])
        c.check(c.eq(x * x + y * y, 1), 'vertices lie on the surface')
        q = [j for j in range(nz) if c.decide(c.eq(z * (nz - 1), j))]
        c.check(c.b(len(q) == 1), 'vertices lie on evenly spaced levels')
        level.setdefault(q[0] if q else -1, []).append(k)
    c.check(c.b(all(len(level.get(j, [])) == nx for j in range(nz))), 'the resolution is as asked')
    c.check(c.b(sorted(sorted(r) for r in rings) == sorted([sorted(level.get(0, [])), sorted(level.get(nz - 1, []))])), 'the boundary rings are the two ends')
    for f in F:
        m, s = normal(c, V, f)
        c.check(c.gt(m[0] * s[0] + m[1] * s[1], 0), 'faces are oriented outward')
        c.check(c.b(sum(1 for j in level if set(f) & set(level[j])) == 2), 'a face joins neighbouring levels')
    even(c, V, [level[j] for j in sorted(level)], nx)


def near(c, a, b):
    e = c.frac(1, 10**9)
    return c.and_(c.le(a, b + e), c.ge(a, b - e))


def even(c, V, groups, n):
    """from every vertex of a group another one is a turn of 2 pi / n around the axis away"""
    w = 2 * c.pi * c.frac(1, n)
    for g in groups:
        P = [c.items(V[a])[:2] for a in g]
        for x in P:
            q = x[0] * x[0] + x[1] * x[1]
            c.check(c.or_(*[c.and_(near(c, x[0] * y[0] + x[1] * y[1], q * c.cos(w)), near(c, x[0] * y[1] - x[1] * y[0], q * c.sin(w))) for y in P]), 'vertices are evenly spaced')


@H('M01', 'cones of 3..8 by 2..4 vertices (thorough: 13 by 6)', cfg=CFG, quick=[dict(hi=6, hz=4), dict(lo=7, hi=8, hz=2)], thorough=[dict(hi=9, hz=5), dict(lo=10, hi=13, hz=3), dict(hi=4, hz=8)])
def cone(c, hi, hz, lo=3):
    nx, nz = resolution(c, lo, hi), c.concrete_int('nz', 2, hz)
    V, F = c.g.cone(nx, nz)
    F = rows(c, F)
    chi, rings = surface(c, V, F, 1)
    c.check(c.b(chi == 1), 'the surface has the promised genus')
    c.check(c.b(tuple(V.shape) == (nx * (nz - 1) + 1, 3)), 'the resolution is as asked')
    distinct(c, V, V.shape[0])
    level = {}
    for k in range(V.shape[0]):
        x, y, z = c.items(V[k])
        c.check(c.eq(x * x + y * y, (1 - z) * (1 - z)), 'vertices lie on the surface')
        q = [j for j in range(nz) if c.decide(c.eq(z * (nz - 1), j))]
        c.check(c.b(len(q) == 1), 'vertices lie on evenly spaced levels')
        level.setdefault(q[0] if q else -1, []).append(k)
    c.check(c.b(len(level.get(nz - 1, [])) == 1 and all(len(level.get(j, [])) == nx for j in range(nz - 1))), 'the resolution is as asked')
    c.check(c.b([sorted(r) for r in rings] == [sorted(level.get(0, []))]), 'the boundary ring is the base')
    for f in F:
        m, s = normal(c, V, f)
        c.check(c.and_(c.gt(m[0] * s[0] + m[1] * s[1], 0), c.gt(m[2], 0)), 'faces are oriented outward')
    even(c, V, [level[j] for j in sorted(level) if j < nz - 1], nx)


@H('M01', 'tori of 3..5 by 3..4 vertices (thorough: 8 by 6), all radii; orientation for the embedded ones', cfg=CFG, budget=120, quick=[dict(hi=4, hr=4), dict(lo=5, hi=6, hr=3)], thorough=[dict(hi=6, hr=6), dict(lo=7, hi=10, hr=3), dict(hi=3, hr=7)])
def torus(c, hi, hr, lo=3):
    nR, nr = resolution(c, lo, hi), c.concrete_int('nr', 3, hr)
    if c.concrete_int('default', 0, 1) == 0:
        R, r = c.reals('R', 2)
        c.assume(c.and_(c.gt(R, 0), c.gt(r, 0)))
        V, F = c.g.torus(nR, nr, R=R, r=r)
    else:
        R, r = c.frac(1, 1), c.frac(1, 2)
        V, F = c.g.torus(nR, nr)
    F = rows(c, F)
    chi, _ = surface(c, V, F, 0)
    c.check(c.b(chi == 0), 'the surface has the promised genus')
    c.check(c.b(tuple(V.shape) == (nR * nr, 3)), 'the resolution is as asked')
    for k in range(V.shape[0]):
        x, y, z = c.items(V[k])
        p = x * x + y * y
        q = p + z * z + R * R - r * r
        c.check(c.eq(q * q, 4 * R * R * p), 'vertices lie on the surface')
    if c.decide(c.gt(R, r)):
        vol = 0
        for f in F:
            vol = vol + det3(*[c.items(V[x]) for x in f])
        c.check(c.gt(vol, 0), 'faces are oriented outward')
        distinct(c, V, V.shape[0])


@H('M01', 'icospheres of level 0 and 1 (thorough: 2)', cfg=CFG, budget=120, quick=[dict(n=0), dict(n=1)], thorough=[dict(n=2)])
def icosphere(c, n):
    V, F = c.g.icosphere(n) if n or c.concrete_int('default', 0, 1) == 0 else c.g.icosphere()
    F = rows(c, F)
    chi, _ = surface(c, V, F, 0)
    c.check(c.b(chi == 2), 'the surface has the promised genus')
    c.check(c.b(len(F) == 20 * 4 ** n), 'the resolution is as asked')
    for k in range(V.shape[0]):
        c.check(c.eq(c.dot(c.items(V[k]), c.items(V[k])), 1), 'vertices lie on the surface')
    if n < 3:
        for f in F:
            c.check(c.gt(det3(*[c.items(V[x]) for x in f]), c.frac(1, 1000)), 'faces are oriented outward')


@H('M01', 'circles of 3..12 vertices', cfg=CFG, quick=[dict(hi=12)], thorough=[dict(hi=24)])
def circle(c, hi):
    n = resolution(c, 3, hi)
    V, E = c.g.regular_circle_polyline(n)
    E = rows(c, E)
    c.check(c.b(tuple(V.shape) == (n, 2) and len(E) == n), 'the resolution is as asked')
    nxt = dict(E)
    c.check(c.b(set(nxt) == set(range(n)) and set(nxt.values()) == set(range(n))), 'the polyline is closed')
    v, k = nxt[0], 1
    while v and k < n:
        v, k = nxt[v], k + 1
    c.check(c.b(k == n), 'the polyline is one loop')
    w = 2 * c.pi * c.frac(1, n)
    for a, b in E:
        x, y = c.items(V[a]), c.items(V[b])
        c.check(c.eq(c.dot(x, x), 1), 'vertices lie on the surface')
        c.check(c.gt(x[0] * y[1] - x[1] * y[0], 0), 'the loop runs counterclockwise and its edges have length')
        c.check(c.le(c.dot(x, y), c.cos(w) + c.frac(1, 10**9)), 'vertices are evenly spaced')
        c.check(c.ge(c.dot(x, y), c.cos(w) - c.frac(1, 10**9)), 'vertices are evenly spaced')


# ---------------------------------------------------------------------------------------------------------------------- M02
@H('M02', 'square grids of 2..4 by 2..4 vertices (thorough: 7)', cfg=CFG, quick=[dict(hi=4)], thorough=[dict(hi=7)])
def square(c, hi):
    nx = resolution(c, 2, hi)
    both = c.concrete_int('both', 0, 1) == 1
    ny = c.concrete_int('ny', 2, hi) if both else nx
    V, F = c.g.regular_square_mesh(nx, ny) if both else c.g.regular_square_mesh(nx)
    F = rows(c, F)
    c.check(c.b(tuple(V.shape) == (nx * ny, 2)), 'one vertex per grid node')
    chi, rings = surface(c, V, F, 1)
    c.check(c.b(chi == 1), 'the mesh is a disk')
    for k in range(nx * ny):
        x, y = k % nx, k // nx
        c.check(c.and_(c.eq((V[k, 0] + 1) * (nx - 1), 2 * x), c.eq((V[k, 1] + 1) * (ny - 1), 2 * y)), 'vertices are the grid nodes in row order')
    edge = [k for k in range(nx * ny) if k % nx in (0, nx - 1) or k // nx in (0, ny - 1)]
    c.check(c.b(sorted(rings[0]) == edge), 'the boundary is that of the square')
    cells = {}
    for f in F:
        a = c.det([c.sub(c.items(V[f[1]]), c.items(V[f[0]])), c.sub(c.items(V[f[2]]), c.items(V[f[0]]))])
        c.check(c.eq(a * (nx - 1) * (ny - 1), 4), 'triangles are positively oriented halves of their cell')
        xs, ys = sorted({v % nx for v in f}), sorted({v // nx for v in f})
        c.check(c.b(len(xs) == 2 and len(ys) == 2 and xs[1] == xs[0] + 1 and ys[1] == ys[0] + 1), 'a triangle lies in one cell')
        cells.setdefault((xs[0], ys[0]), []).append(f)
    c.check(c.b(set(cells) == set(itertools.product(range(nx - 1), range(ny - 1))) and all(len(v) == 2 and len(set(v[0]) & set(v[1])) == 2 for v in cells.values())), 'the triangles tile the square')


TYPES = ['five', 'reflectionally-symmetric', 'rotationally-symmetric', 'hex', None]


@H('M02', 'cube grids of 2..3 vertices per direction (thorough: 4), every subdivision type', cfg=CFG, budget=120, quick=[dict(hi=3)], thorough=[dict(hi=4)])
def cube(c, hi):
    n = [resolution(c, 2, hi)]
    given = c.concrete_int('given', 1, 3)
    for k in range(1, 3):
        n.append(c.concrete_int('n%d' % k, 2, hi) if given > k else n[-1])
    ty = TYPES[c.concrete_int('type', 0, 4)]
    V, T = c.g.regular_cube_mesh(*n[:given], **({} if ty is None else dict(type=ty)))
    nx, ny, nz = n
    T = rows(c, T)
    c.check(c.b(tuple(V.shape) == (nx * ny * nz, 3)), 'one vertex per grid node')
    at = {}
    for k in range(V.shape[0]):
        p = tuple(c.concretize(V[k, d] * (n[d] - 1)) for d in range(3))
        c.check(c.b(all(0 <= p[d] < n[d] for d in range(3))), 'vertices are grid nodes')
        for d in range(3):
            c.check(c.eq(V[k, d] * (n[d] - 1), p[d]), 'vertices are grid nodes')
        at[k] = p
    c.check(c.b(len(set(at.values())) == len(at)), 'every grid node occurs once')
    grid = V[:, 0].reshape((ny, nx, nz)).transpose(1, 0, 2)
    for i in range(nx):
        c.check(c.eq(grid[i, 0, 0] * (nx - 1), i), 'the documented reshaping gives the coordinate grid')
        c.check(c.eq(grid[i, ny - 1, nz - 1] * (nx - 1), i), 'the documented reshaping gives the coordinate grid')
    per = {'five': 5, 'hex': 1}.get(ty, 6)
    cells = {}
    for t in T:
        lo = tuple(min(at[v][d] for v in t) for d in range(3))
        c.check(c.b(all(max(at[v][d] for v in t) == lo[d] + 1 for d in range(3))), 'an element lies in one cell')
        cells.setdefault(lo, []).append(t)
    c.check(c.b(set(cells) == set(itertools.product(*[range(m - 1) for m in n])) and all(len(v) == per for v in cells.values())), 'every cell is divided alike')
    if ty == 'hex':
        for lo, (t,) in cells.items():
            q = [tuple(at[v][d] - lo[d] for d in range(3)) for v in t]
            ok = len(set(q)) == 8 and all(sum(1 for d in range(3) if q[i][d] != q[j][d]) == 1 for i, j in [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)])
            c.check(c.b(ok), 'a hexahedron lists the corners of its cell face by face')
        return
    for lo, ts in cells.items():
        total = 0
        for t in ts:
            p = [c.items(V[v]) for v in t]
            d6 = det3(*[c.sub(x, p[0]) for x in p[1:]]) * (nx - 1) * (ny - 1) * (nz - 1)
            c.check(c.or_(c.eq(d6, 1), c.eq(d6, 2)) if ty == 'five' else c.eq(d6, 1), 'tetrahedra are positively oriented parts of their cell of the promised size')
            total = total + d6
        c.check(c.eq(total, 6), 'the tetrahedra of a cell have its volume')
        for a, b in itertools.combinations(ts, 2):
            c.check(c.b(apart([at[v] for v in a], [at[v] for v in b])), 'the tetrahedra of a cell do not overlap')
    if ty != 'five':
        faces = {}
        for t in T:
            for k in range(4):
                f = frozenset(t[:k] + t[k + 1:])
                faces[f] = faces.get(f, 0) + 1
        for f, m in faces.items():
            flat = any(len({at[v][d] for v in f}) == 1 and next(iter({at[v][d] for v in f})) in (0, n[d] - 1) for d in range(3))
            c.check(c.b(m == (1 if flat else 2)), 'neighbouring tetrahedra share whole faces')


def apart(a, b):
    """two lattice tetrahedra have disjoint interiors: a face plane of one separates them (or an edge pair)"""
    def sub(x, y):
        return [p - q for p, q in zip(x, y)]

    def cr(x, y):
        return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    axes = []
    for t in (a, b):
        for f in itertools.combinations(t, 3):
            axes.append(cr(sub(f[1], f[0]), sub(f[2], f[0])))
    ea = [sub(x, y) for x, y in itertools.combinations(a, 2)]
    eb = [sub(x, y) for x, y in itertools.combinations(b, 2)]
    axes += [cr(x, y) for x in ea for y in eb]
    for n in axes:
        if any(n):
            p = [sum(x * y for x, y in zip(n, v)) for v in a]
            q = [sum(x * y for x, y in zip(n, v)) for v in b]
            if max(p) <= min(q) or max(q) <= min(p):
                return True
    return False
