"""generic meshes with real coordinates, and the geometric quantities they are compared with"""

MESHES = {
    'tri': [[0, 1, 2]],
    'tri_r': [[2, 0, 1]],
    'tri_x': [[3, 0, 2]],                       # vertex 1 is unreferenced
    'diamond': [[0, 1, 2], [1, 0, 3]],
    'diamond_r': [[2, 0, 1], [0, 3, 1]],
    'diamond_g': [[4, 0, 2], [0, 4, 1]],         # vertex 3 is unreferenced
    'two': [[0, 1, 2], [3, 4, 5]],
    'fan3': [[0, 1, 2], [3, 0, 2], [0, 3, 4]],
    'disk3': [[0, 1, 2], [0, 2, 3], [3, 1, 0]],
    'tet': [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]],
    'strip3': [[0, 1, 2], [2, 1, 3], [2, 3, 4]],
}


def vec(V, i, j):
    return [V[j, k] - V[i, k] for k in range(V.shape[1])]


def mesh(c, name, d=3, n=None, oriented=False, unit=False):
    """vertices of a generic mesh: a base point plus free offsets.

    oriented (2D): all faces counterclockwise.  Returns V, F (concrete faces)"""
    fs = MESHES[name]
    n = n or 1 + max(max(f) for f in fs)
    base = fs[0][0]
    p = c.reals('p', d)
    e = c.reals('e', n, d)
    if unit:
        # up to a similarity the first edge of the first face is the unit vector
        e[fs[0][1], :] = c.array([1] + [0] * (d - 1))
    V = c.array([[p[k] + (e[i, k] if i != base else 0) for k in range(d)] for i in range(n)])
    for f in fs:
        u, w = vec(V, f[0], f[1]), vec(V, f[0], f[2])
        for a in (u, w, vec(V, f[1], f[2])):
            if d > 1:
                c.assume(c.gt(c.sos(a), 0))     # implied by the positive area
        if d == 3:
            x = c.sos(c.cross(u, w))
            c.assume(c.gt(x, 0))
        elif d == 2:
            x = u[0] * w[1] - u[1] * w[0]
            if oriented:
                c.nonneg(x)
                c.assume(c.gt(x, 0))
            else:
                c.sos([x])
                c.assume(c.not_(c.eq(x, 0)))
    return V, c.array(fs)


def sqlen(c, V, i, j):
    a = vec(V, i, j)
    return c.dot(a, a)


def lsq(c, V, F):
    """squared half-edge lengths, half-edge k opposite corner k"""
    return c.array([[sqlen(c, V, f[(k + 1) % 3], f[(k + 2) % 3]) for k in range(3)] for f in F])


def dbl(c, V, f):
    """twice the (unsigned) area"""
    u, w = vec(V, f[0], f[1]), vec(V, f[0], f[2])
    if V.shape[1] == 2:
        x = u[0] * w[1] - u[1] * w[0]
        return c.sqrt(x * x)
    return c.sqrt(c.sos(c.cross(u, w)))


def cosdot(c, V, f, k):
    """dot product of the two edges leaving corner k"""
    return c.dot(vec(V, f[k], f[(k + 1) % 3]), vec(V, f[k], f[(k + 2) % 3]))


def faces(F):
    return [[int(v) for v in f] for f in F.tolist()] if hasattr(F, 'tolist') else F


def gram(c, name):
    """squared half-edge lengths of one triangle or of two triangles sharing an edge, by inner products.

    -> l_sq rows, dots[i][k] (inner product of the edges leaving corner k), dbl[i] (double area), F"""
    fs = MESHES[name]
    E = c.nonneg(c.real('E'))
    c.assume(c.gt(E, 0))
    ls, dots, ds = [], [], []
    shared = (fs[0][0], fs[0][1]) if len(fs) == 1 else tuple(sorted(set(fs[0]) & set(fs[1])))
    for i, f in enumerate(fs):
        d = c.real('d%d' % i)
        w = c.nonneg(c.real('w%d' % i))
        c.assume(c.gt(w, 0))
        x = c.nonneg(E * w - d * d)
        c.assume(c.gt(x, 0))
        o = c.nonneg(E + w - 2 * d)
        c.assume(c.gt(o, 0))
        p, q = shared
        r = [v for v in f if v not in shared][0]
        sq = {frozenset((p, q)): E, frozenset((p, r)): w, frozenset((q, r)): o}
        dt = {p: d, q: E - d, r: w - d}
        ls.append([sq[frozenset((f[(k + 1) % 3], f[(k + 2) % 3]))] for k in range(3)])
        dots.append([dt[f[k]] for k in range(3)])
        ds.append(c.sqrt(x))
    return c.array(ls), dots, ds, c.array(fs)
