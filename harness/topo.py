"""shared pieces for the mesh-connectivity harnesses"""


def any_faces(c, m, k, lo=0, hi=None, name='F'):
    """m arbitrary simplices with k distinct vertices each"""
    F = c.ints(name, (m, k), lo, hi)
    for i in range(m):
        for a in range(k):
            for b in range(a):
                c.assume(F[i, a] != F[i, b])
    return F


# abstract complexes: faces over abstract vertices
COMPLEXES = {
    'tri': [[0, 1, 2]],
    'diamond': [[0, 1, 2], [2, 1, 3]],
    'bowtie': [[0, 1, 2], [0, 3, 4]],
    'two': [[0, 1, 2], [3, 4, 5]],
    'fan3': [[0, 1, 2], [0, 2, 3], [0, 3, 4]],
    'disk3': [[0, 1, 2], [0, 2, 3], [0, 3, 1]],
    'strip3': [[0, 1, 2], [2, 1, 3], [2, 3, 4]],
    'tet': [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]],
    'book3': [[0, 1, 2], [1, 0, 3], [0, 1, 4]],
    'book4': [[0, 1, 2], [1, 0, 3], [0, 1, 4], [1, 0, 5]],
    'book33': [[0, 1, 2], [1, 0, 3], [0, 1, 4], [2, 1, 5], [1, 2, 6]],
    'moebius5': [[0, 1, 2], [1, 3, 2], [2, 3, 4], [3, 0, 4], [4, 0, 1]],
    'annulus6': [[0, 1, 3], [1, 4, 3], [1, 2, 4], [2, 5, 4], [2, 0, 5], [0, 3, 5]],
    'disk4': [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]],
    'disk5': [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 1]],
    'octa': [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]],
    'tetopen': [[0, 1, 2], [0, 3, 1], [1, 3, 2]],
    'book5': [[0, 1, 2], [1, 0, 3], [0, 1, 4], [1, 0, 5], [0, 1, 6]],
    'two22': [[0, 1, 2], [2, 1, 3], [4, 5, 6], [6, 5, 7]],
    'three': [[0, 1, 2], [3, 4, 5], [6, 7, 8]],
    'hexstrip': [[0, 1, 2], [2, 1, 3], [2, 3, 4], [4, 3, 5], [4, 5, 6], [6, 5, 7]],
    'grid33': [[0, 1, 3], [1, 4, 3], [1, 2, 4], [2, 5, 4], [3, 4, 6], [4, 7, 6], [4, 5, 7], [5, 8, 7]],
}


def labelled(c, name, spread=0, rot=False, flip=False, order=None):
    """a fixed abstract complex with arbitrary distinct vertex labels.

    spread: how many labels beyond the vertex count may be skipped.  rot/flip: every face is rotated /
    flipped arbitrarily.  order: one fixed order of the labels (step between abstract vertices), gaps still arbitrary"""
    fs = COMPLEXES[name]
    n = 1 + max(max(f) for f in fs)
    p = c.ints('p', (n,), 0, n - 1 + spread)
    if order is not None:
        q = [(1 + order * a) % n for a in range(n)]
        assert len(set(q)) == n
        for a, b in zip(q, q[1:]):
            c.assume(p[a] < p[b])
    for a in range(n if order is None else 0):
        for b in range(a):
            c.assume(p[a] != p[b])
    out = []
    for i, f in enumerate(fs):
        f = list(f)
        if rot:
            r = c.concrete_int('rot%d' % i, 0, 2)
            f = f[r:] + f[:r]
        if flip:
            if c.concrete_int('flip%d' % i, 0, 1):
                f = [f[0], f[2], f[1]]
        out.append([p[v] for v in f])
    return c.array(out), n


def halfedges_of(F, m):
    """[(tail, head)] of face i opposite corner k, as [i][k]"""
    return [[(F[i, (k + 1) % 3], F[i, (k + 2) % 3]) for k in range(3)] for i in range(m)]


def same_edge(c, a, b):
    return c.or_(c.and_(a[0] == b[0], a[1] == b[1]), c.and_(a[0] == b[1], a[1] == b[0]))


def row(E, i):
    return [E[i, j] for j in range(E.shape[1])]


def perm_same(c, a, b):
    """equal as sets, for tuples of distinct values"""
    return c.and_(*[c.or_(*[x == y for y in b]) for x in a])


def count(c, fs):
    """number of true formulas among fs (as an integer term)"""
    n = 0
    for f in fs:
        n = n + c.b2i(f)
    return n
