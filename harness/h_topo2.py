from sym.harness import H
from harness.topo import *


def oriented_manifold(c, he):
    """no directed half-edge occurs twice (edge-manifold, consistently oriented)"""
    for i in range(len(he)):
        for j in range(i):
            c.assume(c.not_(c.and_(he[i][0] == he[j][0], he[i][1] == he[j][1])))


def he_map_spec(c, F, m, manifold):
    g = c.g
    hes = halfedges_of(F, m)
    flat = [(i, k) for i in range(m) for k in range(3)]
    if manifold:
        oriented_manifold(c, [hes[i][k] for i, k in flat])
    he, E, he_to_E, E_to_he = g.halfedge_edge_map(F, assume_manifold=manifold)
    ne = E.shape[0]
    rows = [row(E, i) for i in range(ne)]
    c.check(c.and_(*[c.and_(he[i, k, 0] == hes[i][k][0], he[i, k, 1] == hes[i][k][1]) for i, k in flat]), 'half-edge k of a face joins its other two corners')
    c.check(c.and_(*[c.not_(same_edge(c, rows[i], rows[j])) for i in range(ne) for j in range(i)]), 'no edge is listed twice')
    c.check(c.and_(*[c.and_(he_to_E[i, k] >= 0, he_to_E[i, k] < ne) for i, k in flat]), 'every half-edge has an edge')
    c.check(c.and_(*[c.implies(he_to_E[i, k] == e, same_edge(c, rows[e], hes[i][k])) for i, k in flat for e in range(ne)]), 'the edge of a half-edge has the same end points')
    c.check(c.b(len(E_to_he) == ne), 'one list of half-edges per edge')
    for e in range(ne):
        if manifold:
            refs = [(E_to_he[e, s, 0], E_to_he[e, s, 1]) for s in range(2)]
            c.check(c.not_(c.and_(refs[0][0] == refs[1][0], refs[0][1] == refs[1][1])), 'the two half-edges of an edge differ')
        else:
            R = E_to_he[e]
            refs = [(R[s, 0], R[s, 1]) for s in range(R.shape[0])]
        none = [c.and_(r == -1, q == -1) for r, q in refs]
        c.check(c.and_(*[c.or_(none[s], c.and_(r >= 0, r < m, q >= 0, q < 3)) for s, (r, q) in enumerate(refs)]), 'half-edge references are in range or -1')
        if not manifold:
            c.check(c.and_(*[c.not_(x) for x in none]), 'no missing reference in the general mode')
        for i, k in flat:
            listed = c.or_(*[c.and_(r == i, q == k) for r, q in refs])
            c.check(c.iff(listed, he_to_E[i, k] == e), 'an edge lists exactly the half-edges that map to it')
    # boundary edges keep the orientation of their face
    for e in range(ne):
        n = count(c, [he_to_E[i, k] == e for i, k in flat])
        c.check(c.or_(n != 1, c.or_(*[c.and_(rows[e][0] == hes[i][k][0], rows[e][1] == hes[i][k][1]) for i, k in flat])), 'boundary edges are oriented as in the mesh')


@H('T02', 'm arbitrary triangles with distinct corners and labels in 0..hi; manifold mode: no directed edge occurs twice', budget=200,
   quick=[dict(m=1, manifold=True), dict(m=1, manifold=False), dict(m=2, hi=3, manifold=True), dict(m=2, hi=3, manifold=False)],
   thorough=[dict(m=1, manifold=True), dict(m=1, manifold=False), dict(m=2, manifold=True), dict(m=2, manifold=False), dict(m=3, hi=3, manifold=True)])
def he_map_any(c, m, manifold, hi=None):
    F = any_faces(c, m, 3, hi=hi)
    he_map_spec(c, F, m, manifold)


@H('T02', 'fixed abstract complexes under every injective labelling', budget=200,
   quick=[dict(name='book3', manifold=False), dict(name='tet', manifold=True), dict(name='strip3', manifold=True, spread=10**6, order=2), dict(name='bowtie', manifold=False, spread=10**6, order=3), dict(name='book4', manifold=False, order=5, spread=10**6), dict(name='book5', manifold=False, order=3, spread=10**6), dict(name='book33', manifold=False, order=2, spread=10**6), dict(name='octa', manifold=True, order=5, spread=10**6), dict(name='octa', manifold=False, order=1, spread=10**6), dict(name='grid33', manifold=True, order=2, spread=10**6), dict(name='moebius5', manifold=False, order=3, spread=10**6)],
   thorough=[dict(name='book3', manifold=False, flip=True), dict(name='tet', manifold=True), dict(name='annulus6', manifold=True), dict(name='disk3', manifold=True, rot=True)])
def he_map_complex(c, name, manifold, **kw):
    F, n = labelled(c, name, **kw)
    he_map_spec(c, F, F.shape[0], manifold)


def tta_spec(c, F, m):
    hes = halfedges_of(F, m)
    flat = [(i, k) for i in range(m) for k in range(3)]
    oriented_manifold(c, [hes[i][k] for i, k in flat])
    TT, TTi = c.g.triangle_triangle_adjacency(F)
    c.check(c.b(TT.shape == (m, 3) and TTi.shape == (m, 3)), 'one entry per half-edge')
    for i, k in flat:
        opp = [(j, l, c.and_(hes[j][l][0] == hes[i][k][1], hes[j][l][1] == hes[i][k][0])) for j, l in flat]
        c.check(c.and_(*[c.iff(o, c.and_(TT[i, k] == j, TTi[i, k] == l)) for j, l, o in opp]), 'the neighbour across a half-edge is the face with the opposite half-edge')
        c.check(c.or_(c.or_(*[o for _, _, o in opp]), c.and_(TT[i, k] == -1, TTi[i, k] == -1)), 'boundary half-edges have no neighbour')


@H('T02', 'm arbitrary consistently oriented triangles, labels in 0..hi', budget=200,
   quick=[dict(m=1), dict(m=2, hi=3)], thorough=[dict(m=1), dict(m=2), dict(m=3, hi=3)])
def tt_adjacency(c, m, hi=None):
    tta_spec(c, any_faces(c, m, 3, hi=hi), m)


@H('T02', 'fixed abstract complexes under every injective labelling', budget=200,
   quick=[dict(name='tet'), dict(name='two', spread=10**6, order=1), dict(name='strip3', spread=10**6, order=2), dict(name='octa', order=5, spread=10**6), dict(name='grid33', order=2, spread=10**6), dict(name='annulus6', order=1, spread=10**6)], thorough=[dict(name='tet', rot=True), dict(name='octa', order=1, spread=10**6), dict(name='hexstrip', order=3, spread=10**6), dict(name='annulus6'), dict(name='strip3', spread=1), dict(name='two', spread=8)])
def tt_adjacency_complex(c, name, **kw):
    F, n = labelled(c, name, **kw)
    tta_spec(c, F, F.shape[0])


# ------------------------------------------------------------------------------------------------ tets
HF = [(1, 2, 3), (3, 2, 0), (3, 0, 1), (1, 0, 2)]


def same_face(c, a, b):
    return perm_same(c, a, b)


def even_perm(c, a, b):
    return c.or_(*[c.and_(*[a[(i + r) % 3] == b[i] for i in range(3)]) for r in range(3)])


@H('T03', 'm tetrahedra with distinct corners, labels in 0..hi', budget=200,
   quick=[dict(m=1), dict(m=2, hi=4, fixed=True), dict(m=2, hi=11, share=True)], thorough=[dict(m=1), dict(m=2, hi=4), dict(m=2, hi=40, share=True), dict(m=3, hi=5, fixed=True)])
def tet_faces(c, m, hi=None, fixed=False, share=False):
    T = any_faces(c, m, 4, hi=hi, name='T')
    if fixed:
        # first tet sorted, second tet shares its first two corners: a smaller family that still has shared faces
        for k in range(3):
            c.assume(T[0, k] < T[0, k + 1])
    if share:
        # labels with gaps: two tets with a common edge (and perhaps more)
        for k in range(3):
            c.assume(T[0, k] < T[0, k + 1])
        c.assume(T[1, 0] == T[0, 0])
        c.assume(T[1, 1] == T[0, 1])
        c.assume(T[1, 2] < T[1, 3])
    tet_spec(c, T, m)


def tet_spec(c, T, m):
    g = c.g
    hf_ = g.halffaces(T)
    flat = []
    for i in range(m):
        for k in range(4):
            h = [T[i, v] for v in HF[k]]
            flat.append(h)
            c.check(c.and_(*[c.or_(*[hf_[i, k, a] == h[b] for b in range(3)]) for a in range(3)]), 'half-face k of a tet has the three other corners')
            c.check(even_perm(c, [hf_[i, k, a] for a in range(3)], h), 'half-faces are oriented consistently (outward for a positively oriented tet)')
            flat[-1] = [hf_[i, k, a] for a in range(3)]
    F, bi, ii, ni = g.faces(T, return_boundary_indices=True, return_interior_indices=True, return_nonmanifold_indices=True)
    n = F.shape[0]
    rows = [row(F, i) for i in range(n)]
    sf = [[same_face(c, r, h) for h in flat] for r in rows]
    c.check(c.and_(*[c.or_(*s) for s in sf]), 'every listed face is a face of some tet')
    c.check(c.and_(*[c.or_(*[sf[i][j] for i in range(n)]) for j in range(len(flat))]), 'every face of every tet is listed')
    c.check(c.and_(*[c.not_(same_face(c, rows[i], rows[j])) for i in range(n) for j in range(i)]), 'no face is listed twice')
    cnt = [count(c, s) for s in sf]
    for idx, cond, label in ((bi, lambda k: k == 1, 'boundary'), (ii, lambda k: k >= 2, 'interior'), (ni, lambda k: k >= 3, 'non-manifold')):
        L = c.items(idx)
        c.check(c.and_(*[c.iff(cond(cnt[i]), c.or_(*[x == i for x in L])) for i in range(n)]), label + ' indices are exact')
    c.check(c.and_(*[c.implies(cnt[i] == 1, c.or_(*[c.and_(*[x == y for x, y in zip(rows[i], h)]) for h in flat])) for i in range(n)]), 'boundary faces are oriented as in their tet')
    BF = g.boundary_faces(T)
    br = [row(BF, i) for i in range(BF.shape[0])]
    c.check(c.and_(*[c.iff(cnt[i] == 1, c.or_(*[c.and_(*[x == y for x, y in zip(rows[i], b)]) for b in br])) for i in range(n)]), 'the boundary faces are the faces of exactly one tet')
    c.check(c.b(len(br) == len(c.items(bi))), 'no boundary face is repeated')


TETS = {
    'ring3': [[0, 1, 2, 3], [0, 1, 3, 4], [0, 1, 4, 2]],
    'book3': [[0, 1, 2, 3], [0, 2, 1, 4], [1, 2, 0, 5]],
    'book4': [[0, 1, 2, 3], [0, 2, 1, 4], [5, 1, 2, 0], [1, 6, 0, 2]],
    'book33': [[0, 1, 2, 3], [0, 2, 1, 4], [1, 2, 0, 5], [3, 1, 2, 6], [7, 3, 2, 1]],
    'cube5': [[0, 1, 2, 4], [3, 1, 7, 2], [5, 1, 4, 7], [6, 2, 7, 4], [1, 2, 4, 7]],
    'ball4': [[0, 1, 2, 3], [0, 1, 3, 4], [0, 1, 4, 2], [0, 2, 4, 3]],
    'two': [[0, 1, 2, 3], [4, 5, 6, 7]],
    'edge2': [[0, 1, 2, 3], [0, 1, 4, 5]],
}


@H('T03', 'fixed tetrahedral complexes (up to four tets on one face, interior vertices, several components) under one order of the labels with arbitrary gaps', budget=200,
   quick=[dict(name=k, order=o, spread=10**6 if s else 0) for k, o, s in (('ring3', 2, 9), ('book3', 5, 3), ('book4', 3, 2), ('book33', 3, 2), ('book33', 5, 0), ('cube5', 3, 2), ('ball4', 2, 3), ('two', 3, 5), ('edge2', 5, 5))],
   thorough=[dict(name=k, order=o, spread=10**6 if s else 0) for k, o, s in (('ring3', 1, 99), ('ring3', 3, 9), ('book3', 1, 9), ('book4', 5, 5), ('book33', 1, 5), ('cube5', 1, 9), ('cube5', 5, 9), ('ball4', 1, 9), ('two', 5, 30), ('edge2', 1, 30))])
def tet_faces_complex(c, name, order, spread):
    ts = TETS[name]
    n = 1 + max(max(t) for t in ts)
    p = c.ints('p', (n,), 0, n - 1 + spread)
    q = [(1 + order * a) % n for a in range(n)]
    assert len(set(q)) == n
    for a, b in zip(q, q[1:]):
        c.assume(p[a] < p[b])
    tet_spec(c, c.array([[p[v] for v in t] for t in ts]), len(ts))


# ------------------------------------------------------------------------------------------------ loops
@H('T04', 'fixed edge-manifold complexes under every injective labelling; faces flipped arbitrarily where stated', budget=200,
   quick=[dict(name='tri', flip=True), dict(name='diamond', flip=True), dict(name='fan3', wrong=True), dict(name='fan3', wrong=False), dict(name='two', part=True), dict(name='tet'), dict(name='tetopen'), dict(name='two', flip=True, order=5, spread=10**6), dict(name='two22', flip=True, order=3, spread=10**6), dict(name='annulus6', flip=True, order=1, spread=10**6), dict(name='annulus6', wrong=False, order=5, spread=10**6), dict(name='three', wrong=True, order=2, spread=10**6), dict(name='moebius5', order=2, flip=True, spread=10**6), dict(name='grid33', order=4, wrong=False, spread=10**6), dict(name='grid33', order=2, wrong=True, spread=10**6)],
   thorough=[dict(name='tri', flip=True), dict(name='diamond', flip=True), dict(name='fan3', wrong=True, flip=True), dict(name='fan3', wrong=False), dict(name='two'), dict(name='tet'), dict(name='tetopen', flip=True), dict(name='disk3', flip=True), dict(name='annulus6'), dict(name='moebius5')])
def loops(c, name, wrong=True, part=False, **kw):
    F, n = labelled(c, name, **kw)
    if part:
        c.assume(F[0, 0] < F[0, 1])
        c.assume(F[0, 0] < F[0, 2])
        c.assume(F[1, 0] < F[1, 1])
        c.assume(F[1, 0] < F[1, 2])
    m = F.shape[0]
    he = [h for r in halfedges_of(F, m) for h in r]
    L = c.g.boundary_loops(F, allow_wrong_orientations=wrong)
    loopv = [c.items(l) for l in L]
    segs = [(l[i], l[(i + 1) % len(l)]) for l in loopv for i in range(len(l))]
    cnt = [count(c, [same_edge(c, s, h) for h in he]) for s in segs]
    c.check(c.and_(*[x == 1 for x in cnt]), 'consecutive loop vertices (cyclically) span a boundary edge')
    c.check(c.and_(*[c.not_(same_edge(c, segs[i], segs[j])) for i in range(len(segs)) for j in range(i)]), 'no boundary edge is traversed twice')
    for h in he:
        c.check(c.or_(count(c, [same_edge(c, h, k) for k in he]) != 1, c.or_(*[same_edge(c, h, s) for s in segs])), 'every boundary edge is on a loop')
    for l in loopv:
        c.check(c.and_(*[l[i] != l[j] for i in range(len(l)) for j in range(i)]), 'loops are simple')
        c.check(c.b(len(l) >= 3), 'loops have at least three vertices')
    if not kw.get('flip') and name != 'moebius5':    # a Moebius band has no consistent orientation
        c.check(c.and_(*[c.or_(*[c.and_(s[0] == h[0], s[1] == h[1]) for h in he]) for s in segs]), 'loops of a consistently oriented mesh follow its orientation')


# ------------------------------------------------------------------------------------------------ components
def closure_of(c, F, m, n):
    """conn[u][v] formula: vertices u, v (numbers) in the same component of the edge graph of F"""
    share = [[c.or_(*[F[i, a] == F[j, b] for a in range(3) for b in range(3)]) for j in range(m)] for i in range(m)]
    for k in range(m):
        share = [[c.or_(share[i][j], c.and_(share[i][k], share[k][j])) for j in range(m)] for i in range(m)]
    inf = [[c.or_(*[F[i, a] == v for a in range(3)]) for i in range(m)] for v in range(n)]
    return [[c.or_(c.b(u == v), *[c.and_(inf[u][i], share[i][j], inf[v][j]) for i in range(m) for j in range(m)]) for v in range(n)] for u in range(n)], share


def comp_spec(c, F, m):
    C, CF = c.g.connected_components(F, return_face_indices=True)
    C1 = c.g.connected_components(F)
    n = C.shape[0]
    c.check(c.and_(*[F[i, a] < n for i in range(m) for a in range(3)]), 'every referenced vertex has a component')
    c.check(c.or_(*[F[i, a] == n - 1 for i in range(m) for a in range(3)]), 'the last vertex is the last one referenced')
    c.check(c.eq(C, C1), 'the vertex components do not depend on the flag')
    conn, share = closure_of(c, F, m, n)
    c.check(c.and_(*[c.iff(C[u] == C[v], conn[u][v]) for u in range(n) for v in range(u)]), 'two vertices share a component exactly when an edge path joins them')
    c.check(c.b(CF.shape[0] == m), 'one component per face')
    c.check(c.and_(*[c.iff(CF[i] == CF[j], share[i][j]) for i in range(m) for j in range(i)]), 'two faces share a component exactly when a face path joins them')
    c.check(c.and_(*[c.implies(F[i, a] == v, C[v] == CF[i]) for i in range(m) for a in range(3) for v in range(n)]), 'a face has the component of its vertices')
    A = c.mat(c.g.adjacency_matrix(F))
    c.check(c.b(A.shape == (n, n)), 'adjacency matrix has one row per vertex')
    for u in range(n):
        for v in range(n):
            adj = c.or_(*[c.and_(F[i, a] == u, F[i, b] == v) for i in range(m) for a in range(3) for b in range(3) if a != b])
            c.check(c.and_(c.implies(adj, A[u, v] == 1), c.or_(adj, c.b(A[u, v] == 0))), 'adjacency entries are 1 exactly for the end points of an edge')


@H('T05', 'm triangles with distinct corners, labels in 0..hi', budget=200,
   quick=[dict(m=1, hi=4), dict(m=2, hi=4, half=True)], thorough=[dict(m=1, hi=6), dict(m=2, hi=5), dict(m=3, hi=4, half=True)])
def components(c, m, hi, half=False):
    F = any_faces(c, m, 3, hi=hi)
    if half:
        for i in range(m):
            c.assume(F[i, 0] < F[i, 1])
            c.assume(F[i, 0] < F[i, 2])
    comp_spec(c, F, m)


@H('T05', 'fixed abstract complexes under every injective labelling', budget=200,
   quick=[dict(name='two', half=True), dict(name='two', spread=3, order=1), dict(name='three', order=2, spread=1), dict(name='two22', order=3), dict(name='grid33', order=2), dict(name='octa', order=5), dict(name='book33', order=2)], thorough=[dict(name='two'), dict(name='three', order=4, spread=2), dict(name='two22', order=5, spread=1), dict(name='grid33', order=4, spread=1), dict(name='bowtie', spread=1), dict(name='strip3', spread=1)])
def components_complex(c, name, half=False, **kw):
    F, n = labelled(c, name, **kw)
    if half:
        for i in range(F.shape[0]):
            c.assume(F[i, 0] < F[i, 1])
            c.assume(F[i, 1] < F[i, 2])
    if n > 6:
        F = c.array([[c.concretize(F[i, k]) for k in range(3)] for i in range(F.shape[0])])
    comp_spec(c, F, F.shape[0])


@H('T05', 'm arbitrary segments among n vertices', budget=60, quick=[dict(m=2, n=4)], thorough=[dict(m=3, n=4), dict(m=2, n=6)])
def segment_adjacency(c, m, n):
    E = any_faces(c, m, 2, 0, n - 1, name='E')
    A = c.mat(c.g.adjacency_matrix(E))
    k = A.shape[0]
    c.check(c.and_(*[c.and_(E[i, 0] < k, E[i, 1] < k) for i in range(m)], c.or_(*[E[i, a] == k - 1 for i in range(m) for a in range(2)])), 'adjacency matrix has one row per vertex')
    for u in range(k):
        for v in range(k):
            adj = c.or_(*[c.and_(E[i, a] == u, E[i, 1 - a] == v) for i in range(m) for a in range(2)])
            c.check(c.and_(c.implies(adj, A[u, v] >= 1), c.or_(adj, c.b(A[u, v] == 0))), 'adjacency entries are nonzero exactly for the end points of an edge')


@H('T05', 'closed and open polylines with n vertices', quick=[dict(n=k) for k in (2, 3, 4, 5)])
def polyline_edges(c, n):
    for closed in (False, True):
        E = c.g.edge_indices(n, closed=closed)
        want = [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if closed else [])
        c.check(c.eq(E, c.array(want)), 'polyline edges join consecutive vertices')
        A = c.mat(c.g.adjacency_matrix(c.array(want)))
        c.check(c.b(A.shape == (n, n)), 'shape')


# ------------------------------------------------------------------------------------------------ cleaning
@H('T06', 'V with nv arbitrary points in the plane, m x k index list with entries in -1..nv-1', budget=120,
   quick=[dict(nv=3, m=1, k=3), dict(nv=3, m=2, k=2), dict(nv=4, m=2, k=2, neg=False)],
   thorough=[dict(nv=4, m=2, k=3), dict(nv=5, m=1, k=4), dict(nv=3, m=2, k=2), dict(nv=3, m=3, k=2)])
def unreferenced(c, nv, m, k, neg=True):
    V = c.reals('V', nv, 2)
    F = c.ints('F', (m, k), -1 if neg else 0, nv - 1)
    c.assume(c.or_(*[F[i, j] >= 0 for i in range(m) for j in range(k)]))
    V2, F2, I, J = c.g.remove_unreferenced(V, F, return_maps=True)
    V3, F3 = c.g.remove_unreferenced(V, F)
    n2 = V2.shape[0]
    c.check(c.and_(c.eq(V2, V3), c.eq(F2, F3)), 'the mesh does not depend on the flag')
    c.check(c.b(F2.shape == (m, k)), 'the index list keeps its shape')
    fl = [(F[i, j], F2[i, j]) for i in range(m) for j in range(k)]
    c.check(c.and_(*[c.iff(a == -1, b == -1) for a, b in fl]), 'missing vertices stay missing')
    c.check(c.and_(*[c.and_(b >= -1, b < n2) for a, b in fl]), 'new indices are in range')
    for a, b in fl:
        for u in range(nv):
            for w in range(n2):
                c.check(c.implies(c.and_(a == u, b == w), c.and_(c.eq(V2[w, 0], V[u, 0]), c.eq(V2[w, 1], V[u, 1]))), 'every face keeps its vertex positions')
    c.check(c.and_(*[c.or_(*[b == w for a, b in fl]) for w in range(n2)]), 'no unreferenced vertex remains')
    c.check(c.b(J.shape[0] == n2), 'J has one entry per new vertex')
    c.check(c.and_(*[c.implies(J[w] == u, c.eq([V2[w, 0], V2[w, 1]], [V[u, 0], V[u, 1]])) for w in range(n2) for u in range(nv)]), 'V[J] is the new vertex list')
    c.check(c.and_(*[c.and_(J[w] >= 0, J[w] < nv) for w in range(n2)]), 'J indexes the old vertices')
    c.check(c.and_(*[J[w] != J[u] for w in range(n2) for u in range(w)]), 'no old vertex is kept twice')
    c.check(c.eq(I[F], F2), 'I[F] is the new index list')
    W, F4 = c.g.remove_unreferenced(None, F)
    c.check(c.and_(c.b(W is None), c.eq(F4, F2)), 'without vertices the same index list is produced')


@H('T06', 'nv arbitrary points in d dimensions; tolerance 0 or an arbitrary positive tolerance', budget=120, cfg={'abs': 'fork'},
   quick=[dict(nv=3, d=1, eps=False), dict(nv=2, d=2, eps=False), dict(nv=2, d=1, eps=True), dict(nv=3, d=1, eps=True), dict(nv=2, d=2, eps=True)],
   thorough=[dict(nv=3, d=2, eps=False), dict(nv=4, d=1, eps=False), dict(nv=3, d=3, eps=False), dict(nv=2, d=2, eps=True), dict(nv=3, d=2, eps=True)])
def duplicates(c, nv, d, eps):
    V = c.reals('V', nv, d)
    F = c.array([[i % nv, (i + 1) % nv] for i in range(nv)])
    if eps:
        e = c.frac(1, 4)
        e = float(e)
        SV, SVI, SVJ, SF = c.g.remove_duplicate_vertices(V, epsilon=e, faces=F)
    else:
        SV, SVI, SVJ, SF = c.g.remove_duplicate_vertices(V, faces=F)
        e = 0
    n2 = SV.shape[0]
    c.check(c.b(len(c.items(SVI)) == n2 and len(c.items(SVJ)) == nv), 'map sizes')
    SVI, SVJ = c.items(SVI), c.items(SVJ)
    I = [c.concretize(x) for x in SVI]
    J = [c.concretize(x) for x in SVJ]
    c.check(c.b(all(0 <= i < nv for i in I) and all(0 <= j < n2 for j in J)), 'maps are in range')
    for w in range(n2):
        c.check(c.eq(row(SV, w), row(V, I[w])), 'SV = V[SVI]')
        c.check(c.b(J[I[w]] == w), 'a kept vertex represents itself')
    for i in range(nv):
        for k in range(d):
            x = SV[J[i], k] - V[i, k]
            c.check(c.and_(c.le(x, e), c.le(-x, e)), 'V = SV[SVJ] up to the tolerance')
    for i in range(nv):
        for j in range(i):
            c.check(c.implies(c.eq(row(V, i), row(V, j)), c.b(J[i] == J[j])), 'equal points are merged')
    if eps:
        # any cell of the rounding grid: points strictly inside the same cell are one vertex
        q = [c.concrete_int('cell%d' % k, -1, 2) for k in range(d)]
        ins = [c.and_(*[c.and_(c.lt(V[i, k] - q[k] * e, e / 2), c.lt(q[k] * e - V[i, k], e / 2)) for k in range(d)]) for i in range(nv)]
        for i in range(nv):
            for j in range(i):
                c.check(c.implies(c.and_(ins[i], ins[j]), c.b(J[i] == J[j])), 'points strictly inside the same cell of the rounding grid are merged')
    if not eps:
        for a in range(n2):
            for b in range(a):
                c.check(c.not_(c.eq(row(SV, a), row(SV, b))), 'no duplicates remain')
    for i in range(F.shape[0]):
        for k in range(2):
            c.check(c.b(c.concretize(SF[i, k]) == J[int(c.concretize(F[i, k]))]), 'faces are re-indexed')


@H('T06', 'arbitrary integer arrays A (a entries or a x k) and B', budget=150,
   quick=[dict(a=2, b=2), dict(a=1, b=3), dict(a=2, b=2, k=2, axis=0), dict(a=2, b=1, k=2, axis=1)],
   thorough=[dict(a=3, b=3), dict(a=2, b=4), dict(a=2, b=2, k=2, axis=0), dict(a=2, b=3, k=2, axis=0), dict(a=2, b=2, k=2, axis=-1)])
def correspondence(c, a, b, k=None, axis=None):
    shp = (lambda n: (n,)) if k is None else ((lambda n: (n, k)) if axis in (0, -2) else (lambda n: (k, n)))
    A = c.ints('A', shp(a))
    B = c.ints('B', shp(b))
    f = c.items(c.g.array_correspondence(A, B, axis=axis))
    c.check(c.b(len(f) == a), 'one entry per element of A')

    def el(X, i):
        return [X[i]] if k is None else ([X[i, j] for j in range(k)] if axis in (0, -2) else [X[j, i] for j in range(k)])
    for i in range(a):
        eqs = [c.and_(*[x == y for x, y in zip(el(A, i), el(B, j))]) for j in range(b)]
        c.check(c.and_(f[i] >= -1, f[i] < b), 'indices are in range or -1')
        c.check(c.and_(*[c.implies(f[i] == j, eqs[j]) for j in range(b)]), 'a match is an equal element')
        c.check(c.iff(f[i] == -1, c.not_(c.or_(*eqs))), '-1 exactly when there is no equal element')


# ------------------------------------------------------------------------------------------------ cutting
@H('T07', 'fixed complexes under every injective labelling, every cut set of nc arbitrary index pairs', budget=200,
   quick=[dict(name='diamond', nc=1), dict(name='diamond', nc=2, sub=True), dict(name='fan3', nc=2, sub=True, lab=False), dict(name='disk3', nc=2, sub=True, lab=False), dict(name='tet', nc=3, sub=True, lab=False), dict(name='annulus6', nc=2, sub=True, lab=False)],
   thorough=[dict(name='diamond', nc=2), dict(name='fan3', nc=2, sub=True), dict(name='disk3', nc=2, sub=True), dict(name='disk3', nc=3, sub=True, lab=False), dict(name='tet', nc=3, sub=True, lab=False), dict(name='grid33', nc=3, sub=True, lab=False), dict(name='octa', nc=3, sub=True, lab=False), dict(name='octa', nc=4, sub=True, lab=False)])
def cutting(c, name, nc, sub=False, lab=True):
    if lab:
        F, n = labelled(c, name)
    else:
        F = c.array(COMPLEXES[name])
        n = 1 + max(max(f) for f in COMPLEXES[name])
    m = F.shape[0]
    if sub:
        # cut edges are edges of the mesh
        E = []
        fs = COMPLEXES[name]
        es = sorted(set(tuple(sorted((f[k], f[(k + 1) % 3]))) for f in fs for k in range(3)))
        pos = {}
        for i, f in enumerate(fs):
            for k, v in enumerate(f):
                pos[v] = F[i, k]
        prev = 0
        for e in range(nc):
            w = c.concrete_int('w%d' % e, prev, len(es) - 1)
            prev = w
            E.append([pos[es[w][0]], pos[es[w][1]]])
        E = c.array(E)
    else:
        E = c.ints('E', (nc, 2), 0, n - 1)
        for i in range(nc):
            c.assume(E[i, 0] != E[i, 1])
    G, I = c.g.cut_edges(F, E)
    cut_spec(c, F, E, G, I, m, n)


def cut_spec(c, F, E, G, I, m, n):
    nc = E.shape[0]
    I = c.items(I)
    c.check(c.b(G.shape == (m, 3)), 'as many faces as before')
    g = [[c.concretize(G[i, k]) for k in range(3)] for i in range(m)]
    c.check(c.b(all(0 <= v < len(I) for r in g for v in r)), 'new indices are in range')
    for i in range(m):
        for k in range(3):
            if 0 <= g[i][k] < len(I):
                c.check(c.eq(I[g[i][k]], F[i, k]), 'I[G] is F: the cut mesh has the same geometry')
    c.check(c.b(sorted(set(v for r in g for v in r)) == list(range(len(I)))), 'no unreferenced vertex is created')
    # corners of a vertex stay together exactly when uncut edges at that vertex join their faces
    corners = [(i, k) for i in range(m) for k in range(3)]
    cutp = {}

    def is_cut(u, v):
        return c.or_(*[same_edge(c, (u, v), (E[e, 0], E[e, 1])) for e in range(nc)])
    N = len(corners)
    R = [[c.FALSE] * N for _ in range(N)]
    for a, (i, k) in enumerate(corners):
        for b, (j, l) in enumerate(corners):
            if a == b:
                R[a][b] = c.TRUE
                continue
            if i == j:
                continue
            v = F[i, k]
            js = []
            for s in (1, 2):
                for t in (1, 2):
                    w = F[i, (k + s) % 3]
                    js.append(c.and_(w == F[j, (l + t) % 3], c.not_(is_cut(v, w))))
            R[a][b] = c.and_(v == F[j, l], c.or_(*js))
    R = [[c.decide(x) for x in r] for r in R]
    for k in range(N):
        R = [[R[i][j] or (R[i][k] and R[k][j]) for j in range(N)] for i in range(N)]
    for a, (i, k) in enumerate(corners):
        for b, (j, l) in enumerate(corners):
            if b < a:
                c.check(c.b((g[i][k] == g[j][l]) == R[a][b]), 'corners share a new vertex exactly when uncut edges at their common vertex join them')


@H('T07', 'no edges to cut', quick=[dict(name='diamond')], budget=60)
def cutting_nothing(c, name):
    F, n = labelled(c, name)
    E = c.np.zeros((0, 2), dtype=int)
    G, I = c.g.cut_edges(F, E)
    cut_spec(c, F, E, G, I, F.shape[0], n)
