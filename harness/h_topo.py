from sym.harness import H
from harness.topo import *


def edge_spec(c, F, m):
    g = c.g
    he = [h for r in halfedges_of(F, m) for h in r]
    H_ = g.halfedges(F)
    c.check(c.b(H_.shape == (m, 3, 2)), 'one half-edge per face corner')
    for i, r in enumerate(halfedges_of(F, m)):
        for k, h in enumerate(r):
            c.check(c.and_(H_[i, k, 0] == h[0], H_[i, k, 1] == h[1]), 'half-edge k joins the other two corners in face order')
    E, bi, ii, ni = g.edges(F, return_boundary_indices=True, return_interior_indices=True, return_nonmanifold_indices=True)
    E0 = g.edges(F)
    c.check(c.eq(E, E0), 'the edge list does not depend on the index flags')
    ne = E.shape[0]
    rows = [row(E, i) for i in range(ne)]
    c.check(c.and_(*[c.or_(*[same_edge(c, r, h) for h in he]) for r in rows]), 'every listed edge is an edge of some face')
    c.check(c.and_(*[c.or_(*[same_edge(c, r, h) for r in rows]) for h in he]), 'every edge of every face is listed')
    c.check(c.and_(*[c.not_(same_edge(c, rows[i], rows[j])) for i in range(ne) for j in range(i)]), 'no edge is listed twice')
    cnt = [count(c, [same_edge(c, r, h) for h in he]) for r in rows]

    def flagged(idx, cond, label):
        L = [x for x in c.items(idx)]
        c.check(c.and_(*[c.iff(cond(cnt[i]), c.or_(*[x == i for x in L])) for i in range(ne)]), label)
        c.check(c.and_(*[c.and_(x >= 0, x < ne) for x in L]), label)
    flagged(bi, lambda n: n == 1, 'boundary indices are exactly the edges of one face')
    flagged(ii, lambda n: n >= 2, 'interior indices are exactly the edges of two or more faces')
    flagged(ni, lambda n: n >= 3, 'non-manifold indices are exactly the edges of three or more faces')
    c.check(c.and_(*[c.implies(cnt[i] == 1, c.or_(*[c.and_(rows[i][0] == h[0], rows[i][1] == h[1]) for h in he])) for i in range(ne)]), 'boundary edges are oriented as in their face')
    # derived queries
    BE = g.boundary_edges(F)
    nb = BE.shape[0]
    brows = [row(BE, i) for i in range(nb)]
    bcnt = [count(c, [same_edge(c, r, h) for h in he]) for r in brows]
    c.check(c.and_(*[b == 1 for b in bcnt]), 'every boundary edge has one face')
    c.check(c.and_(*[c.implies(cnt[i] == 1, c.or_(*[same_edge(c, rows[i], b) for b in brows])) for i in range(ne)]), 'every edge with one face is a boundary edge')
    c.check(c.and_(*[c.not_(same_edge(c, brows[i], brows[j])) for i in range(nb) for j in range(i)]), 'no boundary edge is listed twice')
    BV = c.items(g.boundary_vertices(F))
    c.check(c.and_(*[BV[i] < BV[i + 1] for i in range(len(BV) - 1)]), 'boundary vertices are sorted and distinct')
    c.check(c.and_(*[c.or_(*[v == x for r in brows for x in r]) for v in BV]), 'boundary vertices lie on boundary edges')
    c.check(c.and_(*[c.or_(*[v == x for v in BV]) for r in brows for x in r]), 'ends of boundary edges are boundary vertices')
    NM = g.non_manifold_edges(F)
    nr = [row(NM, i) for i in range(NM.shape[0])]
    c.check(c.and_(*[c.iff(cnt[i] >= 3, c.or_(*[same_edge(c, rows[i], r) for r in nr])) for i in range(ne)]), 'non-manifold edges are exactly those of three or more faces')
    c.check(c.and_(*[c.or_(*[same_edge(c, r, e) for e in rows]) for r in nr]), 'non-manifold edges are edges')
    return E, rows, cnt, he


@H('T01', 'm arbitrary triangles with distinct corners, vertex labels in 0..hi (unbounded if hi is not given)', budget=200,
   quick=[dict(m=1), dict(m=2, hi=3)], thorough=[dict(m=1), dict(m=2), dict(m=3, hi=3)])
def edges_any(c, m, hi=None):
    F = any_faces(c, m, 3, hi=hi)
    edge_spec(c, F, m)


@H('T01', 'fixed abstract complexes under every injective labelling (and every flip / rotation of faces where stated)', budget=150, name='edges_complex',
   quick=[dict(name='book3'), dict(name='book4', order=5, spread=10**6), dict(name='book33', order=3, spread=10**6), dict(name='tet'), dict(name='two', spread=10**6, order=5), dict(name='strip3', spread=10**6, order=2), dict(name='bowtie', spread=10**6, order=3), dict(name='octa', order=5, spread=10**6), dict(name='grid33', order=2, spread=10**6), dict(name='book5', order=3, spread=10**6), dict(name='moebius5', order=2, spread=10**6), dict(name='two22', order=5, spread=10**6)],
   thorough=[dict(name='book3', flip=True), dict(name='book4', flip=True, order=1, spread=10**6), dict(name='book33', order=2, spread=10**6), dict(name='tet', flip=True), dict(name='disk3', rot=True), dict(name='strip3', spread=1), dict(name='annulus6'), dict(name='moebius5')])
def edges_complex(c, name, **kw):
    F, n = labelled(c, name, **kw)
    edge_spec(c, F, F.shape[0])


