import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


F = np.array([[2,1,0],[3,1,2]])
for f in (F, np.array([[4,1,0],[1,4,3]])):
    loops = g.boundary_loops(f)
    assert len(loops)==1
    be = set(tuple(int(x) for x in e) for e in g.boundary_edges(f))
    l = [int(x) for x in loops[0]]
    got = set((l[i],l[(i+1)%len(l)]) for i in range(len(l)))
    assert got == be, (got, be)
