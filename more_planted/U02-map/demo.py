import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


F = np.array([[0,1,2],[2,1,3]])
g.halfedge_edge_map(F)
F[1] = [2,0,3]
he, E, h2e, e2h = g.halfedge_edge_map(F)
assert (he[1,0] == [0,3]).all(), he
