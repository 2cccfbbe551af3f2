import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0.,0],[1,0],[2,0],[3,0],[4,0]])
E = g.edge_indices(5, closed=False)
P = np.array([[0.2,1.]])
a = g.squared_distance(P, V, F=E, use_aabb=True)
V[:] = V[::-1].copy()
V[:,1] = np.array([0.,5,0,5,0])
b = g.squared_distance(P, V, F=E, use_aabb=True)
c = g.squared_distance(P, V, F=E)
assert np.allclose(b[0], c[0]), (b, c)
