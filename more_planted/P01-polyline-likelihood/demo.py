import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0.,0],[1,0],[2,0],[3,0]]); E = np.array([[0,1],[1,2],[2,3]])
for t in range(20):
    x,I,u = g.random_points_on_mesh(V,E,2,rng=np.random.default_rng(t),per_element_likelihood=np.array([0.,0,1]),return_indices=True)
    assert (I==2).all(), I
