import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,0],[4,0,0],[1,.5,0]])
F = np.array([[0,1,2]])
L = g.cotangent_laplacian(V,F).toarray()
assert np.allclose(L.sum(axis=1),0), L
