import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


import warnings; warnings.simplefilter('ignore')
V = np.array([[1.,0,0],[2.,0,0],[1.+1e-11,0,0]])
SV, I, J = g.remove_duplicate_vertices(V, epsilon=1e-10)
assert SV.shape[0] == 2 and J[0] == J[2] != J[1], (SV, J)
