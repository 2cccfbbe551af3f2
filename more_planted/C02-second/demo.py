import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


P = np.array([[0.,0],[1,2],[3,1],[4,5]])
X = g.catmull_rom_spline(np.array([.75-1e-9,.75+1e-9]),P)
assert np.allclose(X[0],X[1],atol=1e-6), X
