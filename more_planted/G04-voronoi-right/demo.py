import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,0],[4,0,0],[1,.5,0],[0,0,1],[9,0,1],[8,2,1],[3,3,2],[3.1,-3,2.2],[3.05,0,2]])
F = np.array([[2,0,1],[3,5,4],[6,8,7]])
M = g.massmatrix(V,F,type='voronoi')
assert np.isclose(M.diagonal().sum(), .5*g.doublearea(V,F).sum())
