import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,0],[1,0,0],[0,1,0],[5,5,5.]])
F = np.array([[0,1,2]])
Vu,Fu = g.subdivide(V,F)
a = g.doublearea(Vu,Fu).sum()
assert abs(a-1) < 1e-9, a
