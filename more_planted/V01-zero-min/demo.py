import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


C = np.array([[0,0,0],[10,20,30],[200,100,255]])
c = g.apply_colormap(C, np.array([1.,2.]), min=0, max=2)
assert (c[0]==C[1]).all() and (c[1]==C[2]).all(), c
