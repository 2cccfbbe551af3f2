import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


F = np.array([[0,1,2],[2,1,3],[2,3,4],[4,3,5]])
G,I = g.cut_edges(F, np.array([[2,1]]))
G2,I2 = g.cut_edges(F, np.array([[1,2]]))
assert I.shape == I2.shape, (I, I2)
