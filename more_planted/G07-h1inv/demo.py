import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,0],[1,0,0],[0.01,1,0.]])
V2 = np.array([[0,0,0],[1,0,0],[0.5,100,0.]])
F = np.array([[0,1,2]])
h = (g.dec_h1(V2,F)@g.dec_h1inv(V2,F)).toarray()
assert np.allclose(h,np.eye(3)), h
