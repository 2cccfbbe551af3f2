import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


v1 = np.array([[0.,0],[1,0]]); f1 = np.array([[0,1]])
v2 = np.array([[0.,0],[.5,0],[1,0],[1,.1],[1,.2],[5,0]]); f2 = np.array([[k,k+1] for k in range(5)])
assert abs(g.approximate_hausdorff_distance(v1,f1,v2,f2,use_cpp=False)-4) < 1e-9
