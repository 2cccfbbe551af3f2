import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


import scipy.sparse as sp
A = sp.csc_matrix(np.array([[4.,1,0,2],[1,5,1,0],[0,1,6,1],[2,0,1,7]]))
b = np.array([1.,2,3,4]); k = np.array([3,0]); y = np.array([10.,-1.])
u = g.fixed_dof_solve(A,b,k,y)
assert np.allclose(u[k],y), u
r = A@u-b
assert abs(r[1])<1e-9 and abs(r[2])<1e-9
