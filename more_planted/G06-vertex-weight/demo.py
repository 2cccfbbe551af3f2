import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,0],[1e-4,0,0],[0,1e-4,0],[1e-4,0,5e-3],[0,0,5e-3]])
F = np.array([[0,1,2],[0,4,1],[1,4,3]])
N = g.per_vertex_normals(V,F)
n = g.per_face_normals(V,F,unit_norm=False)
w = n[0]+n[1]
assert np.allclose(N[0], w/np.linalg.norm(w)), (N[0], w)
