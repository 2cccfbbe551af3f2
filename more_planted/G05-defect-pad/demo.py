import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0,0,1],[1,0,0],[-1,1,0],[-1,-1,0.]])
F = np.array([[0,1,2],[0,2,3],[0,3,1]])
assert abs(g.angle_defect(V,F)[0]-(2*np.pi-3*np.arccos(np.dot(V[1]-V[0],V[2]-V[0])/np.linalg.norm(V[1]-V[0])/np.linalg.norm(V[2]-V[0]))))<1 and g.angle_defect(V,F)[0] > 1e-3
