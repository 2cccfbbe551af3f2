import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


# a saddle cell: b and d are positive, a and c are not
gx,gy = np.meshgrid(np.linspace(0,1,2),np.linspace(0,1,2)); GV = np.stack((gx.ravel(),gy.ravel()),-1)
def segs(S):
    V,E = g.marching_squares(np.array(S,dtype=float),GV,2,2)
    return sorted((tuple(np.round(V[a],6)),tuple(np.round(V[b],6))) for a,b in E)
A = segs([1,-1,-1,2.5]); B = segs([-1,1,1,-2.5])
assert sorted((b,a) for a,b in A) == B, (A,B)
