import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


F = np.array([[7,8,6],[8,1,0]])
for F in (F, np.array([[0,1,9],[1,4,9]]), np.array([[0,7,2],[1,0,9]])):
    TT,TTi = g.triangle_triangle_adjacency(F)
    he = g.halfedges(F)
    for f in range(F.shape[0]):
        for k in range(3):
            want = [(a,b) for a in range(F.shape[0]) for b in range(3) if he[a,b,0]==he[f,k,1] and he[a,b,1]==he[f,k,0]]
            assert (TT[f,k]==-1) == (not want), (f,k,TT)
            if want: assert (TT[f,k],TTi[f,k]) in want, (f,k)
