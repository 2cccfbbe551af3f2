import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


C,W,CH,PAR,D,A = g.initialize_quadtree(np.array([[.1,.1],[.12,.13]]),graded=True,max_depth=4,min_depth=2,vmin=np.array([-1.,-1]),vmax=np.array([1.,1]))
for p in ([1.,1.],[.3,1.],[1.,-.4],[0.,0.],[.5,.5]):
    i,o = g.in_quadtree(np.array(p),C,W,CH)
    assert i>=0 and CH[i,1]==-1 and (np.abs(C[i]-p)<=W[i]/2+1e-12).all(), (p,i)
