import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


rng = np.random.default_rng(0)
A = rng.random((3000,3)); A /= A.sum(1)[:,None]
for V in (np.array([[0,0,0],[1,0,0],[2,.5,0.]]), np.array([[0,0,0],[2,.5,0.],[1,0,0]]), np.array([[0,0,0],[.3,.2,0.],[-1,.5,0]]), np.array([[0,0,0],[-1,.5,0.],[.3,.2,0]])):
    pts = A@V
    for p in rng.normal(size=(1500,3))*np.array([3,3,.2])+np.array([1.,0,0]):
        d,l = g.squared_distance_to_element(p,V,np.array([0,1,2]))
        assert d <= ((pts-p)**2).sum(1).min()+1e-9, p
        assert np.min(l) > -1e-9, (p,l)
