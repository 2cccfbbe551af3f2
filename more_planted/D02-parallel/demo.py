import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


P1,Q1 = np.array([0,0,0.]),np.array([10.,0,0])
P2,Q2 = np.array([0,-.1,.0]),np.array([10,.1,.0])
d,_,_ = g.edge_edge_distance(P1,Q1,P2,Q2)
assert d < 1e-9, d
