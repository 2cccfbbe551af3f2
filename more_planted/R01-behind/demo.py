import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


hit,x = g.ray_box_intersect(np.array([-3.,-2]),np.array([1.,1.2]),np.array([0.,0]),np.array([2.,4]))
assert hit
hit,x = g.ray_box_intersect(np.array([-2.,-3]),np.array([1.2,1.]),np.array([0.,0]),np.array([4.,2]))
assert hit, x
