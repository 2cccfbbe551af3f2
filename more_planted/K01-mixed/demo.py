import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


x, y = np.array([[.1, .3], [.5, -.2]]), np.array([[.4, 0.], [0., .7]])
l = np.array([.5, 2.])
k = g.squared_exponential_kernel(x, y, length=l, derivatives=(0, 1))
one = [g.squared_exponential_kernel(x[i:i + 1], y[i:i + 1], length=l[i:i + 1], derivatives=(0, 1))[0] for i in range(2)]
assert np.allclose(k, one), (k, one)
