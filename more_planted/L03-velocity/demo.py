import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0., 0.], [1., 0.], [0., 1.], [1., 1.]])
F = np.array([[0, 1, 2], [1, 3, 2]])
U, _ = g.linear_elasticity(V, F, 0 * V, dt=.01, Ud0=np.tile([[1., -2.]], (4, 1)))
# moving as a whole
assert np.allclose(np.reshape(U, (-1, 2), order='F'), [[.01, -.02]] * 4), U
