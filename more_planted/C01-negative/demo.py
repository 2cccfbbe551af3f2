import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


V = np.array([[0., 0.], [1., 0.], [0., 1.]])
Ws = np.array([[1.5, -.5], [2., -1.], [1.25, -.25]])
R = [np.array([[0., -1.], [1., 0.]]), np.eye(2)]
T = [np.array([1., 2.]), np.array([-3., .5])]
U = g.linear_blend_skinning(V, Ws, R, T)
want = sum(Ws[:, i, None] * (V @ R[i].T + T[i]) for i in range(2))
assert np.allclose(U, want), (U, want)
