import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


P = np.array([[-.55, -.55], [.55, .55]])
N = np.array([[-.6, -.8], [.6, .8]])
k = np.array([8, 8])
h = np.array([.25, .25])
m, _ = g.stochastic_poisson_surface_reconstruction(P, N, gs=k, h=h, corner=np.array([-.875, -.875]))
# the scene is symmetric under half a turn
m = np.asarray(m).reshape(-1)
print(np.abs(m - m[::-1]).max())
assert np.allclose(m, m[::-1], atol=1e-4)
