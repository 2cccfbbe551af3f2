import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


import tempfile, os
V = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [1., 1., 0.]])
F = np.array([[0, 1, 2], [1, 3, 2]])
UV = V[::-1, :2].copy()
Ft = 3 - F
N = np.array([[0., 0., 1.], [0., 1., 0.], [1., 0., 0.], [0., .6, .8]])
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.obj')
    g.write_mesh(f, V, F, UV=UV, Ft=Ft, N=N, writer='Python')
    r = g.read_mesh(f, return_UV=True, return_N=True, reader='Python')
    assert np.array_equal(r[-1], F), r
