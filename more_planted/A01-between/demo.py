import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


m = __import__('importlib').import_module('gpytoolbox.matryoshka')
for most in np.arange(1, 20)/20:
    m._feasible = lambda P, *a, **k: abs(P[0,0]) <= most
    s = m._largest_feasible_scale(np.array([[1.,0,0]]), np.zeros(3), None, None, np.eye(3), np.zeros(3), None, None, None, None, tol=.1)
    assert s <= most, (s, most)
