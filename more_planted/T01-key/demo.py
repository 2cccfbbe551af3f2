import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


F = np.array([[0,3,7],[1,2,3]])
E = g.edges(F)
got = set(tuple(sorted(int(x) for x in e)) for e in E)
assert got == {(0,3),(3,7),(0,7),(1,2),(2,3),(1,3)}, got
F = np.array([[0,1,9],[1,4,9]])
got = sorted(tuple(sorted(int(x) for x in e)) for e in g.edges(F))
assert got == [(0,1),(0,9),(1,4),(1,9),(4,9)], got
