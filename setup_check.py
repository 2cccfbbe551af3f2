"""nothing to build: checks that the solver and the encoder load offline"""
import env
env.setup()
import z3
from sym import loader, driver
import gpytoolbox
s = z3.Solver()
x = z3.Real('x')
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print('z3', z3.get_version_string(), 'ok; repo at', env.REPO)
