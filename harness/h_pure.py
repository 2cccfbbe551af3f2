"""U01 calls leave the arrays they are given as they were"""
import importlib
from sym import harness
from sym.harness import H

for m in ('h_topo', 'h_topo2', 'h_subdiv', 'h_geom', 'h_geom2', 'h_dist', 'h_tree', 'h_ray', 'h_quad', 'h_grid', 'h_gen', 'h_solve', 'h_kern', 'h_io', 'h_misc', 'h_wind'):
    importlib.import_module('harness.' + m)


def arrays(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from arrays(y)
    elif getattr(x, 'shape', ()) and not callable(x):
        yield x


class Call:
    """a function of the library that compares the arrays it is given before and after the call"""

    def __init__(self, c, f):
        self.__dict__.update(_c=c, _f=f)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __call__(self, *a, **k):
        c = self._c
        old = [(x, tuple(x.shape), c.items(x)) for x in arrays([a, k])]
        r = self._f(*a, **k)
        for x, sh, was in old:
            now = c.items(x)
            ok = tuple(x.shape) == sh and len(now) == len(was)
            new = [c.eq(p, q) for p, q in zip(now, was) if p is not q] if ok else [c.b(False)]
            c.check(c.and_(*new) if new else c.b(True), 'an array given to a call is as it was')
        return r


class Lib:
    def __init__(self, c, g, how=Call):
        self.__dict__.update(_c=c, _g=g, _how=how)

    def __getattr__(self, n):
        f = getattr(self._g, n)
        return self._how(self._c, f) if callable(f) and not isinstance(f, type) else f


class Watch:
    """the context of a harness of another property, without its checks"""

    def __init__(self, c):
        self.__dict__.update(_c=c, g=Lib(c, c.g))

    def __getattr__(self, n):
        return getattr(self._c, n)

    def check(self, *a, **k):
        pass


def make(prop, name, v):
    h = harness.REG[prop, name]

    def f(c):
        h.fn(Watch(c), **v)
    f.__name__ = '%s_%s' % (prop, name)
    cfg = dict(h.cfg or {})
    H('U01', 'the calls of %s, %s%s: %s' % (prop, name, ' ' + str(v) if v else '', h.bounds), cfg=cfg, budget=60 if (prop, name) not in SLOW else 200, quick=[dict()] if (prop, name) not in SLOW else [], thorough=[dict()])(f)


# ---- U02: what was computed before does not matter
class Again:
    """a function of the library that is called with other coordinates, faces or both in the same arrays first, and what it returned then overwritten"""

    def __init__(self, c, f):
        self.__dict__.update(_c=c, _f=f)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __call__(self, *a, **k):
        c = self._c
        old = [(x, x.copy()) for x in arrays([a, k]) if not hasattr(x, 'tocoo')]
        events = c.events()
        kinds = {x.dtype.kind in 'iub' for x, was in old}
        for change in ({True, False}, {False}) if len(kinds) == 2 else (kinds,):
            try:
                for j, (x, was) in enumerate(old):
                    if (x.dtype.kind in 'iub') in change:
                        x[...] = other(c, x, j)
                for x in arrays([self._f(*a, **k)]):
                    if not hasattr(x, 'tocoo'):
                        x[...] = 0 if x.dtype.kind in 'iub' else c.frac(77, 2)
            except Exception:
                pass
            for x, was in old:
                x[...] = was
        c.events(events)
        return self._f(*a, **k)


def other(c, x, j):
    """the same kind of values: faces turned and in another order, coordinates near one"""
    if x.dtype.kind in 'iub':
        y = x[::-1].copy()
        return c.np.roll(y, 1, axis=1) if len(x.shape) == 2 else y
    n = 1
    for s in x.shape:
        n *= s
    return c.array([c.frac(300 + (37 * i + 11 * j + 5) % 97, 300) for i in range(n)]).reshape(x.shape)


class Later:
    """the context of a harness of another property, with its checks, its calls not the first"""

    def __init__(self, c):
        self.__dict__.update(_c=c, g=Lib(c, c.g, Again))

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __setattr__(self, n, v):
        setattr(self._c, n, v)


def make2(prop, name, v):
    h = harness.REG[prop, name]

    def f(c):
        h.fn(Later(c), **v)
    f.__name__ = '%s_%s' % (prop, name)
    H('U02', '%s, %s%s, after another call of each function: %s' % (prop, name, ' ' + str(v) if v else '', h.bounds), cfg=dict(h.cfg or {}), budget=60, quick=[dict()] if (prop, name) not in SLOW else [], thorough=[dict()])(f)


# harnesses whose calls are given no arrays
NONE = [('M01', None), ('M02', None), ('I01', 'by_hand'), ('I01', 'dmat'), ('V01', 'palette')]
REPEAT = [('A01', None), ('W01', 'signed'), ('L01', 'l1'), ('P01', None), ('D04', 'traverse')]     # random numbers, callbacks and the answers of stand-ins are counted
SLOW = [('G04', 'voronoi_intrinsic'), ('D03', 'unsigned'), ('D03', 'between'), ('D03', 'hausdorff')]
for p, n in [k for k in list(harness.ORDER) if k[0] not in ('U01', 'U02')]:
    if (p, n) not in NONE and (p, None) not in NONE and harness.REG[p, n].quick:
        make(p, n, dict(harness.REG[p, n].quick[0]))
    if (p, n) not in REPEAT and (p, None) not in REPEAT and harness.REG[p, n].quick:
        make2(p, n, dict(harness.REG[p, n].quick[0]))
