"""cases whose coordinates are integers of an integer type: a result computed in the type of the input would be cut off"""
from sym.harness import REG

CASES = {
    ('S01', 'triangles'): [dict(name='tet', method='upsample'), dict(name='diamond', method='loop')],
    ('S01', 'polyline'): [dict(fix=1)],
    ('T06', 'unreferenced'): [dict(nv=3, m=1, k=3)],
    ('T06', 'duplicates'): [dict(nv=2, d=2, eps=False), dict(nv=2, d=2, eps=True)],
    ('C01', 'skin'): [dict(d=2), dict(d=3)],
    ('C02', 'spline'): [dict(d=1), dict(d=2)],
    ('C03', 'normalize'): [dict(d=1), dict(d=2)],
    ('C03', 'rotation'): [dict(d=2, form='any'), dict(d=3, form='parallel')],
    ('G01', 'laplacian'): [dict(name='tri_x', d=3), dict(name='diamond', d=2)],
    ('G03', 'gradient'): [dict(name='tri_x', d=3), dict(name='diamond_r', d=2)],
    ('G03', 'gradient_segments'): [dict(d=1), dict(d=3)],
    ('G03', 'gradient_intrinsic'): [dict(name='tri_x')],
}
SIZE = 3
done = set()


def extend():
    for k, vs in CASES.items():
        if k in REG and k not in done:
            done.add(k)
            h = REG[k]
            new = [dict(v, whole=SIZE) for v in vs]
            h.quick = h.quick + new
            h.thorough = h.thorough + new
            h.bounds += '; also with arrays of integer type and entries of up to %d' % SIZE
