"""I01 mesh files"""
import os
import shutil
import struct
import tempfile
from sym.harness import H

CFG = {'div0': 'fork', 'check_timeout': 20}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_io_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def same(c, A, B, what):
    c.tol = 0       # the text of a number determines it
    c.check(c.b(A is not None and tuple(A.shape) == tuple(B.shape)), what)
    for x, y in zip(c.items(A), c.items(B)):
        c.check(c.eq(x, y), what)


def minus(c, A, m, what):
    c.check(c.b(tuple(A.shape) == (m, 3)), what)
    for x in c.items(A):
        c.check(c.eq(x, -1), what)


@H('I01', 'up to 3 vertices with any coordinates in 2 or 3 dimensions and up to 2 faces with any indices; texture coordinates and normals with or without their own indices, in every combination, format given or guessed', cfg=CFG,
   quick=[dict(n=3, m=1, d=3), dict(n=1, m=2, d=3), dict(n=2, m=1, d=2)], thorough=[dict(n=n, m=m, d=d) for n in (1, 2, 3, 4) for m in (1, 2, 3) for d in (2, 3)])
def obj(c, n, m, d):
    V = c.reals('V', n, d)
    F = c.ints('F', (m, 3), 0, n - 1)
    kw = {}
    uv = c.concrete_int('uv', 0, 3)      # none, with indices, one per vertex, another number without indices
    nn = c.concrete_int('n', 0, 3)
    for k, (a, ix, cols, name) in {0: ('UV', 'Ft', 2, 'uv'), 1: ('N', 'Fn', 3, 'n')}.items():
        opt = (uv, nn)[k]
        rows = {0: 0, 1: 2, 2: n, 3: n + 1}[opt]
        if rows:
            kw[a] = c.reals(a, rows, cols)
        if opt == 1:
            kw[ix] = c.ints(ix, (m, 3), 0, rows - 1)
    keep = {k: c.items(v) for k, v in dict(kw, V=V, F=F).items()}
    name = ['x.obj', 'x.OBJ', 'x.txt'][c.concrete_int('name', 0, 2)]
    fmt = {'fmt': ['obj', '.obj'][c.concrete_int('dot', 0, 1)]} if name == 'x.txt' else {}
    want_uv, want_n = c.concrete_int('want_uv', 0, 1), c.concrete_int('want_n', 0, 1)
    if uv == 0 and nn == 0 and not (want_uv and want_n):
        return
    with Scratch() as s:
        p = os.path.join(s, name)
        py = {'writer': 'Python'} if c.concrete_int('writer', 0, 1) else {}
        c.g.write_mesh(p, V, F, **kw, **fmt, **py)
        out = c.g.read_mesh(p, return_UV=bool(want_uv), return_N=bool(want_n), **fmt)
    for k, v in dict(kw, V=V, F=F).items():
        for x, y in zip(keep[k], c.items(v)):
            c.check(c.eq(x, y), 'the arrays written are unchanged')
    c.check(c.b(len(out) == 2 + 2 * want_uv + 2 * want_n), 'what was asked for is returned')
    same(c, out[0], V, 'the vertices are read back')
    same(c, out[1], F, 'the faces are read back')
    k = 2
    for wanted, opt, a, ix in ((want_uv, uv, 'UV', 'Ft'), (want_n, nn, 'N', 'Fn')):
        if not wanted:
            continue
        X, I = out[k], out[k + 1]
        k += 2
        what = 'texture coordinates' if a == 'UV' else 'normals'
        if opt:
            same(c, X, kw[a], 'the %s are read back' % what)
        else:
            c.check(c.b(X is None), 'no %s are made up' % what)
        if opt == 1:
            same(c, I, kw[ix], 'the indices of the %s are read back' % what)
        elif opt == 2:
            same(c, I, F, 'the indices of the %s are those of the vertices' % what)
        else:
            minus(c, I, m, 'corners without %s are marked' % what)


def text(c, x):
    """the number as it is written in a file"""
    return repr(float(x)) if isinstance(x, float) else str(x)


@H('I01', 'a file of 3 vertices and 2 faces with any numbers, every style of index at every corner, blank space, comments, other records and line ends in it', cfg=CFG,
   quick=[dict(part=0), dict(part=1)], thorough=[dict(part=0), dict(part=1), dict(part=2)])
def by_hand(c, part):
    n = 3
    V, T, N = c.reals('V', n, 3), c.reals('T', 2, 2), c.reals('N', 2, 3)
    F, Ft, Fn = c.ints('F', (2, 3), 0, n - 1), c.ints('Ft', (2, 3), 0, 1), c.ints('Fn', (2, 3), 0, 1)
    styles = [[0] * 3, [0] * 3]
    if part == 0:
        for k in range(3):
            styles[0][k] = c.concrete_int('style%d' % k, 0, 4)
        styles[1] = [3, 0, 2]
    else:
        styles = [[0, 1, 2], [3, 4, 0]]
    blank = ' ' if part == 0 else [' ', '  ', ' \t'][c.concrete_int('blank', 0, 2)]
    end = '\n' if part == 0 else ['\n', ' \n', '\r\n', '\n\n'][c.concrete_int('end', 0, 3)]
    order = 0 if part == 0 else c.concrete_int('order', 0, 2)
    extra = [] if part == 0 else [['# a "comment'], ['#comment'], ['g group', 's off', 'o name', 'usemtl x', 'mtllib a.mtl', 'vp 0.1 0.2'], ['#', '']][c.concrete_int('extra', 0, 3)]

    def corner(i, k):
        f, t, q = text(c, F[i, k] + 1), text(c, Ft[i, k] + 1), text(c, Fn[i, k] + 1)
        return [f, f + '/' + t, f + '//' + q, f + '/' + t + '/' + q, f + '//'][styles[i][k]]
    vs = [blank.join(['v'] + [text(c, x) for x in V[i].tolist()]) for i in range(n)]
    ts = [blank.join(['vt'] + [text(c, x) for x in T[i].tolist()]) for i in range(2)]
    ns = [blank.join(['vn'] + [text(c, x) for x in N[i].tolist()]) for i in range(2)]
    fs = [blank.join(['f'] + [corner(i, k) for k in range(3)]) for i in range(2)]
    lines = [vs + ts + ns + fs, ns + ts + vs + fs, [vs[0], ts[0], ns[0]] + vs[1:] + [fs[0]] + ts[1:] + ns[1:] + [fs[1]]][order]
    lines = extra[:1] + lines[:4] + extra[1:] + lines[4:]
    if part and c.concrete_int('last', 0, 1):
        whole = end.join(lines)
    else:
        whole = ''.join(l + end for l in lines)
    with Scratch() as s:
        p = os.path.join(s, 'm.obj')
        with open(p, 'w', newline='') as f:
            f.write(whole)
        V2, F2, T2, Ft2, N2, Fn2 = c.g.read_mesh(p, return_UV=True, return_N=True)
    same(c, V2, V, 'the vertices are read')
    same(c, T2, T, 'the texture coordinates are read')
    same(c, N2, N, 'the normals are read')
    same(c, F2, F, 'the faces are read')
    for i in range(2):
        for k in range(3):
            st = styles[i][k]
            c.check(c.eq(Ft2[i, k], Ft[i, k] if st in (1, 3) else -1), 'texture indices are read where present')
            c.check(c.eq(Fn2[i, k], Fn[i, k] if st in (2, 3) else -1), 'normal indices are read where present')


class Struct:
    """stands in for the struct module: eight bytes are a number"""

    def __init__(self, c):
        self.c = c

    def unpack(self, fmt, b):
        if fmt not in ('<d', 'd', '=d') or len(b) != 8:
            raise struct.error('unpack requires a buffer of 8 bytes')
        return (self.c.np.array(b.decode('ascii').strip()).astype(float)[()],)


@H('I01', 'matrices of up to 3 by 3 with any entries, binary or written in every style', cfg=CFG,
   quick=[dict(n=2, m=3), dict(n=3, m=1), dict(n=1, m=2)], thorough=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3)])
def dmat(c, n, m):
    A = c.reals('A', n, m)
    binary = c.concrete_int('binary', 0, 1)
    vals = [A[i, j] for j in range(m) for i in range(n)]
    symbolic = not isinstance(c.np.zeros(1).tolist()[0], float)
    env = c.g.read_dmat.__globals__
    old = env.get('struct')
    with Scratch() as s:
        p = os.path.join(s, 'a.dmat')
        with open(p, 'wb') as f:
            if binary:
                f.write(b'0 0\n%d %d\n' % (m, n))
                for x in vals:
                    f.write(text(c, x).encode('ascii').ljust(8) if symbolic else struct.pack('<d', x))
            else:
                f.write(b'%d %d\n' % (m, n))
                sep = [b'\n', b' ', b'\r\n'][c.concrete_int('separator', 0, 2)]
                f.write(sep.join(text(c, x).encode('ascii') for x in vals))
                if c.concrete_int('last', 0, 1):
                    f.write(sep)
        if binary and symbolic:
            env['struct'] = Struct(c)
        try:
            B = c.g.read_dmat(p)
        finally:
            env['struct'] = old
    same(c, B, A, 'the matrix is read')
