"""Symbolic scalars.

A `Sym` is a rational function over *atoms* with exact rational coefficients.  Atoms are the harness's
symbolic inputs (reals or integers) plus derived quantities (square roots, absolute values, min/max,
uninterpreted transcendental applications, quotients ...), each carrying its defining constraints.
A comparison gives an `SB` (a formula); asking an SB for its truth value forks the exploration: both
branches are kept when the solver says both are possible under the current path condition.
"""
import math
import sys
from fractions import Fraction
import numpy as np
import z3

INF = float('inf')
NAN = float('nan')


# --------------------------------------------------------------------------------------------------
class PathAbort(BaseException):
    """ends the current path silently (infeasible or assumed away)"""


class Unsupported(BaseException):
    """the engine cannot model this operation"""


class BudgetExceeded(BaseException):
    pass


# --------------------------------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'name', 'sort', 'z', 'defs', 'deps', 'nonneg', 'sq', 'key', 'zr', 'shadow', 'nl', 'enc')

    def __init__(self, id, name, sort, key):
        self.id = id
        self.name = name
        self.sort = sort
        self.z = z3.Int(name) if sort == 'i' else z3.Real(name)
        self.zr = z3.ToReal(self.z) if sort == 'i' else self.z
        self.defs = []      # z3 formulas
        self.deps = set()   # atom ids in the defs
        self.nonneg = False
        self.sq = None      # Poly: reduction rule atom**2 -> sq
        self.key = key
        self.shadow = None
        self.enc = None     # a constant: integer bounds of 2**ENCB times its value
        self.nl = key[0] in ('sqrt', 'sqrtg', 'quo')


ATOMS = []
ATOM_BY_KEY = {}


def reset_atoms():
    ATOMS.clear()
    ATOM_BY_KEY.clear()
    Poly._zc.clear()
    _CMPC.clear()
    REL.clear()
    RELF.clear()
    _BND.clear()
    NONNEG.clear()
    SQMASK[0] = 0
    ODDMASK[0] = 0
    ENCMASK[0] = 0


def new_atom(key, name, sort):
    a = ATOM_BY_KEY.get(key)
    if a is not None:
        return a, False
    a = Atom(len(ATOMS), name, sort, key)
    ATOMS.append(a)
    ATOM_BY_KEY[key] = a
    ODDMASK[0] |= 1 << (8 * a.id)
    return a, True


def nl_of(*xs):
    for x in xs:
        if isinstance(x, Poly):
            if x.degree() > 1:
                return True
        elif isinstance(x, Sym):
            if x.den or (x.num is not None and x.num.degree() > 1):
                return True
        elif isinstance(x, SB) and x.nl:
            return True
    return False


def nicefrac(x):
    """the rational a python float literal stands for (1/3. is read as 1/3)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    f = Fraction(x)
    if f.denominator <= 1000:
        return f
    g = f.limit_denominator(1000)
    if float(g) == x:
        return g
    g = f.limit_denominator(1000000)
    if float(g) == x and g.denominator > 1:
        # decimal literals such as 1e-6, 0.0001
        return g
    g = f.limit_denominator(100000)
    if g.denominator > 1 and abs(float(g) - x) <= 2 * math.ulp(x):
        # computed from literals (1.75 - 2/3 * 0.0115): without the rounding
        return g
    if abs(x) < 1 and x != 0:
        # 1e-8 and the like: go through the shortest repr
        g = Fraction(repr(x))
        if g.denominator < 10 ** 30 and len(repr(x)) < 10:
            return g
    return f


_numc = {}


def _znum(c, isint):
    r = _numc.get((c, isint))
    if r is None:
        r = _numc[(c, isint)] = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
    return r


def _znary(mk, args):
    n = len(args)
    a = (z3.Ast * n)()
    for i in range(n):
        a[i] = args[i].as_ast()
    ctx = args[0].ctx
    return z3.ArithRef(mk(ctx.ref(), n, a), ctx)


# --------------------------------------------------------------------------------------------------
def cnorm(c):
    """int if integral, else Fraction"""
    if type(c) is int:
        return c
    if type(c) is Fraction:
        return c.numerator if c.denominator == 1 else c
    return cnorm(Fraction(c))


def cdiv(a, b):
    return cnorm(Fraction(a) / b)


def mono_items(m):
    """[(atom id, exponent)]"""
    return [(i, e) for i, e in enumerate(m.to_bytes((m.bit_length() + 7) // 8, 'little')) if e]


def mono_of(items):
    m = 0
    for a, e in items:
        m |= e << (8 * a)
    return m


GUARD = [0x80]


def _guard_for(m):
    n = (m.bit_length() + 7) // 8
    while len(GUARD) <= n:
        GUARD.append((GUARD[-1] << 8) | 0x80)
    return GUARD[n]


class Poly:
    """sparse polynomial: dict monomial -> int or Fraction.  A monomial is a packed integer, one byte of
    exponent per atom, so multiplying monomials is integer addition and comparing them is a lex order"""
    __slots__ = ('t', '_key', '_z', '_ids', '_deg')
    _zc = {}

    def __init__(self, t):
        self.t = t
        self._key = None
        self._z = None
        self._ids = None
        self._deg = None

    @staticmethod
    def const(c):
        return Poly({0: cnorm(c)}) if c else Poly({})

    @staticmethod
    def atom(i):
        return Poly({1 << (8 * i): 1})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and 0 in self.t)

    def is_atom(self):
        """the id of the atom this polynomial is, or None"""
        if len(self.t) == 1:
            (m, v), = self.t.items()
            if v == 1 and m and m & (m - 1) == 0 and (m.bit_length() - 1) % 8 == 0:
                return (m.bit_length() - 1) // 8
        return None

    def cval(self):
        return Fraction(self.t.get(0, 0))

    def add(self, o, s=1):
        if not o.t:
            return self
        if not self.t and s == 1:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c * s
            else:
                v = v + c * s
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    def scale(self, c):
        c = cnorm(c)
        if c == 1:
            return self
        if not c:
            return Poly({})
        if type(c) is int:
            return Poly({m: v * c for m, v in self.t.items()})
        return Poly({m: cnorm(v * c) for m, v in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return Poly({})
        if o.is_const():
            return self.scale(o.t[0])
        if self.is_const():
            return o.scale(self.t[0])
        if len(self.t) * len(o.t) > 3000000:
            raise Unsupported('polynomial too large')
        t = {}
        get = t.get
        b = list(o.t.items())
        for m1, c1 in self.t.items():
            for m2, c2 in b:
                m = m1 + m2
                t[m] = get(m, 0) + c1 * c2
        sq = SQMASK[0]
        red = False
        out = {}
        for m, c in t.items():
            if c:
                out[m] = c
                if m & sq:
                    red = True
        if red:
            return _reduce(out)
        p = Poly(out)
        if p.degree() > 120:
            raise Unsupported('degree too large')
        return p

    def atoms(self):
        if self._ids is None:
            u = 0
            for m in self.t:
                u |= m
            self._ids = frozenset(a for a, e in mono_items(u))
        return self._ids

    def degree(self):
        if self._deg is None:
            self._deg = max((sum(m.to_bytes((m.bit_length() + 7) // 8, 'little')) for m in self.t), default=0)
        return self._deg

    def z(self):
        """z3 term (Real sort, or Int sort if all atoms are ints and coefs integers)"""
        if self._z is not None:
            return self._z
        k = self.key()
        r = Poly._zc.get(k)
        if r is None:
            isint = all(ATOMS[a].sort == 'i' for a in self.atoms()) and all(type(c) is int or c.denominator == 1 for c in self.t.values())
            terms = []
            for m, c in k:
                f = []
                for a, e in mono_items(m):
                    at = ATOMS[a]
                    zz = at.z if isint else at.zr
                    f.extend([zz] * e)
                if not f:
                    terms.append(_znum(c, isint))
                else:
                    if c != 1:
                        f.insert(0, _znum(c, isint))
                    terms.append(f[0] if len(f) == 1 else _znary(z3.Z3_mk_mul, f))
            if not terms:
                r = _znum(0, isint)
            elif len(terms) == 1:
                r = terms[0]
            else:
                r = _znary(z3.Z3_mk_add, terms)
            Poly._zc[k] = r
        self._z = r
        return r

    def sign(self):
        """syntactic sign: '+', '-', '>=', '<=', '0' or None"""
        if not self.t:
            return '0'
        k = self.key()
        if k in NONNEG:
            return '>='
        pos = neg = False
        const = False
        odd = ODDMASK[0]
        for m, c in self.t.items():
            if m & odd_bits(m) & odd:
                return None
            if not m:
                const = True
            if c > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return None
        if pos:
            return '+' if const else '>='
        return '-' if const else '<='

    def lead(self):
        return max(self.t)

    def divexact(self, d):
        """quotient if d divides self exactly, else None (lex division)"""
        if len(d.t) == 1:
            (dm, dc), = d.t.items()
            out = {}
            for m, c in self.t.items():
                q = _mdiv(m, dm)
                if q is None:
                    return None
                out[q] = cdiv(c, dc)
            return Poly(out)
        if not d.atoms() <= self.atoms():
            return None
        if self.degree() < d.degree():
            return None
        dm = d.lead()
        dc = d.t[dm]
        ditems = list(d.t.items())
        # the trailing terms must divide as well
        if _mdiv(min(self.t), min(d.t)) is None or _mdiv(max(self.t), dm) is None:
            return None
        if len(self.t) > 30000:
            return None
        import heapq
        rem = dict(self.t)
        heap = [-m for m in rem]
        heapq.heapify(heap)
        out = {}
        n = 0
        limit = 4000
        sq = SQMASK[0]
        while rem:
            lm = -heapq.heappop(heap)
            if lm not in rem:
                continue
            q = _mdiv(lm, dm)
            if q is None:
                return None
            n += 1
            if n > limit:
                return None
            c = cdiv(rem[lm], dc)
            out[q] = c
            for m2, c2 in ditems:
                m = q + m2
                if m & sq:
                    return None
                v = rem.get(m)
                if v is None:
                    rem[m] = -c * c2
                    heapq.heappush(heap, -m)
                else:
                    v = v - c * c2
                    if v:
                        rem[m] = cnorm(v)
                    else:
                        del rem[m]
        return Poly(out)

    def eval(self, env):
        s = Fraction(0)
        for m, c in self.t.items():
            v = Fraction(c)
            for a, e in mono_items(m):
                v = v * env[a] ** e
            s = s + v
        return s


NONNEG = set()          # keys of polynomials known to be >= 0 (arguments of square roots)
SQMASK = [0]            # bits 1.. of the exponent byte of atoms with a reduction rule
ODDMASK = [0]           # bit 0 of the exponent byte of atoms that may be negative
_ODD = [1]


def odd_bits(m):
    n = (m.bit_length() + 7) // 8
    while len(_ODD) <= n:
        _ODD.append((_ODD[-1] << 8) | 1)
    return _ODD[n]


def set_sq(atom, p):
    atom.sq = p
    SQMASK[0] |= 0xFE << (8 * atom.id)


def set_nonneg(atom):
    atom.nonneg = True
    ODDMASK[0] &= ~(1 << (8 * atom.id))


def _mdiv(m, d):
    if not d:
        return m
    if d > m:
        return None
    g = _guard_for(m)
    r = (m | g) - d
    if r & g != g:
        return None
    return r & ~g


def _reduce(t):
    """apply atom**2 -> sq rules"""
    out = {}
    sqm = SQMASK[0]
    groups = {}
    for m, c in t.items():
        if not m & sqm:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        keep = m
        ext = []
        for a, e in mono_items(m & sqm | 0):
            e = (m >> (8 * a)) & 0xFF
            k = e // 2
            keep -= (2 * k) << (8 * a)
            ext.append((a, k))
        groups.setdefault(tuple(ext), {})[keep] = c
    res = Poly(out)
    for ext, part in groups.items():
        p = Poly(part)
        for a, k in ext:
            for _ in range(k):
                p = p.mul(ATOMS[a].sq)
        res = res.add(p)
    return res


ONE = Poly.const(Fraction(1))


# --------------------------------------------------------------------------------------------------
class SB:
    """a formula. e: z3 Bool"""
    __slots__ = ('e', 'ids', 'nl', 'lin')
    __array_priority__ = 1000

    def __init__(self, e, ids, nl=False, lin=None):
        self.e = e
        self.ids = ids      # atom ids that occur
        self.nl = nl        # has a non-linear atom
        self.lin = lin      # (i, j, c, op, negated) for an integer difference constraint i - j + c op 0

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_, SB)):
            return b_iff(self, o)
        return toint(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return toint(self)

    def __add__(self, o):
        return toint(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return toint(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return toint(self) - o

    def __rsub__(self, o):
        return o - toint(self)

    def __neg__(self):
        return -toint(self)

    def __lt__(self, o):
        return toint(self) < o

    def __gt__(self, o):
        return toint(self) > o

    def __le__(self, o):
        return toint(self) <= o

    def __ge__(self, o):
        return toint(self) >= o

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def __repr__(self):
        return 'SB(%s)' % self.e

    @property
    def shape(self):
        return ()

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import arr
        return arr.ufunc(uf, method, inputs, kw)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def zb(x):
    """z3 Bool, atom ids"""
    if isinstance(x, SB):
        return x.e, x.ids
    if isinstance(x, Sym):
        x = (x != 0)
        return zb(x)
    return z3.BoolVal(bool(x)), frozenset()


def isconcb(x):
    return isinstance(x, (bool, np.bool_))


def b_and(*xs):
    fl = []
    ids = frozenset()
    nl = False
    for x in xs:
        if isinstance(x, Sym):
            x = x != 0
        if isinstance(x, SB):
            fl.append(x.e)
            ids = ids | x.ids
            nl = nl or x.nl
        elif not x:
            return False
    if not fl:
        return True
    if len(fl) == 1:
        return SB(fl[0], ids, nl)
    return SB(z3.And(fl), ids, nl)


def b_or(*xs):
    fl = []
    ids = frozenset()
    nl = False
    for x in xs:
        if isinstance(x, Sym):
            x = x != 0
        if isinstance(x, SB):
            fl.append(x.e)
            ids = ids | x.ids
            nl = nl or x.nl
        elif x:
            return True
    if not fl:
        return False
    if len(fl) == 1:
        return SB(fl[0], ids, nl)
    return SB(z3.Or(fl), ids, nl)


def b_not(x):
    if isinstance(x, Sym):
        x = x != 0
    if isinstance(x, SB):
        lin = x.lin
        if lin is not None:
            lin = lin[:4] + (not lin[4],)
        if z3.is_not(x.e):
            return SB(x.e.arg(0), x.ids, x.nl, lin)
        return SB(z3.Not(x.e), x.ids, x.nl, lin)
    return not x


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if not isinstance(a, SB):
        return b if a else b_not(b)
    if not isinstance(b, SB):
        return a if b else b_not(a)
    return SB(a.e == b.e, a.ids | b.ids, a.nl or b.nl)


def toint(b):
    """0/1 integer of a formula"""
    if not isinstance(b, SB):
        return S(int(b))
    v = CTX.decided(b)
    if v is not None:
        return S(int(v))
    if z3.is_not(b.e):
        return 1 - toint(b_not(b))
    k = ('b2i', b.e.get_id())
    a, new = new_atom(k, 'b2i!%d' % len(ATOMS), 'i')
    if new:
        a.defs = [z3.If(b.e, a.z == 1, a.z == 0)]
        a.deps = set(b.ids)
        set_nonneg(a)
        a.shadow = b
        a.nl = nl_of(b)
    return Sym(Poly.atom(a.id), None, 'i')


# --------------------------------------------------------------------------------------------------
def S(x, kind=None):
    """make a Sym (constant) from a python/numpy number"""
    if x.__class__ is Sym:
        return x
    if isinstance(x, Sym):      # a plain number
        y = Sym.__new__(Sym)
        for a in Sym.__slots__:
            setattr(y, a, getattr(x, a))
        return y
    if isinstance(x, SB):
        return toint(x)
    if isinstance(x, (bool, np.bool_)):
        return Sym.const(int(x), 'i')
    if isinstance(x, (int, np.integer)):
        return Sym.const(int(x), kind or 'i')
    if isinstance(x, Fraction):
        return Sym.const(x, 'f')
    if isinstance(x, (float, np.floating)):
        return Sym.const(nicefrac(x), 'f')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return S(x[()])
    raise Unsupported('not a scalar: %r' % (type(x),))


def _isnum(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_, Sym, SB))


class Sym:
    """num / prod(den).  c: concrete value if constant (int, Fraction or non-finite float)."""
    __slots__ = ('num', 'den', 'k', 'c', '_h')
    __array_priority__ = 1000

    def __init__(self, num, den, k):
        self.num = num
        self.den = den      # None or tuple of (Poly, power) sorted
        self.k = k
        self._h = None
        if den is None and num is not None and num.is_const():
            v = num.cval()
            self.c = int(v) if k == 'i' else v
        else:
            self.c = None

    @staticmethod
    def const(v, k):
        s = Sym.__new__(Sym)
        s.k = k
        s.den = None
        s._h = None
        if isinstance(v, float):
            s.c = v
            s.num = None
            s.k = 'f'
        else:
            s.c = int(v) if k == 'i' else Fraction(v)
            s.num = Poly.const(Fraction(v))
        return s

    # ---- numpy-scalar look-alike
    @property
    def dtype(self):
        return np.dtype(np.int64) if self.k == 'i' else np.dtype(np.float64)
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t, *a, **k):
        from . import arr
        return arr.cast(self, arr.kind_of_dtype(t))

    def sum(self, *a, **k):
        return self
    max = min = mean = sum

    def any(self, *a, **k):
        return self != 0
    all = any

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        if i is None:
            from . import arr
            return arr.asarr(self)[None]
        raise IndexError('invalid index to scalar variable.')

    def reshape(self, *a):
        from . import arr
        return arr.asarr(self).reshape(*a)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import arr
        return arr.ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    # ---- structure
    def dens(self):
        return self.den or ()

    def atoms(self):
        if self.num is None:
            return frozenset()
        s = frozenset(self.num.atoms())
        for p, e in self.dens():
            s = s | frozenset(p.atoms())
        return s

    def key(self):
        if self.c is not None:
            return ('c', str(self.c))
        return (self.num.key(), tuple((p.key(), e) for p, e in self.dens()))

    def z(self):
        """z3 term"""
        if self.num is None:
            raise Unsupported('non-finite in z3 term')
        n = self.num.z()
        if not self.den:
            if self.k == 'f' and z3.is_int(n):
                if self.c is not None:
                    return z3.RealVal(str(self.c))
                return z3.ToReal(n)
            return n
        d = []
        for p, e in self.den:
            d.extend([_real(p.z())] * e)
        return _real(n) / (z3.Product(d) if len(d) > 1 else d[0])

    # ---- arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _add(self, S(o), 1)

    def __radd__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _add(S(o), self, 1)

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _add(self, S(o), -1)

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _add(S(o), self, -1)

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _mul(self, S(o))

    def __rmul__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _mul(S(o), self)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _div(self, S(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _div(S(o), self)

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _floordiv(self, S(o))

    def __rfloordiv__(self, o):
        return _floordiv(S(o), self)

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _mod(self, S(o))

    def __rmod__(self, o):
        return _mod(S(o), self)

    def __divmod__(self, o):
        return _floordiv(self, S(o)), _mod(self, S(o))

    def __neg__(self):
        if self.num is None:
            return Sym.const(-self.c, 'f')
        return Sym(self.num.scale(Fraction(-1)), self.den, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    def __pow__(self, o, mod=None):
        if not _isnum(o):
            return NotImplemented
        return f_pow(self, S(o))

    def __rpow__(self, o):
        return f_pow(S(o), self)

    # ---- comparison
    def __lt__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _cmp(self, S(o), '<')

    def __le__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _cmp(self, S(o), '<=')

    def __gt__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _cmp(S(o), self, '<')

    def __ge__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _cmp(S(o), self, '<=')

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _cmp(self, S(o), '==')

    def __ne__(self, o):
        if not _isnum(o):
            return NotImplemented
        return b_not(_cmp(self, S(o), '=='))

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        if self.k == 'i':
            return hash(CTX.concretize(self))
        raise Unsupported('hash of symbolic real')

    def __bool__(self):
        if self.c is not None:
            return bool(self.c)
        return bool(self != 0)

    def __index__(self):
        if self.k != 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        if self.c is not None:
            return int(self.c)
        return CTX.concretize(self)

    def __int__(self):
        # python int() truncates
        if self.k == 'i':
            return self.__index__()
        if self.c is not None:
            return int(self.c)
        return CTX.concretize(f_trunc(self))

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported('float() of a symbolic value')

    def __round__(self, n=None):
        if n:
            return f_rint(self * 10 ** n) / 10 ** n
        return f_rint(self)

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return -f_floor(-self)

    def __trunc__(self):
        return f_trunc(self)

    def conjugate(self):
        return self

    def __repr__(self):
        if self.c is not None:
            return 'S(%s)' % (self.c,)
        return 'S[%s]' % (self.z() if len(self.num.t) < 20 else '...%d terms' % len(self.num.t),)

    def __str__(self):
        if self.c is not None:
            if isinstance(self.c, Fraction):
                return str(float(self.c))
            return str(self.c)
        from . import textio
        return textio.sym_token(self)

    def __format__(self, spec):
        if self.c is not None:
            if isinstance(self.c, Fraction):
                return format(float(self.c), spec)
            return format(self.c, spec)
        from . import textio
        return textio.sym_token(self, spec)


def _real(z):
    return z3.ToReal(z) if z3.is_int(z) else z


def _kk(a, b):
    return 'i' if a.k == 'i' and b.k == 'i' else 'f'


def _lcm(d1, d2):
    """of two factor tuples -> (lcm, missing1, missing2)"""
    if not d1 and not d2:
        return None, ONE, ONE
    m1 = {p.key(): (p, e) for p, e in (d1 or ())}
    m2 = {p.key(): (p, e) for p, e in (d2 or ())}
    out = []
    f1 = ONE
    f2 = ONE
    for k in set(m1) | set(m2):
        p = (m1.get(k) or m2.get(k))[0]
        e1 = m1[k][1] if k in m1 else 0
        e2 = m2[k][1] if k in m2 else 0
        e = max(e1, e2)
        for _ in range(e - e1):
            f1 = f1.mul(p)
        for _ in range(e - e2):
            f2 = f2.mul(p)
        out.append((k, p, e))
    out.sort(key=lambda t: t[0])
    return tuple((p, e) for k, p, e in out), f1, f2


def _cancel(num, den, k):
    if not num.t:
        return Sym.const(0, k)
    if not den:
        return Sym(num, None, k)
    out = []
    for p, e in den:
        while e:
            q = num.divexact(p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            # rationalise a square-root denominator:  n/s  ->  n*s/sq
            out.append((p, e))
    return Sym(num, tuple(out) or None, k)


def _add(a, b, s):
    k = _kk(a, b)
    if a.num is None or b.num is None:
        x = a.c if a.c is not None else 1.0
        y = b.c if b.c is not None else 1.0
        if a.num is None and b.num is None:
            return Sym.const(a.c + s * b.c, 'f')
        return Sym.const(a.c if a.num is None else s * b.c, 'f')
    if a.c is not None and b.c is not None:
        return Sym.const(a.c + s * b.c, k)
    if a.den is None and b.den is None:
        return Sym(a.num.add(b.num, s), None, k)
    den, f1, f2 = _lcm(a.den, b.den)
    num = a.num.mul(f1).add(b.num.mul(f2), s)
    return _cancel(num, den, k)


def _mul(a, b):
    k = _kk(a, b)
    if a.num is None or b.num is None:
        if a.c is not None and b.c is not None:
            with np.errstate(all='ignore'):
                return Sym.const(float(a.c) * float(b.c), 'f')
        inf, oth = (a, b) if a.num is None else (b, a)
        if inf.c != inf.c:
            return Sym.const(NAN, 'f')
        if bool(oth > 0):
            return Sym.const(inf.c, 'f')
        if bool(oth < 0):
            return Sym.const(-inf.c, 'f')
        return Sym.const(NAN, 'f')
    if a.c is not None and b.c is not None:
        return Sym.const(a.c * b.c, k)
    if a.c is not None or b.c is not None:
        c, o = (a.c, b) if a.c is not None else (b.c, a)
        if c == 0:
            return Sym.const(0, k)
        return Sym(o.num.scale(Fraction(c)), o.den, k)
    if a.den is None and b.den is None:
        return Sym(a.num.mul(b.num), None, k)
    d = {}
    for dd in (a.den, b.den):
        for p, e in dd or ():
            kk = p.key()
            d[kk] = (p, d[kk][1] + e if kk in d else e)
    # cancel across before multiplying
    an, bn = a.num, b.num
    for kk in list(d):
        p, e = d[kk]
        while e:
            q = an.divexact(p)
            if q is not None:
                an = q
                e -= 1
                continue
            q = bn.divexact(p)
            if q is not None:
                bn = q
                e -= 1
                continue
            break
        d[kk] = (p, e)
    den = tuple((p, e) for kk, (p, e) in sorted(d.items()) if e)
    den = _redden(den)
    if den[1] is not None:
        an = an.mul(den[1])
    return _cancel(an.mul(bn), den[0] or None, k)


def _redden(den):
    """square-root atoms in denominators at power >=2 reduce: 1/s^2 -> 1/sq. returns (den, extra num)"""
    out = {}
    extra = None
    changed = False
    for p, e in den:
        if e >= 1 and len(p.t) == 1:
            (m, c), = p.t.items()
            it = mono_items(m)
            if len(it) == 1 and it[0][1] == 1 and ATOMS[it[0][0]].sq is not None and ATOMS[it[0][0]].key[0] == 'sqrt':
                sq = ATOMS[it[0][0]].sq
                sc, fs = factor_split(sq)
                n = (e + 1) // 2
                if e % 2:
                    # 1/s = s/sq: no square root stays in a denominator
                    extra = (extra or ONE).mul(p)
                    e = e + 1
                extra = (extra or ONE).scale(Fraction(1) / sc ** n)
                for q, f in fs:
                    kk = q.key()
                    out[kk] = (q, (out[kk][1] if kk in out else 0) + f * n)
                changed = True
                e = e % 2
                if not e:
                    continue
        kk = p.key()
        out[kk] = (p, (out[kk][1] if kk in out else 0) + e)
    if not changed:
        return den, None
    den = tuple((p, e) for kk, (p, e) in sorted(out.items()))
    d2, x2 = _redden(den)
    if x2 is not None:
        extra = extra.mul(x2)
    return d2, extra


def factor_split(p):
    """p = c * prod(factors): pulls out monomial content and makes the rest monic"""
    common = None
    if 0 not in p.t:
        for m in p.t:
            if common is None:
                common = dict(mono_items(m))
            else:
                common = {a: min(e, (m >> (8 * a)) & 0xFF) for a, e in common.items() if (m >> (8 * a)) & 0xFF}
            if not common:
                break
    fs = []
    rest = p
    if common:
        mono = mono_of(common.items())
        rest = Poly({m - mono: c for m, c in p.t.items()})
        for a, e in sorted(common.items()):
            fs.append((Poly.atom(a), e))
    c = rest.t[rest.lead()]
    if p.key() in NONNEG:
        c = abs(c)      # keep the orientation in which it is known non-negative
    rest = rest.scale(Fraction(1) / c)
    if p.key() in NONNEG:
        if not common:
            NONNEG.add(rest.key())
    if not rest.is_const():
        # known perfect square? (cheap: try only via registered factors)
        fs.append((rest, 1))
    return c, fs


def _div(a, b):
    if b.num is None:
        if b.c != b.c:
            return Sym.const(NAN, 'f')
        if a.num is None:
            return Sym.const(NAN, 'f')
        return Sym.const(0, 'f')
    if b.c is not None:
        if b.c == 0:
            return div_by_zero(a)
        if a.num is None:
            return Sym.const(a.c if b.c > 0 else -a.c, 'f')
        if a.c is not None:
            return Sym.const(Fraction(a.c) / Fraction(b.c), 'f')
        return Sym(a.num.scale(1 / Fraction(b.c)), a.den, 'f')
    # b symbolic: nonzero?
    if not CTX.nonzero(b):
        if CTX.cfg.get('div0') == 'assume':
            CTX.assumed.add('divisors are non-zero (paths with an exactly zero divisor are outside the claim)')
            CTX.assume(b != 0)
        elif bool(_cmp(b, S(0), '==')):
            return div_by_zero(a)
        CTX.mark_nonzero(b)
    if a.num is None:
        return _mul(a, b)
    if a.c == 0 and a.c is not None:
        return Sym.const(0, 'f')
    # a * (1/b) ; 1/b = prod(b.den)/b.num
    c, fs = factor_split(b.num)
    inv_num = Poly.const(Fraction(1) / c)
    for p, e in b.dens():
        for _ in range(e):
            inv_num = inv_num.mul(p)
    d = {}
    for p, e in fs:
        kk = p.key()
        d[kk] = (p, (d[kk][1] if kk in d else 0) + e)
    den = tuple((p, e) for kk, (p, e) in sorted(d.items()))
    den, extra = _redden(den)
    if extra is not None:
        inv_num = inv_num.mul(extra)
    inv = Sym(inv_num, den or None, 'f')
    return _mul(Sym(a.num, a.den, 'f'), inv)


def div_by_zero(a):
    """numpy semantics of a/0 (positive zero)"""
    CTX.events.add('division by zero')
    if a.num is None:
        return a
    if a.c is not None:
        return Sym.const(NAN if a.c == 0 else (INF if a.c > 0 else -INF), 'f')
    if bool(a > 0):
        return Sym.const(INF, 'f')
    if bool(a < 0):
        return Sym.const(-INF, 'f')
    return Sym.const(NAN, 'f')


def _floordiv(a, b):
    if a.k == 'f' or b.k == 'f':
        q = f_floor(_div(a, b))
        return Sym(q.num, q.den, 'f')
    if b.c is None:
        b = S(CTX.concretize(b))
    if b.c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.c is not None:
        return S(a.c // b.c)
    k = ('idiv', a.key(), b.c)
    at, new = new_atom(k, 'idiv!%d' % len(ATOMS), 'i')
    if new:
        r = a.z() - b.c * at.z
        at.defs = [r >= 0, r < b.c] if b.c > 0 else [r <= 0, r > b.c]
        at.deps = set(a.atoms())
        at.nl = nl_of(a)
    return Sym(Poly.atom(at.id), None, 'i')


def _mod(a, b):
    if a.k == 'f' or b.k == 'f':
        return a - Sym.__mul__(b, _floordiv(a, b))
    if b.c is None:
        b = S(CTX.concretize(b))
    if a.c is not None:
        return S(a.c % b.c)
    return a - b * _floordiv(a, b)


def sgn_product(s1, s2):
    return None


ENCB = 200
ENCMASK = [0]


def set_enc(a, lo, hi):
    a.enc = (lo, hi)
    ENCMASK[0] |= 0xff << (8 * a.id)


def enclosure(p):
    """integer bounds of 2**ENCB times the value of a polynomial in enclosed constants, or None"""
    m = ENCMASK[0]
    if not m:
        return None
    for k in p.t:
        if k & ~m:
            return None
    lo = hi = 0
    one = 1 << ENCB
    pw = {}
    for k, c in p.t.items():
        a, b = one, one
        for i, e in mono_items(k):
            w = pw.get((i, e))
            if w is None:
                u, v = ATOMS[i].enc
                w = (one, one)
                for _ in range(e):
                    w = _imul(w, (u, v))
                pw[i, e] = w
            a, b = _imul((a, b), w)
        n, d = (c, 1) if isinstance(c, int) else (c.numerator, c.denominator)
        if n < 0:
            a, b = b, a
        lo += a * n // d
        hi += -(-b * n // d)
    return lo, hi


def _imul(x, y):
    if x[0] >= 0 and y[0] >= 0:
        return x[0] * y[0] >> ENCB, -(-x[1] * y[1] >> ENCB)
    q = [a * b for a in x for b in y]
    return min(q) >> ENCB, -(-max(q) >> ENCB)


def known_sign(p):
    """'+', '-', or None for a polynomial factor that is known non-zero (it divides something)"""
    s = poly_sign(p)
    if s in ('+', '>='):
        return '+'
    if s in ('-', '<='):
        return '-'
    return CTX.sign_known(p)


_FLIP = {'+': '-', '-': '+', '>=': '<=', '<=': '>=', '0': '0'}


def poly_sign(p):
    """syntactic sign through content and registered non-negative factors"""
    if ENCMASK[0]:
        w = enclosure(p)
        if w is not None:
            if w[0] > 0:
                return '+'
            if w[1] < 0:
                return '-'
    s = p.sign()
    if s is not None or not p.t:
        return s
    c, fs = factor_split(p)
    neg = c < 0
    strict = True
    for q, e in fs:
        if e % 2 == 0:
            strict = False
            continue
        t = q.sign()
        if t is None:
            t = _FLIP.get(q.scale(-1).sign())
        if t is None:
            return None
        if t in ('-', '<='):
            neg = not neg
        if t in ('>=', '<='):
            strict = False
    if strict:
        return '-' if neg else '+'
    return '<=' if neg else '>='


def register_sos(xs):
    """the sum of squares of xs, recorded as non-negative"""
    s = S(Fraction(0))
    for x in xs:
        s = s + S(x) * S(x)
    if s.c is None and not s.den:
        NONNEG.add(s.num.key())
        factor_split(s.num)
    return s


def quick_sign(x):
    """sign of x without the solver: '+', '-', '>=', '<=', '0', None.  Denominators are non-zero."""
    if x.c is not None:
        if x.num is None:
            return None if x.c != x.c else ('+' if x.c > 0 else '-')
        return '0' if x.c == 0 else ('+' if x.c > 0 else '-')
    s = poly_sign(x.num)
    if s is None:
        return None
    for p, e in x.dens():
        if e % 2:
            t = poly_sign(p)
            if t is None:
                t = CTX.signs.get(p.key()) if hasattr(CTX, 'signs') else None
            if t is None:
                return None
            if t in ('-', '<='):
                s = _FLIP[s]
    return s


def _cmp(a, b, op):
    if a.num is None or b.num is None:
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            return {'<': x < y, '<=': x <= y, '==': x == y}[op]
        inf = a.c if a.num is None else b.c
        if inf != inf:
            return False
        if op == '==':
            return False
        if a.num is None:
            return inf < 0
        return inf > 0
    if a.c is not None and b.c is not None:
        x, y = a.c, b.c
        return {'<': x < y, '<=': x <= y, '==': x == y}[op]
    d = _add(a, b, -1)
    if (a.c is None) != (b.c is None):
        r = _cmp_bounded(a, b, op)
        if r is not None:
            return r
    return cmp0(d, op)


def _cmp_bounded(a, b, op):
    """x against a constant c when |x| <= |c| is a syntactic fact (cosines)"""
    x, c = (a, b.c) if a.c is None else (b, a.c)
    if not c or not x.den or len(x.num.t) > 40:
        return None
    if not any(ATOMS[i].sq is not None for i in x.num.atoms()):
        return None
    k = ('bnd', x.key(), c)
    qs = _BND.get(k)
    if qs is None:
        qs = _BND[k] = quick_sign(S(Fraction(c) * Fraction(c)) - x * x) or '?'
    if qs not in ('+', '>=', '0'):
        return None
    strict = qs == '+'
    if op == '==':
        return False if strict else None
    if a is x or a.c is None:
        if c > 0:
            return True if (op == '<=' or strict) else None
        return False if (op == '<' or strict) else None
    if c > 0:
        return False if (op == '<' or strict) else None
    return True if (op == '<=' or strict) else None


_BND = {}


def cmp0(d, op):
    """d op 0"""
    if d.c is not None:
        return {'<': d.c < 0, '<=': d.c <= 0, '==': d.c == 0}[op]
    if d.k == 'i' and not d.den and len(d.num.t) <= 3:
        dl = diff_form(d.num)
        if dl is not None:
            r = CTX.diff_known(dl, op)
            if r is not None:
                return r
            return mkcmp(d.num, op)
    qs = quick_sign(d)
    if qs == '+':
        return False
    if qs == '-':
        return op != '=='
    if qs == '>=' and op == '<':
        return False
    if qs == '<=' and op == '<=':
        return True
    if qs == '0':
        return op != '<'
    num = d.num
    neg = False
    extra = []
    if d.den:
        for p, e in d.den:
            if e % 2:
                s = known_sign(p)
                if s == '-':
                    neg = not neg
                elif s is None:
                    extra.append(p)
    if op == '==':
        extra = []
    if neg:
        num = num.scale(Fraction(-1))
    # strip positive content
    sg = None
    if not extra:
        sg = num.sign()
        if sg == '+':
            return False
        if sg == '-':
            return op != '=='
        if sg == '>=' and op == '<':
            return False
        if sg == '<=' and op == '<=':
            return True
        c, fs = factor_split(num)
        # drop factors that cannot change the answer: positive ones; reduce even powers
        if op == '==':
            num2 = ONE
            parts = []
            for p, e in fs:
                parts.append(p)
            if len(parts) == 1:
                return mkcmp(parts[0], '==')
            return b_or(*[mkcmp(p, '==') for p in parts])
        return mkcmp(num, op)
    prod = num
    small = len(num.t) * math.prod(len(p.t) for p in extra) <= 30
    if small:
        for p in extra:
            prod = prod.mul(p)
        return mkcmp(prod, op)
    # sign by cases on one polynomial at a time
    zero = mkcmp(num, '==')
    s_neg = mkcmp(num, '<')
    for p in extra:
        pn = mkcmp(p, '<')
        s_neg = b_or(b_and(s_neg, b_not(pn)), b_and(b_not(b_or(s_neg, zero)), pn))
    if op == '<':
        return b_and(s_neg, b_not(zero))
    return b_or(s_neg, zero)


def diff_form(p):
    """(i, j, c) with p = i - j + c for integer atoms i, j (-1 stands for zero)"""
    i = j = -1
    c = 0
    for m, v in p.t.items():
        if not m:
            if type(v) is not int:
                return None
            c = v
            continue
        if v != 1 and v != -1:
            return None
        b = m.bit_length() - 1
        if b % 8 or m != 1 << b:
            return None
        a = b // 8
        if ATOMS[a].sort != 'i':
            return None
        if v == 1:
            if i >= 0:
                return None
            i = a
        else:
            if j >= 0:
                return None
            j = a
    return i, j, c


_CMPC = {}


def mkcmp(p, op):
    k = (p.key(), op)
    r = _CMPC.get(k)
    if r is None:
        r = _mkcmp(p, op)
        if isinstance(r, SB):
            _CMPC[k] = r
    return r


REL = {}            # id of the formula -> (polynomial, relation)
RELF = {}           # (polynomial, relation) -> formula


def rel(q, op):
    k = q.key()
    e = RELF.get((k, op))
    if e is None:
        z = q.z()
        e = RELF[(k, op)] = {'<': z < 0, '<=': z <= 0, '==': z == 0}[op]
        REL[e.get_id()] = (k, op)
    return e


def by_siblings(known, i):
    """what the other relations of the same polynomial to zero say about formula i"""
    r = REL.get(i)
    if r is None:
        return None
    k, op = r

    def get(o):
        e = RELF.get((k, o))
        return None if e is None else known.get(e.get_id())
    lt, le, eq = get('<'), get('<='), get('==')
    if lt or eq:
        le = True
    if le is False:
        lt = eq = False
    if lt:
        eq = False
    if eq:
        lt = False
    if le and eq is False:
        lt = True
    if le and lt is False:
        eq = True
    if lt is False and eq is False:
        le = False
    return {'<': lt, '<=': le, '==': eq}[op]


def _mkcmp(p, op):
    if p.is_const():
        v = p.cval()
        return {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
    s = p.sign()
    if s == '+':
        return False
    if s == '-':
        return op != '=='
    if s == '>=' and op == '<':
        return False
    if s == '<=' and op == '<=':
        return True
    # clear rational coefficients
    den = 1
    for c in p.t.values():
        if type(c) is not int:
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.t.values():
        g = math.gcd(g, int(c * den))
    q = p.scale(Fraction(den, g or 1))
    flip = q.t[q.lead()] < 0
    if flip:
        q = q.scale(Fraction(-1))
    if op == '==':
        e = rel(q, '==')
    elif flip:
        e = z3.Not(rel(q, '<=' if op == '<' else '<'))
    else:
        e = rel(q, op)
    lin = None
    if len(p.t) <= 3 and den == 1 and g == 1:
        lin = diff_form(p)
        if lin is not None:
            lin = lin + (op, False)
    return SB(e, frozenset(q.atoms()), q.degree() > 1, lin)


# --------------------------------------------------------------------------------------------------
# derived atoms
def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def _sqfree(c):
    """c = r^2 * q with q squarefree-ish integer; c positive Fraction -> (r, q)"""
    n = c.numerator * c.denominator
    r = Fraction(1, c.denominator)
    q = n
    f = 2
    while f * f <= q and f < 2000:
        while q % (f * f) == 0:
            q //= f * f
            r *= f
        f += 1
    s = math.isqrt(q)
    if s * s == q:
        return r * s, 1
    return r, q


def f_sqrt(x, nonneg=False):
    x = S(x)
    if x.num is None:
        return Sym.const(math.sqrt(x.c) if x.c > 0 else NAN, 'f')
    if x.c is not None:
        c = Fraction(x.c)
        if c < 0:
            return Sym.const(NAN, 'f')
        if c == 0:
            return Sym.const(0, 'f')
        r, q = _sqfree(c)
        if q == 1:
            return Sym.const(r, 'f')
        return Sym(_sqrt_poly(Poly.const(Fraction(q))).scale(r), None, 'f')
    # negative argument?
    sg = quick_sign(x)
    if sg not in ('+', '>=') and not nonneg:
        if not CTX.known_nonneg(x):
            if bool(x < 0):
                CTX.events.add('sqrt of negative')
                return Sym.const(NAN, 'f')
    # pull out squares from num and den
    c, fs = factor_split(x.num)
    if c < 0:
        c = -c
        fs = list(fs)
        fs[-1] = (fs[-1][0].scale(Fraction(-1)), fs[-1][1])
        if fs[-1][1] % 2 == 0:
            # sign was in an even factor: put back
            return _sqrt_generic(x)
    outside = S(Fraction(1))
    inner = ONE
    for p, e in fs:
        if e // 2:
            for _ in range(e // 2):
                outside = outside * f_abs(Sym(p, None, 'f'))
        if e % 2:
            inner = inner.mul(p)
    odd_den = []
    for p, e in x.dens():
        for _ in range(e // 2):
            outside = outside / f_abs(Sym(p, None, 'f'))
        if e % 2:
            odd_den.append(p)
            inner = inner.mul(p)
    for p in odd_den:
        outside = outside / f_abs(Sym(p, None, 'f'))
    r, q = _sqfree(c)
    inner = inner.scale(Fraction(q))
    if inner.is_const():
        return outside * r * f_sqrt(S(inner.cval()))
    sq = perfect_square(inner)
    if sq is not None:
        return outside * r * f_abs(Sym(sq, None, 'f'))
    return outside * r * Sym(_sqrt_poly(inner), None, 'f')


def perfect_square(p):
    """q with q*q == p, or None (leading-term recursion)"""
    if len(p.t) > 60:
        return None
    rem = p
    q = Poly({})
    lm = p.lead()
    if lm & odd_bits(lm):
        return None
    r = _isqrt_frac(Fraction(p.t[lm])) if p.t[lm] > 0 else None
    if r is None:
        return None
    m0 = lm >> 1
    t0 = Poly({m0: cnorm(r)})
    q = t0
    rem = p.add(q.mul(q), -1)
    n = 0
    while rem.t:
        n += 1
        if n > 12:
            return None
        lm = rem.lead()
        mm = _mdiv(lm, m0)
        if mm is None or mm >= m0:
            return None
        t = Poly({mm: cdiv(rem.t[lm], 2 * r)})
        q2 = q.add(t)
        rem = p.add(q2.mul(q2), -1)
        q = q2
    return q


def _sqrt_poly(p):
    k = ('sqrt', p.key())
    a, new = new_atom(k, 'sqrt!%d' % len(ATOMS), 'f')
    if new:
        a.defs = [a.z >= 0, a.z * a.z == _real(p.z())]
        a.deps = set(p.atoms())
        set_nonneg(a)
        set_sq(a, p)
        NONNEG.add(p.key())
        w = (int(p.cval() * (1 << ENCB)), int(p.cval() * (1 << ENCB)) + 1) if p.is_const() else enclosure(p)
        if w is not None and w[0] >= 0:
            set_enc(a, math.isqrt(w[0] << ENCB), math.isqrt(w[1] << ENCB) + 1)
    return Poly.atom(a.id)


def _sqrt_generic(x):
    k = ('sqrtg', x.key())
    a, new = new_atom(k, 'sqrt!%d' % len(ATOMS), 'f')
    if new:
        set_nonneg(a)
        num = _real(x.num.z())
        den = [_real(p.z()) for p, e in x.dens() for _ in range(e)]
        lhs = a.z * a.z
        if den:
            lhs = lhs * z3.Product(den) if len(den) > 1 else lhs * den[0]
        else:
            set_sq(a, x.num)
        a.defs = [a.z >= 0, lhs == num]
        a.deps = set(x.atoms())
    return Sym(Poly.atom(a.id), None, 'f')


def f_abs(x):
    x = S(x)
    if x.num is None:
        return Sym.const(abs(x.c), 'f')
    if x.c is not None:
        return Sym.const(abs(x.c), x.k)
    s = quick_sign(x)
    if s in ('+', '>=', '0'):
        return x
    if s in ('-', '<='):
        return -x
    s = CTX.sign_quick(x)
    if s == '+':
        return x
    if s == '-':
        return -x
    if CTX.cfg.get('abs', 'fork') == 'fork':
        if bool(x >= 0):
            return x
        return -x
    if x.k == 'i':
        k = ('abs', x.key())
        a, new = new_atom(k, 'abs!%d' % len(ATOMS), 'i')
        if new:
            set_nonneg(a)
            z = x.z()
            a.defs = [a.z >= 0, z3.Or(a.z == z, a.z == -z)]
            a.deps = set(x.atoms())
            set_sq(a, x.num.mul(x.num))
            a.nl = nl_of(x)
        return Sym(Poly.atom(a.id), None, 'i')
    # |n/d| = |n|/|d|
    c, fs = factor_split(x.num)
    out = S(Fraction(abs(c)))

    def ab(p):
        sg = p.sign()
        if sg in ('+', '>='):
            return Sym(p, None, 'f')
        k = ('abs', p.key())
        a, new = new_atom(k, 'abs!%d' % len(ATOMS), 'f')
        if new:
            set_nonneg(a)
            z = _real(p.z())
            a.defs = [a.z >= 0, z3.Or(a.z == z, a.z == -z)]
            a.deps = set(p.atoms())
            set_sq(a, p.mul(p))
            a.nl = nl_of(p)
        return Sym(Poly.atom(a.id), None, 'f')
    for p, e in fs:
        f = ab(p) if e % 2 else Sym(p, None, 'f')
        for _ in range(e):
            out = out * f
    for p, e in x.dens():
        f = ab(p) if e % 2 else Sym(p, None, 'f')
        for _ in range(e):
            out = out / f
    return out


def fresh_real(name, constrain, deps, key=None):
    k = key or ('fresh', name, CTX.fresh_no(name))
    a, new = new_atom(k, '%s!%d' % (name, len(ATOMS)), 'f')
    if new:
        a.defs = [f for f in constrain(a.z)]
        a.deps = set(deps)
    return Sym(Poly.atom(a.id), None, 'f')


def f_ite(c, a, b):
    """if-then-else on values"""
    if not isinstance(c, SB):
        return a if c else b
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    a = S(a)
    b = S(b)
    d = CTX.decided(c)
    if d is not None:
        return a if d else b
    if a.num is not None and b.num is not None:
        if a.c is not None and b.c is not None:
            if a.c == b.c:
                return a
        elif a.key() == b.key():
            return a
    k = 'i' if a.k == 'i' and b.k == 'i' else 'f'
    if k == 'f' and (CTX.cfg.get('ite', 'fork') == 'fork' or a.num is None or b.num is None):
        return a if bool(c) else b
    key = ('ite', c.e.get_id(), a.key(), b.key())
    at, new = new_atom(key, 'ite!%d' % len(ATOMS), k)
    if new:
        za, zbb = a.z(), b.z()
        if k == 'f':
            za, zbb = _real(za), _real(zbb)
        at.defs = [z3.If(c.e, at.z == za, at.z == zbb)]
        at.deps = set(c.ids) | set(a.atoms()) | set(b.atoms())
        at.shadow = c
        at.nl = nl_of(c, a, b)
        if a.num.sign() in ('+', '>=') and not a.den and b.num.sign() in ('+', '>=') and not b.den:
            set_nonneg(at)
    return Sym(Poly.atom(at.id), None, k)


def f_minmax(xs, mx):
    """numpy min/max of a list (nan propagates)"""
    xs = [S(x) for x in xs]
    k = 'i' if all(x.k == 'i' for x in xs) else 'f'
    if any(x.num is None and x.c != x.c for x in xs):
        return Sym.const(NAN, 'f')
    conc = [x.c for x in xs if x.c is not None]
    syms = {}
    for x in xs:
        if x.c is None:
            syms[x.key()] = x
    syms = list(syms.values())
    best = None
    if conc:
        best = max(conc) if mx else min(conc)
        if not syms:
            return Sym.const(best, k)
        if isinstance(best, float):
            if (best > 0) == mx:
                return Sym.const(best, 'f')
            best = None
    cand = syms + ([S(best)] if best is not None else [])
    if len(cand) == 1:
        return cand[0]
    if CTX.cfg.get('minmax', 'atom') == 'fork' or any(x.den for x in cand):
        m = cand[0]
        for x in cand[1:]:
            if bool(x > m) if mx else bool(x < m):
                m = x
        return m
    # differences of known sign
    core_known = getattr(CTX, 'sign_linear', None)
    keep = []
    for x in cand:
        dom = False
        for y in list(keep):
            d = quick_sign(x - y)
            if d is None and core_known is not None:
                d = core_known(x - y)
            if d is not None:
                if (d in ('+', '>=')) == mx:
                    keep.remove(y)
                else:
                    dom = True
        if not dom:
            keep.append(x)
    cand = keep
    if len(cand) == 1:
        return cand[0]
    key = ('max' if mx else 'min', tuple(sorted((x.key() for x in cand), key=repr)))
    a, new = new_atom(key, '%s!%d' % (key[0], len(ATOMS)), k)
    if new:
        zs = [x.z() if k == 'i' else _real(x.z()) for x in cand]
        a.defs = [(a.z >= z) if mx else (a.z <= z) for z in zs] + [z3.Or([a.z == z for z in zs])]
        for x in cand:
            a.deps |= set(x.atoms())
        a.nl = nl_of(*cand)
        if all(x.num.sign() in ('+', '>=') and not x.den for x in cand):
            set_nonneg(a)
    return Sym(Poly.atom(a.id), None, k)


def f_floor(x):
    x = S(x)
    if x.k == 'i':
        return x
    if x.num is None:
        return x
    if x.c is not None:
        return Sym.const(Fraction(math.floor(x.c)), 'f')
    k = ('floor', x.key())
    a, new = new_atom(k, 'floor!%d' % len(ATOMS), 'i')
    if new:
        if x.den:
            q = fresh_real('q', lambda v: [v * z3.Product([_real(p.z()) for p, e in x.den for _ in range(e)] + [z3.RealVal(1)]) == _real(x.num.z())], x.atoms(), key=('quo', x.key()))
            z = q.z()
            a.deps = set(x.atoms()) | set(q.atoms())
        else:
            z = _real(x.num.z())
            a.deps = set(x.atoms())
            a.nl = nl_of(x)
        a.defs = [z3.ToReal(a.z) <= z, z < z3.ToReal(a.z) + 1]
    v = CTX.fixed.get(a.id)
    if v is not None:
        return Sym.const(Fraction(v), 'f')
    return Sym(Poly.atom(a.id), None, 'f')


def f_trunc(x):
    """toward zero, as an int"""
    x = S(x)
    if x.k == 'i':
        return x
    if x.num is None:
        raise Unsupported('int of non-finite')
    if x.c is not None:
        return S(int(x.c))
    if bool(x >= 0):
        f = f_floor(x)
        return Sym(f.num, f.den, 'i')
    f = f_floor(-x)
    return -Sym(f.num, f.den, 'i')


def f_rint(x):
    x = S(x)
    if x.k == 'i' or x.num is None:
        return x
    if x.c is not None:
        return Sym.const(Fraction(round(x.c)), 'f')
    # ties to even ignored: ties form a null set; model ties as floor(x+1/2)
    CTX.assumed.add('rint ties rounded up')
    return f_floor(x + Fraction(1, 2))


def f_sign(x):
    x = S(x)
    if x.c is not None:
        if x.num is None:
            return Sym.const(NAN if x.c != x.c else (1 if x.c > 0 else -1), 'f')
        return Sym.const((x.c > 0) - (x.c < 0), x.k)
    if bool(x > 0):
        return S(1, x.k) if x.k == 'i' else S(Fraction(1))
    if bool(x < 0):
        return S(-1) if x.k == 'i' else S(Fraction(-1))
    return S(0) if x.k == 'i' else S(Fraction(0))


def f_pow(a, b):
    if b.num is not None and b.c is not None and Fraction(b.c).denominator == 1:
        n = int(b.c)
        if a.num is None:
            return Sym.const(float(a.c) ** n, 'f')
        k = 'i' if a.k == 'i' and b.k == 'i' else 'f'
        if n < 0:
            if k == 'i':
                raise ValueError('Integers to negative integer powers are not allowed.')
            return S(Fraction(1)) / f_pow(a, S(-n))
        r = S(1) if k == 'i' else S(Fraction(1))
        base = a if a.k == k else Sym(a.num, a.den, k)
        for _ in range(n):
            r = r * base
        return r
    if b.num is not None and b.c is not None and Fraction(b.c) == Fraction(1, 2):
        return f_sqrt(a)
    if b.num is not None and b.c is not None and Fraction(b.c).denominator == 2:
        return f_pow(f_sqrt(a), S(Fraction(b.c) * 2))
    if a.c is not None and b.c is None and b.k == 'i':
        return S(a.c ** CTX.concretize(b)) if a.k == 'i' else f_pow(a, S(CTX.concretize(b)))
    if b.c is not None and b.num is not None:
        n = math.floor(b.c)
        if n > 0:
            return f_pow(a, S(n)) * f_pow(a, S(Fraction(b.c) - n))
    return uf('pow', [a, b])


UF_AXIOMS = {}


def uf(name, args):
    """uninterpreted application with axioms"""
    args = [S(a) for a in args]
    if all(a.c is not None for a in args) and name in UF_EXACT:
        r = UF_EXACT[name](*[a.c for a in args])
        if r is not None:
            return S(r) if not isinstance(r, Sym) else r
    if any(a.num is None for a in args):
        raise Unsupported('%s of non-finite' % name)
    key = ('uf', name) + tuple(a.key() for a in args)
    a, new = new_atom(key, '%s!%d' % (name, len(ATOMS)), 'f')
    if new:
        a.shadow = ('uf', name, args)
        for x in args:
            a.deps |= set(x.atoms())
        ax = UF_AXIOMS.get(name)
        if ax:
            ax(a, args)
    return Sym(Poly.atom(a.id), None, 'f')


def _ax_cos(a, args):
    a.defs = [a.z <= 1, a.z >= -1]


def _ax_sin(a, args):
    c = uf('cos', args)
    (cid,) = c.atoms()
    a.defs = [a.z * a.z + ATOMS[cid].z * ATOMS[cid].z == 1]
    a.nl = True
    a.deps.add(cid)
    set_sq(a, ONE.add(Poly.atom(cid).mul(Poly.atom(cid)), -1))


def _ax_exp(a, args):
    set_nonneg(a)
    a.defs = [a.z > 0]


UF_AXIOMS['cos'] = _ax_cos
UF_AXIOMS['sin'] = _ax_sin
UF_AXIOMS['exp'] = _ax_exp


def pi_sym():
    a, new = new_atom(('pi',), 'pi', 'f')
    if new:
        set_nonneg(a)
        a.defs = [a.z > z3.RealVal('3.14159265'), a.z < z3.RealVal('3.14159266')]
        v = Fraction('3.14159265358979323846264338327950288419716939937510582097494459')
        set_enc(a, int(v * (1 << ENCB)) - (1 << 20), int(v * (1 << ENCB)) + (1 << 20))
    return Sym(Poly.atom(a.id), None, 'f')


def _exact_exp(x):
    return Fraction(1) if x == 0 else None


UF_EXACT = {
    'exp': _exact_exp,
    'log': lambda x: Fraction(0) if x == 1 else None,
    'arctan': lambda x: Fraction(0) if x == 0 else None,
}


def pi_multiple(x):
    """x = q*pi ? -> q (Fraction) or None"""
    if x.c is not None:
        return Fraction(0) if x.c == 0 else None
    if x.den or ('pi',) not in ATOM_BY_KEY:
        return None
    pid = ATOM_BY_KEY[('pi',)].id
    if set(x.num.t) == {1 << (8 * pid)}:
        return Fraction(x.num.t[1 << (8 * pid)])
    return None


def f_cos(x):
    x = S(x)
    if x.num is None:
        return Sym.const(NAN, 'f')
    q = pi_multiple(x)
    if q is not None:
        r = _cos_q(q)
        if r is not None:
            return r
    # cos(arccos(y)) etc.
    u = _is_uf(x)
    if u and u[0] == 'arccos':
        return u[1][0]
    if u and u[0] == 'arctan2':
        return u[1][1] / f_sqrt(u[1][0] * u[1][0] + u[1][1] * u[1][1], True)
    # parity: canonical sign
    if x.num is not None and x.c is None and x.num.t[x.num.lead()] < 0:
        x = -x
    return uf('cos', [x])


def f_sin(x):
    x = S(x)
    if x.num is None:
        return Sym.const(NAN, 'f')
    q = pi_multiple(x)
    if q is not None:
        r = _cos_q(Fraction(1, 2) - q)
        if r is not None:
            return r
    if x.c is None and x.num.t[x.num.lead()] < 0:
        return -uf('sin', [-x])
    u = _is_uf(x)
    if u and u[0] == 'arccos':
        c = u[1][0]
        return f_sqrt(1 - c * c)
    if u and u[0] == 'arctan2':
        return u[1][0] / f_sqrt(u[1][0] * u[1][0] + u[1][1] * u[1][1], True)
    return uf('sin', [x])


def _is_uf(x):
    if x.num is None or x.den or len(x.num.t) != 1:
        return None
    (m, c), = x.num.t.items()
    it = mono_items(m)
    if c != 1 or len(it) != 1 or it[0][1] != 1:
        return None
    k = ATOMS[it[0][0]].shadow
    if isinstance(k, tuple) and k and k[0] == 'uf':
        return k[1], k[2]
    return None


def _cos_q(q):
    q = q % 2
    if q > 1:
        q = 2 - q
    tab = {Fraction(0): S(Fraction(1)), Fraction(1, 2): S(Fraction(0)), Fraction(1): S(Fraction(-1)),
           Fraction(1, 3): S(Fraction(1, 2)), Fraction(2, 3): S(Fraction(-1, 2))}
    if q in tab:
        return tab[q]
    if q == Fraction(1, 4):
        return f_sqrt(S(2)) / 2
    if q == Fraction(3, 4):
        return -(f_sqrt(S(2)) / 2)
    if q == Fraction(1, 6):
        return f_sqrt(S(3)) / 2
    if q == Fraction(5, 6):
        return -(f_sqrt(S(3)) / 2)
    s5 = None
    if q.denominator == 5:
        s5 = f_sqrt(S(5))
        if q == Fraction(1, 5):
            return (1 + s5) / 4
        if q == Fraction(2, 5):
            return (s5 - 1) / 4
        if q == Fraction(3, 5):
            return (1 - s5) / 4
        if q == Fraction(4, 5):
            return -(1 + s5) / 4
    if q > Fraction(1, 2):
        return -_cos_q(1 - q)
    # another rational multiple of pi: a number known to 1e-12, with sin^2 + cos^2 = 1
    a, new = new_atom(('cospi', q), 'cos_%d_%d_pi' % (q.numerator, q.denominator), 'f')
    if new:
        set_nonneg(a)
        v = math.cos(math.pi * q.numerator / q.denominator)
        a.defs = [a.z > z3.RealVal(str(Fraction(v - 1e-12))), a.z < z3.RealVal(str(Fraction(v + 1e-12)))]
        set_enc(a, int(Fraction(v - 1e-12) * (1 << ENCB)), int(Fraction(v + 1e-12) * (1 << ENCB)) + 1)
        p = Fraction(1, 2) - q
        if q > Fraction(1, 4) or q.denominator == 10:
            r = _cos_q(p)
            a.defs.append(a.z * a.z + r.z() * r.z() == 1)
            a.deps |= set(r.atoms())
            a.nl = True
            w = 1 - r * r
            if not w.den:
                set_sq(a, w.num)
    return Sym(Poly.atom(a.id), None, 'f')


class _NullCtx:
    """constant folding outside an exploration"""
    cfg = {}
    fixed = {}
    events = set()
    assumed = set()

    def decide(self, b):
        raise Unsupported('symbolic branch outside an exploration')

    def decided(self, b):
        return None

    def concretize(self, s):
        raise Unsupported('concretize outside an exploration')

    def nonzero(self, b):
        return False

    def mark_nonzero(self, b):
        pass

    def sign_known(self, p):
        return None

    def sign_quick(self, x):
        return None

    def known_nonneg(self, x):
        return False

    def decided(self, c):
        return None

    def diff_known(self, d, op):
        return None


CTX = _NullCtx()


def set_ctx(c):
    global CTX
    CTX = c


def _noattr(name):
    def get(self):
        raise AttributeError("'float' object has no attribute '%s'" % name)
    return property(get)


class PlainSym(Sym):
    """a number without the methods of a numpy scalar"""
    __slots__ = ()


for _n in ('dtype', 'shape', 'ndim', 'size', 'T', 'item', 'copy', 'squeeze', 'astype', 'sum', 'max', 'min', 'mean', 'any', 'all'):
    if _n in Sym.__dict__:
        setattr(PlainSym, _n, _noattr(_n))


def plain(x):
    x = S(x)
    y = PlainSym.__new__(PlainSym)
    for a in Sym.__slots__:
        setattr(y, a, getattr(x, a))
    return y
