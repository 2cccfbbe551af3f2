"""What a harness sees.  The same harness function runs in two modes:

* symbolic: inputs are unconstrained symbolic values (within the stated bounds), the package is the one
  `loader` executes from /repo/src, and check() asks the solver for a violation on the current path;
* concrete: inputs are the values of a solver model, the package is the real one, and check() evaluates
  the condition with a floating-point tolerance.  This is the replay of counterexamples, and also the
  replay of path witnesses that validates the encoding against the implementation."""
import math
import os
import sys
from fractions import Fraction
import numpy as np

REG = {}          # (prop, name) -> Harness
ORDER = []


class Harness:
    def __init__(self, prop, name, fn, cfg, quick, thorough, bounds, budget, known):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.cfg = cfg
        self.quick = quick
        self.thorough = thorough
        self.bounds = bounds
        self.budget = budget
        self.known = known


def H(prop, bounds, cfg=None, quick=({},), thorough=None, budget=60, name=None, known=None):
    """register a harness.  quick/thorough: lists of keyword variants"""
    def deco(fn):
        nm = name or fn.__name__
        h = Harness(prop, nm, fn, dict(cfg or {}), list(quick), list(thorough if thorough is not None else quick), bounds, budget, known)
        assert (prop, nm) not in REG, (prop, nm)
        REG[(prop, nm)] = h
        ORDER.append((prop, nm))
        return fn
    return deco


# --------------------------------------------------------------------------------------------------
class F:
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args


TRUE = F('b', True)
FALSE = F('b', False)


def conjuncts(f):
    if f.op == 'and':
        for a in f.args:
            yield from conjuncts(a)
    else:
        yield f


class Skip(Exception):
    """concrete mode: the input does not satisfy an assumption"""


class Violated(Exception):
    pass


class Base:
    TRUE = TRUE
    FALSE = FALSE

    def b(self, x):
        return F('b', x)

    def f(self, x):
        return x if isinstance(x, F) else F('b', x)

    def and_(self, *fs):
        fs = fs[0] if len(fs) == 1 and isinstance(fs[0], (list, tuple)) else fs
        return F('and', *[self.f(x) for x in fs])

    def or_(self, *fs):
        fs = fs[0] if len(fs) == 1 and isinstance(fs[0], (list, tuple)) else fs
        return F('or', *[self.f(x) for x in fs])

    def not_(self, a):
        return F('not', self.f(a))

    def implies(self, a, b):
        return F('or', F('not', self.f(a)), self.f(b))

    def iff(self, a, b):
        a, b = self.f(a), self.f(b)
        return F('and', F('or', F('not', a), b), F('or', a, F('not', b)))

    def _cmp(self, op, a, b):
        if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
            return F(op, a, b)
        a, b = self.arr(a), self.arr(b)
        if a.ndim and b.ndim and a.shape != b.shape:
            return FALSE
        sh = a.shape if a.ndim else b.shape
        la = self.items(a) if a.ndim else None
        lb = self.items(b) if b.ndim else None
        n = int(np.prod(sh)) if sh else 1
        return F('and', *[F(op, la[i] if la is not None else a.item(), lb[i] if lb is not None else b.item()) for i in range(n)])

    def eq(self, a, b):
        return self._cmp('eq', a, b)

    def le(self, a, b):
        return self._cmp('le', a, b)

    def lt(self, a, b):
        return self._cmp('lt', a, b)

    def ge(self, a, b):
        return self._cmp('le', b, a)

    def gt(self, a, b):
        return self._cmp('lt', b, a)

    def all(self, xs):
        return self.and_(*list(xs)) if not isinstance(xs, np.ndarray) else self.and_(*self.items(xs))

    def any(self, xs):
        return self.or_(*list(xs)) if not isinstance(xs, np.ndarray) else self.or_(*self.items(xs))

    def det(self, M):
        n = len(M)
        if n == 1:
            return M[0][0]
        s = 0
        for j in range(n):
            m = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
            t = M[0][j] * self.det(m)
            s = s + t if j % 2 == 0 else s - t
        return s

    def dot(self, a, b):
        s = 0
        for x, y in zip(a, b):
            s = s + x * y
        return s

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def sub(self, a, b):
        return [x - y for x, y in zip(a, b)]

    def add(self, a, b):
        return [x + y for x, y in zip(a, b)]

    def scale(self, s, a):
        return [s * x for x in a]

    def intmat(self, name, shape, lo, hi):
        return self.ints(name, shape, lo, hi)


# --------------------------------------------------------------------------------------------------
class SymC(Base):
    mode = 'sym'
    whole = 0
    of = ()
    # unit of a check: a lambda, used for the tolerance of replays only

    def __init__(self, g, ctx, unit):
        from . import core, arr
        self.core = core
        self._arr = arr
        self.g = g
        self.np = g.__loader_obj__.np
        self.sp = g.__loader_obj__.mods['scipy.sparse']
        self.ctx = ctx
        self.unit = unit
        self.checked = 0
        self._memo = {}
        self.labels = {}
        self.fail = None
        self.inconclusive = []
        self.thorough = unit.get('tier') == 'thorough'
        self.pin = unit.get('pin')
        self.pinned = {}
        ctx.on_rng = self._on_rng

    # inputs
    def _new(self, name, kind):
        a, new = self.core.new_atom(('in', name), name, kind)
        if new:
            self.ctx.inputs.append((name, kind, a))
        return self.core.Sym(self.core.Poly.atom(a.id), None, kind)

    def _on_rng(self, name, atom, kind):
        self.ctx.inputs.append((name, kind, atom))

    def _pin(self, name, lo, hi):
        """narrowed runs fix all but a few inputs"""
        import random
        seed, free = self.pin
        scale = (Fraction(1), Fraction(1), Fraction(1, 5000), Fraction(100))[seed % 4]
        r = random.Random('%s %s' % (seed, name))
        v = Fraction(r.randint(-12, 12), r.choice((1, 2, 4))) * scale / 4
        if lo is not None and hi is not None:
            v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(r.randint(0, 16), 16)
        elif lo is not None:
            v = Fraction(lo) + abs(v)
        elif hi is not None:
            v = Fraction(hi) - abs(v)
        self.pinned[name] = str(v)
        return self.core.Sym.const(v, 'f')

    def real(self, name, lo=None, hi=None):
        if self.pin is not None and name not in self.pin[1]:
            return self._pin(name, lo, hi)
        x = self._new(name, 'f')
        if lo is not None:
            self.ctx.assume(x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
        return x

    def int(self, name, lo=None, hi=None):
        x = self._new(name, 'i')
        if lo is not None:
            self.ctx.assume(x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def concrete_int(self, name, lo, hi):
        return self.ctx.concretize(self.int(name, lo, hi))

    def reals(self, name, *shape, lo=None, hi=None):
        if self.whole and (not self.of or name in self.of):
            return self.ints(name, shape, -self.whole if lo is None else max(lo, -self.whole), self.whole if hi is None else min(hi, self.whole))
        out = np.empty(shape, dtype=object)
        for j in np.ndindex(*shape):
            out[j] = self.real(name + '_' + '_'.join(map(str, j)), lo, hi)
        return self._arr.mk(out, 'f')

    def ints(self, name, shape, lo=None, hi=None):
        out = np.empty(shape, dtype=object)
        for j in np.ndindex(*shape):
            out[j] = self.int(name + '_' + '_'.join(map(str, j)), lo, hi)
        return self._arr.mk(out, 'i')

    def array(self, x, dtype=None):
        return self._arr.np_array(x, dtype=dtype)

    def arr(self, x):
        if hasattr(x, '_is_ssp'):
            x = x.toarray()
        return self._arr.asarr(x)

    mat = arr

    def items(self, a):
        return list(np.asarray(self.arr(a).raw, dtype=object).reshape(-1))

    def lists(self, a):
        return self.arr(a).raw.tolist()

    def plain(self, x):
        """a number that is not a numpy scalar"""
        return self.core.plain(x)

    def frac(self, p, q):
        return Fraction(p, q)

    def concretize(self, x):
        return self.ctx.concretize(self.core.S(x))

    def sqrt(self, x):
        return self.core.f_sqrt(self.core.S(x))

    def cos(self, x):
        return self.core.f_cos(self.core.S(x))

    def sin(self, x):
        return self.core.f_sin(self.core.S(x))

    @property
    def pi(self):
        return self.core.pi_sym()

    def sos(self, xs):
        return self.core.register_sos(list(xs))

    def nonneg(self, x):
        """assume x >= 0, and remember it syntactically"""
        x = self.core.S(x)
        self.ctx.assume(x >= 0)
        if x.c is None and not x.den:
            self.core.NONNEG.add(x.num.key())
            self.core.factor_split(x.num)
        return x

    def event(self, name):
        return name in self.ctx.events

    def events(self, now=None):
        if now is not None:
            self.ctx.events.clear()
            self.ctx.events.update(now)
        return set(self.ctx.events)

    def finite(self, a):
        """no nan/inf in a (real arithmetic knows them only from divisions by an exact zero)"""
        return F('b', all(getattr(x, 'num', True) is not None for x in self.items(a)))

    def isnan(self, x):
        return getattr(x, 'num', True) is None

    def decide(self, f):
        """truth of f on this path (forks)"""
        return bool(self.tr(self.f(f)))

    def b2i(self, f):
        return self.core.toint(self.tr(self.f(f))) if isinstance(self.tr(self.f(f)), self.core.SB) else int(self.tr(self.f(f)))

    # formulas
    def memo(self, f, kind, m, join, rec, *a):
        """join(rec(parts of f)), once per formula object: formulas share parts, and their trees can be exponentially larger"""
        k = (id(f), kind, id(m))
        e = self._memo.get(k)
        if e is None or e[0] is not f or e[1] is not m:
            if len(self._memo) > 20000:
                self._memo.clear()
            e = self._memo[k] = (f, m, join(*[rec(x, *a) for x in f.args]))
        return e[2]

    def tr(self, f):
        """exact truth of f"""
        co = self.core
        if f.op == 'b':
            x = f.args[0]
            if isinstance(x, self._arr.SArr):
                x = x.all() if x.ndim else x.item()
            if isinstance(x, co.Sym):
                return x != 0
            return x if isinstance(x, co.SB) else bool(x)
        if f.op == 'and' or f.op == 'or':
            return self.memo(f, 't', 0, co.b_and if f.op == 'and' else co.b_or, self.tr)
        if f.op == 'not':
            return co.b_not(self.tr(f.args[0]))
        a, b = co.S(f.args[0]), co.S(f.args[1])
        if f.op == 'eq':
            return a == b
        if f.op == 'le':
            return a <= b
        return a < b

    def viol(self, f, m):
        co = self.core
        if f.op == 'b':
            return co.b_not(self.tr(f))
        if f.op == 'and' or f.op == 'or':
            return self.memo(f, 'v', m, co.b_or if f.op == 'and' else co.b_and, self.viol, m)
        if f.op == 'not':
            return self.strong(f.args[0], m)
        a, b = co.S(f.args[0]), co.S(f.args[1])
        if a.num is None or b.num is None:
            return co.b_not(self.tr(f))
        if f.op == 'eq':
            if not m:
                return a != b
            return co.b_or(a - b > m, b - a > m)
        if f.op == 'le':
            return a > b + m
        return a >= b + m

    def strong(self, f, m):
        co = self.core
        if f.op == 'b':
            return self.tr(f)
        if f.op == 'and' or f.op == 'or':
            return self.memo(f, 's', m, co.b_and if f.op == 'and' else co.b_or, self.strong, m)
        if f.op == 'not':
            return self.viol(f.args[0], m)
        a, b = co.S(f.args[0]), co.S(f.args[1])
        if a.num is None or b.num is None:
            return self.tr(f)
        if f.op == 'eq':
            return a == b
        if f.op == 'le':
            return a <= b - m
        return a < b - m

    def assume(self, cond):
        """not retroactive: place before the code it constrains"""
        for cj in conjuncts(self.f(cond)):
            t = self.tr(cj)
            if isinstance(t, self.core.SB):
                self.ctx.assume(t)
            elif not t:
                raise self.core.PathAbort()

    def feasible(self):
        if self.ctx.query(self.core.S(0) == 0, 5.0, full=True) == 'unsat':
            raise self.core.PathAbort()

    def check(self, cond, label, unit=None):
        cond = self.f(cond)
        st = self.ctx.stats
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        todo = []
        for cj in conjuncts(cond):
            st.obligations += 1
            v = self.viol(cj, 0)
            if v is False:
                st.discharged += 1
                st.syntactic += 1
                continue
            todo.append((cj, v))
        if len(todo) > 1 and all(isinstance(v, self.core.SB) and not v.nl for _, v in todo):
            # linear: one query for the disjunction of the violations
            if self.ctx.query(self.core.b_or(*[v for _, v in todo]), self.ctx.cfg.get('check_timeout', 10.0)) == 'unsat':
                st.discharged += len(todo)
                return
        for cj, v in todo:
            if not isinstance(v, self.core.SB):
                r = 'sat' if v else 'unsat'
            else:
                d = self.ctx.lookup(v.e)
                if d is False:
                    r = 'unsat'
                elif d is True:
                    r = 'sat'
                else:
                    r = self.ctx.query(v, self.ctx.cfg.get('check_timeout', 10.0))
            if r == 'unsat':
                st.discharged += 1
                continue
            if r == 'unknown':
                self.inconclusive.append((label, 'solver gave no answer'))
                # a counterexample may still be found
            self.candidate(label, cj, r)

    def candidate(self, label, cj, r):
        models = []
        for margin, box, to in ((Fraction(1, 100), 4, 8), (Fraction(1, 100000), 50, 8), (Fraction(1, 10**6), None, 8), (0, None, 10)):
            v = self.viol(cj, margin)
            if v is False:
                continue
            extra = self.boxes(box)
            rr, m = self.ctx.query(v if isinstance(v, self.core.SB) else (self.core.S(0) == 0), to, want_model=True, full=True, extra=extra)
            if rr == 'sat':
                models.append(self.export(m))
                if len(models) >= 2:
                    break
            elif rr == 'unsat' and margin == 0 and box is None:
                if not models:
                    # the path itself is infeasible (a decision was taken on an unknown answer)
                    raise self.core.PathAbort()
        if not models:
            if r == 'sat':
                self.inconclusive.append((label, 'violated in exact arithmetic, no full model found'))
            return
        self.report(label, models, cj)

    def exact(self, cj):
        """a counterexample without a margin, of short binary fractions: the real code computes it without rounding"""
        from z3 import Int, ToReal, And
        if any(16 % Fraction(x).denominator or abs(Fraction(x)) > 1000 for x in self.pinned.values()):
            return []
        v = self.viol(cj, 0)
        extra = list(self.boxes(100))
        for n, k, a in self.ctx.inputs:
            if k == 'f':
                extra.append(self.core.SB(And(a.z * 16 == ToReal(Int('short!%d' % a.id))), frozenset([a.id])))
        rr, m = self.ctx.query(v if isinstance(v, self.core.SB) else (self.core.S(0) == 0), 8, want_model=True, full=True, extra=tuple(extra))
        return [self.export(m)] if rr == 'sat' else []

    def report(self, label, models, cj=None):
        ok = self.unit['replay'](label, models)
        if ok is None and cj is not None and self.ctx.cfg.get('exact'):
            models = self.exact(cj)
            ok = models and self.unit['replay'](label, models, 0) or None
        if ok is not None:
            raise Found(label, ok)
        self.inconclusive.append((label, 'solver counterexample did not reproduce on the real code'))
        if len(self.inconclusive) > 40:
            raise self.core.Unsupported('too many unreproduced counterexamples')

    def boxes(self, box):
        if box is None:
            return ()
        from z3 import And
        out = []
        for n, k, a in self.ctx.inputs:
            if k == 'f':
                out.append(self.core.SB(And(a.z <= box, a.z >= -box), frozenset([a.id])))
        return out

    def export(self, m):
        return dict(self.pinned, **{n: (int(m.get(a.id, 0)) if k == 'i' else str(m.get(a.id, Fraction(0)))) for n, k, a in self.ctx.inputs})

    def model(self, timeout=5.0):
        """a witness of the current path, preferring small values"""
        for box in (4, None):
            r, m = self.ctx.query(self.core.S(0) == 0, timeout, want_model=True, full=True, extra=self.boxes(box))
            if r == 'sat':
                return self.export(m)
            if r == 'unsat' and box is None:
                raise self.core.PathAbort()
        return None


class Found(BaseException):
    def __init__(self, label, info):
        super().__init__(label)
        self.label = label
        self.info = info


# --------------------------------------------------------------------------------------------------
class ReplayRng:
    """the draws of the model, in order"""

    def __init__(self, model):
        self.m = model
        self.n = {}

    def _next(self, name, kind):
        i = self.n.get(name, 0)
        self.n[name] = i + 1
        v = self.m.get('%s#%d' % (name, i))
        if v is None:
            raise Skip('more random draws than in the model')
        return int(v) if kind == 'i' else tofloat(v)

    def _draw(self, name, size):
        if size is None:
            return self._next(name, 'f')
        if isinstance(size, (int, np.integer)):
            size = (size,)
        out = np.zeros(tuple(int(s) for s in size))
        for j in np.ndindex(out.shape):
            out[j] = self._next(name, 'f')
        return out

    def random(self, size=None, **k):
        return self._draw('rnd', size)

    random_sample = random

    def rand(self, *size):
        return self._draw('rnd', size or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        return np.asarray(low) + (np.asarray(high) - np.asarray(low)) * self._draw('rnd', size)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.choice(np.arange(low, high + (1 if endpoint else 0)), size)

    randint = integers

    def choice(self, a, size=None, replace=True, p=None, **k):
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None and abs(np.sum(p) - 1) > 1e-6:
            raise ValueError('probabilities do not sum to 1')
        if size is None:
            return vals[self._next('pick', 'i')]
        if isinstance(size, (int, np.integer)):
            size = (size,)
        out = np.empty(tuple(int(s) for s in size), dtype=vals.dtype)
        for j in np.ndindex(out.shape):
            out[j] = vals[self._next('pick', 'i')]
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw('nrm', size) * scale + loc

    def standard_normal(self, size=None, **k):
        return self.normal(size=size)

    def randn(self, *size):
        return self.normal(size=size or None)


def tofloat(v):
    if isinstance(v, str):
        v = Fraction(v)
    return float(v)


class ConC(Base):
    mode = 'conc'
    whole = 0
    of = ()

    floor = 1.0

    def __init__(self, g, model, tol=1e-6, thorough=False):
        self.g = g
        self.np = np
        import scipy.sparse
        self.sp = scipy.sparse
        self.m = model
        self.tol = tol
        self.checked = 0
        self.bad = []
        self.thorough = thorough
        self._saved = None

    # random numbers
    def __enter__(self):
        rr = ReplayRng(self.m)
        names = ('random', 'rand', 'uniform', 'randint', 'choice', 'normal', 'randn', 'standard_normal', 'random_sample')
        self._saved = {n: getattr(np.random, n) for n in names + ('default_rng', 'seed', 'RandomState')}
        for n in names:
            setattr(np.random, n, getattr(rr, n))
        np.random.default_rng = lambda *a, **k: rr
        np.random.RandomState = lambda *a, **k: rr
        np.random.seed = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        for n, v in self._saved.items():
            setattr(np.random, n, v)

    def real(self, name, lo=None, hi=None):
        return np.float64(tofloat(self.m.get(name, 0)))

    def int(self, name, lo=None, hi=None):
        return int(self.m.get(name, lo or 0))

    concrete_int = int

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def reals(self, name, *shape, lo=None, hi=None):
        if self.whole and (not self.of or name in self.of):
            return self.ints(name, shape)
        out = np.zeros(shape)
        for j in np.ndindex(*shape):
            out[j] = self.real(name + '_' + '_'.join(map(str, j)))
        return out

    def ints(self, name, shape, lo=None, hi=None):
        out = np.zeros(shape, dtype=np.int64)
        for j in np.ndindex(*shape):
            out[j] = self.int(name + '_' + '_'.join(map(str, j)), lo, hi)
        return out

    def array(self, x, dtype=None):
        def fl(v):
            if isinstance(v, Fraction):
                return float(v)
            if isinstance(v, (list, tuple)):
                return [fl(u) for u in v]
            return v
        return np.array(fl(x), dtype={'f': float, 'i': int, 'b': bool}.get(dtype, dtype))

    def arr(self, x):
        if hasattr(x, 'toarray'):
            x = x.toarray()
        return np.asarray(x)

    mat = arr

    def items(self, a):
        return list(self.arr(a).reshape(-1))

    def lists(self, a):
        return self.arr(a).tolist()

    def plain(self, x):
        return float(x)

    def frac(self, p, q):
        return p / q

    def concretize(self, x):
        return int(x)

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    pi = math.pi

    def sos(self, xs):
        return sum(x * x for x in xs)

    def nonneg(self, x):
        if x < -1e-9:
            raise Skip('assumption')
        return x

    def event(self, name):
        return False

    def events(self, now=None):
        return set()

    def finite(self, a):
        return F('b', bool(np.all(np.isfinite(np.asarray(self.arr(a), dtype=float)))))

    def isnan(self, x):
        return not np.isfinite(x)

    def feasible(self):
        pass

    def decide(self, f):
        return self._dec(self.f(f))

    def _dec(self, f):
        """two-valued: near-equal numbers count as equal"""
        if f.op == 'and':
            return all(self._dec(a) for a in f.args)
        if f.op == 'or':
            return any(self._dec(a) for a in f.args)
        if f.op == 'not':
            return not self._dec(f.args[0])
        return self.holds(f, 1e-9 if f.op == 'lt' else -1e-9)

    def b2i(self, f):
        return int(self._dec(self.f(f)))

    def _sc(self, a, b):
        s = max(self.floor, abs(a), abs(b))
        return s if s == s and s != float('inf') else 1.0

    def holds(self, f, t, neg=False):
        """holds robustly (t > 0 strengthens comparisons, t < 0 weakens them)"""
        if f.op == 'b':
            return bool(np.all(f.args[0]))
        if f.op == 'and':
            return all(self.holds(a, t, neg) for a in f.args)
        if f.op == 'or':
            return any(self.holds(a, t, neg) for a in f.args)
        if f.op == 'not':
            return not self.holds(f.args[0], -t, not neg)
        a, b = f.args[0], f.args[1]
        if isinstance(a, (int, np.integer, bool, np.bool_)) and isinstance(b, (int, np.integer, bool, np.bool_)):
            return {'eq': a == b, 'le': a <= b, 'lt': a < b}[f.op]
        a, b = float(a), float(b)
        if t == 0 and not neg and f.op in ('eq', 'le') and abs(a - b) <= 1e-12 * self._sc(a, b):
            # an exact replay: roots and angles are rounded all the same
            return True
        if f.op == 'eq':
            # never holds robustly: strengthened only to near-equality
            if a == b:
                return True
            return bool(abs(a - b) <= (1e-9 if t > 0 else -t) * self._sc(a, b))
        d = t * self._sc(a, b)
        if f.op == 'le':
            return bool(a <= b - d)
        return bool(a < b - d) if t >= 0 else bool(a <= b - d)

    def assume(self, cond):
        if not self.holds(self.f(cond), -1e-9):
            raise Skip('assumption')

    def check(self, cond, label, unit=None):
        self.checked += 1
        cond = self.f(cond)
        self.floor = 1.0
        if unit is not None:
            # the size below which a difference is rounding
            self.floor = min(1.0, abs(float(unit())))
        try:
            for cj in conjuncts(cond):
                if not self.holds(cj, -self.tol):
                    self.bad.append((label, show(cj)))
                    return
        finally:
            self.floor = 1.0


def show(f):
    def sv(x):
        s = repr(x)
        return s if len(s) < 60 else s[:57] + '...'
    if f.op in ('and', 'or'):
        return '(' + (' %s ' % f.op).join(show(a) for a in f.args[:6]) + ')'
    if f.op == 'not':
        return 'not ' + show(f.args[0])
    if f.op == 'b':
        return sv(f.args[0])
    return '%s %s %s' % (sv(f.args[0]), {'eq': '==', 'le': '<=', 'lt': '<'}[f.op], sv(f.args[1]))


def run(h, c, variant):
    """'whole': the matrices of coordinates hold integers up to this size and have an integer type ('of': only these ones)"""
    variant = dict(variant)
    c.whole = variant.pop('whole', 0)
    c.of = variant.pop('of', ())
    h.fn(c, **variant)


def run_concrete(h, variant, model, g, tol=1e-6, thorough=False):
    """-> (status, details): 'ok' | 'skip' | 'violated'"""
    import warnings
    c = ConC(g, model, tol, thorough)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with c:
            try:
                run(h, c, variant)
            except Skip as e:
                if c.bad:
                    return 'violated', c.bad, c
                return 'skip', str(e), c
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = ''
                inrepo = False
                for fr in tb:
                    if 'gpytoolbox' in fr.filename:
                        inrepo = True
                        where = '%s:%s' % (os.path.basename(fr.filename), fr.lineno)
                if not inrepo:
                    return 'violated', c.bad + [('the result has the promised form', '%s: %s' % (type(e).__name__, e))], c
                return 'violated', c.bad + [('raises', '%s: %s (%s)' % (type(e).__name__, e, where))], c
    if c.bad:
        return 'violated', c.bad, c
    return 'ok', None, c
