"""Path exploration: forking on undecided conditions, path conditions, solver queries."""
import time
from fractions import Fraction
import z3
from . import core
from .core import (SB, Sym, Poly, ATOMS, PathAbort, Unsupported, BudgetExceeded, S, b_not, b_and, zb)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.obligations = self.discharged = 0
        self.syntactic = 0
        self.max_query_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            if k == 'max_query_s':
                self.max_query_s = max(self.max_query_s, v)
            else:
                setattr(self, k, getattr(self, k) + v)


def closure(ids):
    """atom ids with everything their definitions mention"""
    seen = set()
    todo = list(ids)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(ATOMS[i].deps)
    return seen


INFTY = 1 << 60


class DBM:
    """closure of the integer difference constraints of a path; answers implied comparisons without the solver"""

    def __init__(self):
        self.ix = {-1: 0}
        self.D = [[0]]
        self.neq = []

    def node(self, a):
        i = self.ix.get(a)
        if i is None:
            i = self.ix[a] = len(self.D)
            for r in self.D:
                r.append(INFTY)
            self.D.append([INFTY] * i + [0])
        return i

    def add(self, lin):
        i, j, c, op, neg = lin
        i, j = self.node(i), self.node(j)
        if op == '<=':
            self.le(i, j, -c) if not neg else self.le(j, i, c - 1)
        elif op == '<':
            self.le(i, j, -c - 1) if not neg else self.le(j, i, c)
        elif not neg:
            self.le(i, j, -c)
            self.le(j, i, c)
        else:
            self.neq.append((i, j, -c))
        ch = True
        while ch:
            ch = False
            for (a, b, v) in self.neq:
                if self.D[a][b] == v:
                    self.le(a, b, v - 1)
                    ch = True
                if self.D[b][a] == -v:
                    self.le(b, a, -v - 1)
                    ch = True

    def le(self, i, j, v):
        D = self.D
        if D[i][j] <= v:
            return
        n = len(D)
        if D[j][i] + v < 0:
            raise PathAbort()
        Dj = D[j]
        for a in range(n):
            Da = D[a]
            x = Da[i]
            if x >= INFTY:
                continue
            x += v
            for b in range(n):
                y = Dj[b]
                if y < INFTY and x + y < Da[b]:
                    Da[b] = x + y

    def known(self, d, op):
        i = self.ix.get(d[0])
        j = self.ix.get(d[1])
        if i is None or j is None:
            return None
        c = -d[2]
        hi = self.D[i][j]
        lo = -self.D[j][i]
        if op == '<=':
            if hi <= c:
                return True
            if lo > c:
                return False
        elif op == '<':
            if hi < c:
                return True
            if lo >= c:
                return False
        else:
            if lo > c or hi < c:
                return False
            if lo == c and hi == c:
                return True
            for (a, b, v) in self.neq:
                if (a == i and b == j and v == c) or (a == j and b == i and v == -c):
                    return False
        return None


class Ctx:
    """one path"""

    def __init__(self, cfg, prefix, stats, deadline, seed=1):
        self.cfg = cfg
        self.prefix = prefix            # list of decisions to replay
        self.trail = []                 # decisions taken
        self.pending = []               # prefixes of alternatives to explore
        self.cons = []                  # SB path constraints
        self.cons_cl = []               # closures of their atoms
        self.stats = stats
        self.deadline = deadline
        self.known = {}                 # z3 ast id -> bool
        self.keep = []
        self.events = set()
        self.assumed = set()
        self.fixed = {}
        self.fresh = {}
        self.nz = set()
        self.signs = {}
        self.inc = None
        self.inc_n = 0
        self.inc_atoms = set()
        self.uncertain = False          # some decision was taken on an 'unknown' answer
        self.seed = seed
        self.inputs = []                # (name, kind, atom)
        self.depth_limit = cfg.get('max_decisions', 4000)
        self.atom_sup = []
        self.on_rng = lambda *a: None
        self.diverged = False
        self.dbm = DBM()

    # ---------------------------------------------------------------- bookkeeping
    def fresh_no(self, name):
        n = self.fresh.get(name, 0)
        self.fresh[name] = n + 1
        return n

    def _push(self, sb):
        if sb is True:
            return
        if sb is False:
            raise PathAbort()
        self.cons.append(sb)
        self.cons_cl.append(None)
        if sb.lin is not None:
            self.dbm.add(sb.lin)
        i = sb.e.get_id()
        self.known[i] = True
        self.keep.append(sb.e)
        if z3.is_not(sb.e):
            self.known[sb.e.arg(0).get_id()] = False
        if z3.is_and(sb.e):
            for ch in sb.e.children():
                self.known[ch.get_id()] = True
                self.keep.append(ch)

    def diff_known(self, d, op):
        return self.dbm.known(d, op)

    def decided(self, sb):
        if not isinstance(sb, SB):
            return bool(sb)
        return self.lookup(sb.e)

    def lookup(self, e):
        i = e.get_id()
        r = self.known.get(i)
        if r is not None:
            return r
        if i in core.REL:
            r = core.by_siblings(self.known, i)
            if r is not None:
                self.known[i] = r
            return r
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.lookup(e.arg(0))
            return None if r is None else not r
        if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
            stop = k == z3.Z3_OP_OR
            all_known = True
            for ch in e.children()[:8]:
                r = self.lookup(ch)
                if r is stop:
                    return stop
                if r is None:
                    all_known = False
            return not stop if all_known and e.num_args() <= 8 else None
        return None

    # ---------------------------------------------------------------- solver
    def _slice(self, ids):
        """(constraints, atoms, nonlinear?) connected with ids"""
        atoms = closure(ids)
        cl = self.cons_cl
        for i, c in enumerate(self.cons):
            if cl[i] is None:
                cl[i] = closure(c.ids)
        left = list(range(len(self.cons)))
        used = []
        changed = True
        while changed and left:
            changed = False
            rest = []
            for i in left:
                if cl[i] & atoms:
                    used.append(i)
                    if not cl[i] <= atoms:
                        atoms |= cl[i]
                        changed = True
                else:
                    rest.append(i)
            left = rest
        nl = any(self.cons[i].nl for i in used) or any(ATOMS[a].nl for a in atoms)
        return used, atoms, nl

    def query(self, sb, timeout, want_model=False, full=False, extra=()):
        """satisfiability of path /\\ sb: 'sat' | 'unsat' | 'unknown' (and a model)"""
        if sb is False:
            return ('unsat', None) if want_model else 'unsat'
        ids = set(sb.ids) if isinstance(sb, SB) else set()
        for x in extra:
            if isinstance(x, SB):
                ids |= x.ids
        used, atoms, nl = self._slice(ids)
        if full:
            used = list(range(len(self.cons)))
            atoms = closure(set().union(*([set(c.ids) for c in self.cons] + [ids])) | {a.id for _, _, a in self.inputs})
            nl = any(c.nl for c in self.cons) or any(ATOMS[a].nl for a in atoms)
        if isinstance(sb, SB):
            nl = nl or sb.nl
        nl = nl or any(isinstance(x, SB) and x.nl for x in extra)
        if not nl and not want_model and not extra and isinstance(sb, SB):
            return self._inc_one(sb, timeout)
        forms = [self.cons[i].e for i in used]
        for a in atoms:
            forms.extend(ATOMS[a].defs)
        if isinstance(sb, SB):
            forms.append(sb.e)
        for x in extra:
            if isinstance(x, SB):
                forms.append(x.e)
            elif not x:
                return ('unsat', None) if want_model else 'unsat'
        t0 = time.time()
        left = self.deadline - t0
        if left <= 0:
            raise BudgetExceeded()
        timeout = min(timeout, max(left, 0.05))
        r, m = solve(forms, atoms, nl, timeout, want_model, self.seed)
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        setattr(st, r, getattr(st, r) + 1)
        return (r, m) if want_model else r

    # ---------------------------------------------------------------- decisions
    def decide(self, sb):
        k = self.lookup(sb.e)
        if k is not None:
            return k
        n = len(self.trail)
        if n > self.depth_limit:
            raise Unsupported('too many decisions on one path')
        h = sb.e.hash()
        if n < len(self.prefix):
            e = self.prefix[n]
            v, h0 = e[0], e[1]
            if h0 != h or len(e) != 2:
                self.diverged = True
                raise Unsupported('replaying a decision prefix diverged')
        else:
            v = self._fork(sb, h)
        self.trail.append((v, h))
        self._push(sb if v else b_not(sb))
        self.known[sb.e.get_id()] = v
        self.keep.append(sb.e)
        return v

    def _fork(self, sb, h):
        to = self.cfg.get('decide_timeout', 2.0)
        if self.linear_inc_ok(sb):
            rt, rf = self._inc_both(sb, to)
        else:
            rt = self.query(sb, to)
            if rt == 'unsat':
                return False
            rf = self.query(b_not(sb), to)
        if rt == 'unsat':
            if rf == 'unsat':
                raise PathAbort()
            return False
        if rf == 'unsat':
            return True
        if 'unknown' in (rt, rf):
            self.uncertain = True
        self.pending.append(self.trail + [(False, h)])
        return True

    def linear_inc_ok(self, sb):
        if sb.nl:
            return False
        _, atoms, nl = self._slice(sb.ids)
        return not nl

    def _inc_sync(self):
        if self.inc is None:
            self.inc = z3.Solver()
            self.inc.set('random_seed', self.seed)
            self.inc_n = 0
        while self.inc_n < len(self.cons):
            c = self.cons[self.inc_n]
            cl = self.cons_cl[self.inc_n]
            if cl is None:
                cl = self.cons_cl[self.inc_n] = closure(c.ids)
            self.inc_n += 1
            if c.nl or any(ATOMS[a].nl for a in cl):
                continue
            self._inc_atoms_add(cl)
            self.inc.add(c.e)

    def _inc_atoms_add(self, cl):
        for a in cl:
            if a not in self.inc_atoms:
                self.inc_atoms.add(a)
                for d in ATOMS[a].defs:
                    self.inc.add(d)

    def _inc_one(self, sb, to):
        self._inc_sync()
        self._inc_atoms_add(closure(sb.ids))
        self.inc.set('timeout', int(to * 1000))
        t0 = time.time()
        if t0 > self.deadline:
            raise BudgetExceeded()
        r = str(self.inc.check(sb.e))
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.solver_s += dt
        self.stats.max_query_s = max(self.stats.max_query_s, dt)
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r

    def _inc_both(self, sb, to):
        self._inc_sync()
        self._inc_atoms_add(closure(sb.ids))
        self.inc.set('timeout', int(to * 1000))
        out = []
        for f in (sb.e, z3.Not(sb.e)):
            t0 = time.time()
            if t0 > self.deadline:
                raise BudgetExceeded()
            r = str(self.inc.check(f))
            dt = time.time() - t0
            self.stats.queries += 1
            self.stats.solver_s += dt
            self.stats.max_query_s = max(self.stats.max_query_s, dt)
            setattr(self.stats, r, getattr(self.stats, r) + 1)
            out.append(r)
            if r == 'unsat' and not out[:-1]:
                # the path is feasible, so the other side is
                return 'unsat', 'sat'
        return out

    def concretize(self, s):
        v = self._concretize(s)
        if s.c is None and not s.den and s.num.is_atom() is not None:
            self.fixed[s.num.is_atom()] = v
        return v

    def _concretize(self, s):
        """a concrete value of an integer term, forking over the feasible ones"""
        if s.c is not None:
            return int(s.c)
        if s.k == 'i' and not s.den:
            d = core.diff_form(s.num)
            if d is not None:
                i, j = self.dbm.ix.get(d[0]), self.dbm.ix.get(d[1])
                if i is not None and j is not None and self.dbm.D[i][j] == -self.dbm.D[j][i]:
                    return self.dbm.D[i][j] + d[2]
        for _ in range(400):
            n = len(self.trail)
            if n < len(self.prefix):
                e = self.prefix[n]
                if e[0] != 'v':
                    self.diverged = True
                    raise Unsupported('replaying a decision prefix diverged')
                _, v, eq = e
                self.trail.append(e)
                c = core.cmp0(s - v, '==')
                self._push(c if eq else b_not(c))
                if eq:
                    return v
                continue
            for f in (2, 8, 20):
                r, m = self.query(S(0) == 0, self.cfg.get('decide_timeout', 2.0) * f, True, extra=self._mention(s))
                if r in ('sat', 'unsat'):
                    break
            if r == 'unsat':
                raise PathAbort()
            if r != 'sat':
                raise Unsupported('cannot concretize an integer')
            v = eval_sym(s, m)
            v = int(v)
            c = core.cmp0(s - v, '==')
            if c is not True:
                alt = self.query(b_not(c), self.cfg.get('decide_timeout', 2.0) * 2)
                if alt != 'unsat':
                    self.pending.append(self.trail + [('v', v, False)])
                    if alt == 'unknown':
                        self.uncertain = True
            self.trail.append(('v', v, True))
            self._push(c)
            return v
        raise Unsupported('too many values of an integer')

    def _mention(self, s):
        return [SB(z3.BoolVal(True), frozenset(s.atoms()), core.nl_of(s))]

    # ---------------------------------------------------------------- facts
    def assume(self, c):
        if isinstance(c, Sym):
            c = c != 0
        if not isinstance(c, SB):
            if not c:
                raise PathAbort()
            return
        k = self.lookup(c.e)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        self._push(c)

    def mark_nonzero(self, b):
        self.nz.add(b.num.key())
        _, fs = core.factor_split(b.num)
        for p, e in fs:
            self.nz.add(p.key())

    def nonzero(self, b):
        s = b.num.sign()
        if s in ('+', '-'):
            return True
        c, fs = core.factor_split(b.num)
        for p, e in fs:
            if not self._nz(p):
                return False
        return True

    def _nz(self, p):
        k = p.key()
        if k in self.nz:
            return True
        if p.sign() in ('+', '-'):
            return True
        e = core.mkcmp(p, '==')
        if isinstance(e, SB):
            d = self.lookup(e.e)
            if d is False:
                self.nz.add(k)
                return True
            if d is True:
                return False
            if self.query(e, self.cfg.get('decide_timeout', 2.0)) == 'unsat':
                self.nz.add(k)
                self.known[e.e.get_id()] = False
                self.keep.append(e.e)
                return True
            return False
        return not e

    def sign_known(self, p):
        """sign of a polynomial known non-zero: '+', '-', None"""
        k = p.key()
        if k in self.signs:
            s = self.signs[k]
            if s:
                return s
            # may have become known
            n = self.signs.get(('n', k))
            if n == len(self.cons):
                return None
        pos = core.mkcmp(p, '<')   # p < 0
        r = None
        if isinstance(pos, SB):
            d = self.lookup(pos.e)
            if d is True:
                r = '-'
            elif d is False:
                r = '+'
            else:
                to = self.cfg.get('sign_timeout', 0.5)
                if self.query(pos, to) == 'unsat':
                    r = '+'
                elif self.query(core.mkcmp(p.scale(Fraction(-1)), '<'), to) == 'unsat':
                    r = '-'
        else:
            r = '-' if pos else '+'
        self.signs[k] = r
        self.signs[('n', k)] = len(self.cons)
        return r

    def sign_quick(self, x):
        if x.den:
            return None
        k = x.num.key()
        s = self.signs.get(k)
        if s:
            return s
        lt = core.mkcmp(x.num, '<')
        if isinstance(lt, SB):
            d = self.lookup(lt.e)
            if d is True:
                return '-'
            if d is False:
                return '+'
        return None

    def sign_linear(self, d):
        """sign of a difference of linear terms, if the path settles it"""
        if not self.cfg.get('minmax_solve') or d.den or core.nl_of(d):
            return None
        lt = core.cmp0(d, '<')
        if not isinstance(lt, SB):
            return '<=' if lt else '>='
        k = self.lookup(lt.e)
        if k is not None:
            return '<=' if k else '>='
        rt, rf = self._inc_both(lt, 0.5) if self.linear_inc_ok(lt) else ('unknown', 'unknown')
        if rt == 'unsat':
            return '>='
        if rf == 'unsat':
            return '<='
        return None

    def known_nonneg(self, x):
        if not x.den:
            s = x.num.sign()
            if s in ('+', '>='):
                return True
        c = core.cmp0(x, '<')
        if not isinstance(c, SB):
            return not c
        d = self.lookup(c.e)
        if d is not None:
            return not d
        if self.cfg.get('sqrt', 'solve') == 'assume':
            return True
        r = self.query(c, self.cfg.get('sqrt_timeout', 1.0))
        if r == 'unsat':
            self.known[c.e.get_id()] = False
            self.keep.append(c.e)
            return True
        return False


# --------------------------------------------------------------------------------------------------
_NL_TACTIC = None


def solve(forms, atoms, nl, timeout, want_model, seed=1):
    allreal = all(ATOMS[a].sort == 'f' for a in atoms)
    ms = max(int(timeout * 1000), 1)
    if not nl:
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', seed)
        s.add(forms)
        r = str(s.check())
        return r, (model_of(s.model(), atoms) if r == 'sat' and want_model else None)
    if allreal:
        plan = [('nlsat', 0.5), ('smt', 0.5)]
    else:
        plan = [('smt', 1.0)]
    for how, frac in plan:
        if how == 'nlsat':
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'purify-arith', 'simplify', 'qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
        else:
            s = z3.SimpleSolver()
        s.set('timeout', max(int(ms * frac), 1))
        try:
            s.set('random_seed', seed)
        except z3.Z3Exception:
            pass
        s.add(forms)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        if r != 'unknown':
            m = None
            if r == 'sat' and want_model:
                m = model_of(s.model(), atoms)
            return r, m
    return 'unknown', None


def z3num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return z3num(v.approx(30))
    return None


def model_of(m, atoms):
    out = {}
    for a in atoms:
        v = m.eval(ATOMS[a].z, model_completion=True)
        f = z3num(v)
        if f is None:
            f = Fraction(0)
        out[a] = f
    return out


def eval_sym(s, m):
    if s.c is not None:
        return s.c
    env = {a: m.get(a, Fraction(0)) for a in s.atoms()}
    n = s.num.eval(env)
    for p, e in s.dens():
        n = n / p.eval(env) ** e
    return n
