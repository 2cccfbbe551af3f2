"""symbolic numbers inside text: str(x) gives a token, float(token) gives x back"""
import re
from fractions import Fraction
from .core import S, Sym, Unsupported

TOKENS = {}
_RE = re.compile('@S(\\d+)@')


def reset():
    TOKENS.clear()


def sym_token(s, spec=''):
    k = len(TOKENS)
    for t, (v, sp) in TOKENS.items():
        if v is s and sp == spec:
            return '@S%d@' % t
    TOKENS[k] = (s, spec)
    return '@S%d@' % k


def has_token(x):
    return '@S' in x


def parse_num(x, kind):
    m = _RE.fullmatch(x.strip())
    if m:
        v, spec = TOKENS[int(m.group(1))]
        # formatting with a precision loses digits: model as an unrelated value within the rounding
        if spec:
            mm = re.fullmatch(r'\.?(\d*)([efgd]?)', spec)
            if not (mm and (mm.group(2) == 'd' or (mm.group(2) in ('g', 'e') and mm.group(1) and int(mm.group(1)) >= 17))):
                from . import core
                d = 6
                if mm and mm.group(1):
                    d = int(mm.group(1))
                r = core.fresh_real('rnd', lambda z: [], [], key=('fmt', v.key(), spec))
                core.CTX.assumed.add('formatted numbers are rounded arbitrarily within one unit of the last place kept')
                if mm and mm.group(2) == 'f':
                    tol = S(Fraction(1, 10 ** d))
                else:
                    tol = core.f_abs(v) * Fraction(1, 10 ** (d - 1)) if d > 0 else S(1)
                core.CTX.assume(r - v <= tol)
                core.CTX.assume(v - r <= tol)
                return r
        from . import arr
        if kind == 'i' and v.k == 'f':
            raise ValueError('invalid literal for int() with base 10: %r' % x)
        return arr.cast(v, kind)
    if has_token(x):
        raise ValueError('could not convert string to float: %r' % x)
    if kind == 'i':
        return S(int(x))
    return S(float(x))
