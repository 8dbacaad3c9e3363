"""Dual-use specifications: the same specification function is run on symbolic column totals
(to state the obligation) and on concrete tables in exact arithmetic (to judge a replay)."""
import math
from fractions import Fraction
import numpy as np
from . import terms as T
from .world import cur, cmp_formula, mkbool
from . import values as V
from .values import SReal


class Missing(Exception):
    """The specified value is the missing value."""


UNDEFINED = (Missing, ZeroDivisionError, ValueError)

PRECISION = 7          # decimals of every reported score


# ---- exact concrete numbers ----------------------------------------------------------------
class Border:
    hit = False          # a comparison or rounding in the last evaluation was too close to call


def _dy(f):
    d = f.denominator
    return (d & (d - 1)) == 0 and d < (1 << 30) and abs(f.numerator) < (1 << 45)


class Q:
    """Concrete specification number: exact Fraction or float; ex = float evaluation in any
    reasonable order is exact too."""
    __slots__ = ('v', 'ex')

    def __init__(self, v, ex=None):
        if not isinstance(v, (Fraction, float)):
            v = Fraction(v) if isinstance(v, int) else float(v)
        if isinstance(v, float) and v == v and abs(v) != math.inf:
            v = Fraction(v)
        self.v = v
        self.ex = (isinstance(v, Fraction) and _dy(v)) if ex is None else ex and isinstance(v, Fraction) and _dy(v)

    @staticmethod
    def of(o):
        if isinstance(o, Q):
            return o
        if isinstance(o, float) and not isinstance(o, np.floating):
            f = Fraction(repr(o))
            return Q(f, _dy(f))
        return Q(o)

    def _b(self, o, fn):
        o = Q.of(o)
        return Q(fn(self.v, o.v), self.ex and o.ex)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return Q(-self.v, self.ex)
    def __abs__(self): return Q(abs(self.v), self.ex)

    def __truediv__(self, o):
        o = Q.of(o)
        o.zero()
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o): return Q.of(o) / self

    def __pow__(self, n):
        if n == 0.5:
            return qsqrt(self)
        return Q(self.v ** n, self.ex)

    def zero(self):
        """Is it zero; marks the evaluation as too close to call when it is only nearly so."""
        if not self.ex and abs(self.v) < 1e-9:
            Border.hit = True
        return self.v == 0

    def _cmp(self, o, fn):
        o = Q.of(o)
        if not (self.ex and o.ex) and abs(self.v - o.v) <= 1e-9 * max(1, abs(self.v)):
            Border.hit = True
        return fn(self.v, o.v)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = None
    def __float__(self): return float(self.v)
    def __repr__(self): return 'Q(%r)' % float(self.v)


def qsqrt(x):
    x = Q.of(x)
    if x.v < 0:
        if not x.ex and x.v > -1e-9:
            Border.hit = True
        raise ValueError('sqrt of a negative number')
    if not x.ex and x.v < 1e-9:
        Border.hit = True
    if isinstance(x.v, Fraction):
        a, b = math.isqrt(x.v.numerator), math.isqrt(x.v.denominator)
        if a * a == x.v.numerator and b * b == x.v.denominator:
            return Q(Fraction(a, b), x.ex)
    return Q(math.sqrt(x.v), False)


# ---- functions usable in both modes ----------------------------------------------------------
def _sym(*xs):
    return any(isinstance(x, (SReal,)) for x in xs) or cur() is not None


def sqrt(x):
    return V.sqrt(x, False) if _sym(x) or cur() is not None and not isinstance(x, Q) else qsqrt(x)


def _conc1(fn):
    def g(x):
        x = Q.of(x)
        return Q(float(fn(float(x.v))), False)
    return g


def log(x):
    if _sym(x):
        return V.log(x, False)
    x = Q.of(x)
    if x.v <= 0:
        raise ValueError('log of a non-positive number')
    if x.v == 1:
        return Q(0) if x.ex else Q(Fraction(0), False)
    return Q(math.log(x.v), False)


def exp(x): return V.ufn('exp', x, np_like=False) if _sym(x) else _conc1(math.exp)(x)
def sin(x): return V.ufn('sin', x, np_like=False) if _sym(x) else _conc1(math.sin)(x)
def cos(x): return V.ufn('cos', x, np_like=False) if _sym(x) else _conc1(math.cos)(x)


def atan2(y, x):
    if _sym(x, y):
        return V.ufn('atan2', y, x, np_like=False)
    return Q(math.atan2(float(Q.of(y).v), float(Q.of(x).v)), False)


def pi():
    return V.PI() if _sym() else Q(math.pi, False)


def uf(name, fn, *xs):
    """Abstract function in proofs, the given function on concrete values."""
    if _sym(*xs):
        return V.ufn(name, *xs, np_like=False)
    return Q(float(fn(*[float(Q.of(x).v) for x in xs])), False)


def rnd(x, d=PRECISION):
    """Half-up decimal rounding."""
    if _sym(x):
        if not isinstance(x, SReal):
            x = SReal(T.const(x), 'py')
        k = 10 ** d
        return SReal(T.div(V.term(V.floor(x * k + T_half(), 'int')), T.const(k)), 'py')
    x = Q.of(x)
    k = 10 ** d
    y = x.v * k + Fraction(1, 2)
    fl = math.floor(y)
    if not x.ex:
        m = min(y - fl, fl + 1 - y)
        if m < max(1e-6, abs(y) * 1e-12):
            Border.hit = True
    return Q(Fraction(fl, k), False)


def T_half():
    return Fraction(1, 2)


def sign_le(a, b):
    return a <= b


def absv(x):
    return abs(x)


def fmod(a, b):
    """a - b*floor(a/b)"""
    if _sym(a, b):
        return V.mod(a, b)
    a, b = Q.of(a), Q.of(b)
    q = a.v / b.v
    if not (a.ex and b.ex) and abs(q - round(q)) < 1e-9:
        Border.hit = True
    return Q(a.v - b.v * math.floor(q), a.ex and b.ex)


# ---- tables -------------------------------------------------------------------------------------
class SymTable:
    """Specification view of a symbolic table: missing-aware column totals."""

    def __init__(self, tab):
        self.tab = tab

    def c(self, col):
        if not self.tab.present(col):
            raise Missing(col)
        v = self.tab.column(col)
        if bool(v.allnan()):
            raise Missing(col)
        return SReal(self.tab.sum_term(v.t, v.miss), 'py')

    def has(self, col):
        return self.tab.present(col)

    def first(self, col):
        if not self.tab.present(col):
            raise Missing(col)
        try:
            return self.tab.first_row(col, 0)
        except IndexError:
            raise Missing(col)

    def partial(self, col):
        """Is some cell missing."""
        return self.tab.present(col) and bool(self.tab.column(col).anynan())

    def empty(self):
        return bool(self.tab.nrows() == 0)

    def count(self, **flags):
        t = self.where(**flags)
        r = t.tab.nrows()
        return SReal(r.t, 'py')

    def where(self, **flags):
        t = self.tab
        for k, v in flags.items():
            t = t.filtered(V.RowMask(t, [('eq', k, v)]))
        return SymTable(t)


class ConcTable:
    def __init__(self, arr, columns):
        self.arr = arr
        self.columns = list(columns)

    def has(self, col):
        return col in self.columns

    def c(self, col):
        if col not in self.columns:
            raise Missing(col)
        vals = [x for x in (float(x) if x is not None else math.nan for x in self.arr[:, self.columns.index(col)]) if x == x]
        if not vals:
            raise Missing(col)
        s = Q(0)
        for x in vals:
            s = s + Q(x)
        return s

    def first(self, col):
        if col not in self.columns or not len(self.arr):
            raise Missing(col)
        v = self.arr[0, self.columns.index(col)]
        if v is None or v != v:
            raise Skip()
        return Q(v)

    def partial(self, col):
        return col in self.columns and any(x is None or x != x for x in self.arr[:, self.columns.index(col)])

    def empty(self):
        return len(self.arr) == 0

    def where(self, **flags):
        keep = [i for i in range(len(self.arr)) if all(self.arr[i, self.columns.index(k)] == v for k, v in flags.items())]
        return ConcTable(self.arr[keep], self.columns)

    def count(self, **flags):
        return Q(len(self.where(**flags).arr))


def evaluate(spec, *args):
    """Value of a specification: None when missing."""
    try:
        return spec(*args)
    except UNDEFINED:
        return None


def agree(got, want, d=PRECISION):
    """Concrete comparison (want: None, Q, bool, str)."""
    if want is None:
        return got is None
    if got is None:
        return False
    if isinstance(want, (str, bool)):
        return got == want
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    w = float(want)
    return abs(g - w) <= 1e-9 + 1e-9 * abs(w)


def conc(spec, *args):
    """(value, too close to call)"""
    Border.hit = False
    v = evaluate(spec, *args)
    return v, Border.hit


class Skip(Exception):
    """The input is outside the specification's precondition: no obligation."""
