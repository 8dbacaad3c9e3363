"""Symbolic numbers, rows, columns and tables seen by the extracted code."""
import math
import numbers
import numpy as real_np
from fractions import Fraction
from . import terms as T
from .world import (cur, SBool, mkbool, cmp_formula, f_not, f_and, f_or, TRUE, FALSE, Unsupported)

NAN = real_np.float64('nan')
INF = real_np.float64('inf')


def is_num(x):
    return isinstance(x, (int, float, real_np.integer, real_np.floating, Fraction)) and not isinstance(x, real_np.bool_)


def kind_of(x):
    if isinstance(x, SReal):
        return x.kind
    if isinstance(x, (real_np.floating,)):
        return 'np'
    if isinstance(x, real_np.integer):
        return 'npint'
    if isinstance(x, (bool, int)):
        return 'int'
    return 'py'


def join_kind(a, b, div=False):
    k = (kind_of(a), kind_of(b))
    if 'np' in k:
        return 'np'
    if 'npint' in k:
        return 'np' if div or 'py' in k else 'npint'
    if 'py' in k or div:
        return 'py'
    return 'int'


def np_warn(msg, category='invalid'):
    """numpy's floating point condition: raises under an 'error' warning filter, else continues."""
    w = cur()
    mode = w.np_err.get(category, 'warn')
    if mode == 'raise':
        raise FloatingPointError(msg)
    if mode == 'ignore':
        return
    if w.warn == 'error':
        raise RuntimeWarning(msg)


def issp(x):
    """concrete nan / inf"""
    return is_num(x) and not isinstance(x, (int, real_np.integer, Fraction)) and not math.isfinite(x)


def term(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SBool):
        return T.const(1 if bool(x) else 0)
    if isinstance(x, (bool, real_np.bool_)):
        return T.const(int(x))
    return T.const(x if isinstance(x, (int, Fraction, T.Rat)) else (int(x) if isinstance(x, real_np.integer) else float(x)))


def mk(t, kind='py'):
    """Number for term t: a concrete Python number when constant and integer-kinded, else symbolic."""
    if t.op == 'c' and kind in ('int', 'npint') and t.args[0].denominator == 1:
        return int(t.args[0])
    return SReal(t, kind)


def sign(x):
    """-1, 0 or 1 (decided)."""
    if not isinstance(x, SReal):
        return (x > 0) - (x < 0)
    if cur().decide(cmp_formula('eq', x.t)):
        return 0
    return -1 if cur().decide(cmp_formula('lt', x.t)) else 1


def _other(o):
    return isinstance(o, (SReal, SBool)) or is_num(o) or isinstance(o, real_np.bool_)


class SReal:
    """A finite symbolic number.  kind: 'py' float, 'np' float64, 'int', 'npint'."""
    __slots__ = ('t', 'kind')
    __array_priority__ = 1000
    __array_ufunc__ = None      # numpy scalars defer to our reflected operators

    def __init__(self, t, kind='py'):
        self.t = t
        self.kind = kind

    # arithmetic
    def _bin(self, o, op, rev=False):
        if not _other(o):
            if isinstance(o, real_np.ndarray):
                f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}[op]
                out = SArr(o.shape, dtype=object)
                for i in real_np.ndindex(o.shape):
                    out[i] = f(o[i], self) if rev else f(self, o[i])
                return out
            return NotImplemented
        if issp(o):
            return self._special(o, op, rev)
        a, b = (o, self) if rev else (self, o)
        ta, tb = term(a), term(b)
        t = T.add(ta, tb) if op == '+' else T.sub(ta, tb) if op == '-' else T.mul(ta, tb)
        return mk(t, join_kind(a, b))

    def _special(self, o, op, rev):
        if math.isnan(o):
            return NAN
        if op in '+-':
            return o if op == '+' or rev else -o
        s = sign(self)
        if s == 0:
            np_warn('invalid value encountered')
            return NAN
        return o * s

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)

    def __truediv__(self, o):
        if not _other(o):
            if isinstance(o, real_np.ndarray):
                out = SArr(o.shape, dtype=object)
                for i in real_np.ndindex(o.shape):
                    out[i] = divide(self, o[i])
                return out
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if not _other(o):
            if isinstance(o, real_np.ndarray):
                out = SArr(o.shape, dtype=object)
                for i in real_np.ndindex(o.shape):
                    out[i] = divide(o[i], self)
                return out
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        if not _other(o):
            return NotImplemented
        return floor(divide(self, o), keep=join_kind(self, o))

    def __rfloordiv__(self, o):
        if not _other(o):
            return NotImplemented
        return floor(divide(o, self), keep=join_kind(self, o))

    def __mod__(self, o):
        if not _other(o):
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return '%s'
        if not _other(o):
            return NotImplemented
        return mod(o, self)

    def __neg__(self): return mk(T.neg(self.t), self.kind)
    def __pos__(self): return self

    def __abs__(self):
        return self if not cur().decide(cmp_formula('lt', self.t)) else -self

    def __pow__(self, o, m=None):
        if not _other(o):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        if not _other(o):
            return NotImplemented
        return power(o, self)

    # comparison
    def _cmp(self, o, op):
        if isinstance(o, real_np.ndarray):
            import operator as _op
            fn = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge, '==': _op.eq, '!=': _op.ne}[op]
            out = real_np.empty(o.shape, dtype=bool)
            for i in real_np.ndindex(o.shape):
                out[i] = bool(fn(self, o[i]))
            return out
        if not _other(o):
            return NotImplemented
        if issp(o):
            if math.isnan(o):
                return op == '!='
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        d = T.sub(self.t, term(o))
        if op == '<': f = cmp_formula('lt', d)
        elif op == '<=': f = cmp_formula('le', d)
        elif op == '>': f = f_not(cmp_formula('le', d))
        elif op == '>=': f = f_not(cmp_formula('lt', d))
        elif op == '==': f = cmp_formula('eq', d)
        else: f = f_not(cmp_formula('eq', d))
        return mkbool(f)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return cur().decide(f_not(cmp_formula('eq', self.t)))

    def __hash__(self):
        cur().flag('hash of a symbolic number')

    def __float__(self): cur().flag('symbolic number passed to code without a contract (float)')
    def __int__(self): cur().flag('symbolic number passed to code without a contract (int)')
    def __index__(self): cur().flag('symbolic number used as an index')
    def __complex__(self): cur().flag('complex()')
    def __round__(self, n=0): return round_even(self, n)
    def __floor__(self): return floor(self, 'int')
    def __ceil__(self): return -floor(-self, 'int')
    def __format__(self, spec): return '<sym>'
    def __repr__(self): return 'S[%s]' % T.show(self.t)
    __str__ = __repr__

    # numpy scalar protocol
    def astype(self, *_a, **_k): return self
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    def flatten(self, *_a): return real_np.array([self], dtype=object)
    def conjugate(self): return self
    def sqrt(self): return sqrt(self, True)
    def log(self): return log(self, True)
    def log10(self): return log(self, True) / log_const(10)
    def log2(self): return log(self, True) / log_const(2)
    def exp(self): return ufn('exp', self)
    def sin(self): return ufn('sin', self)
    def cos(self): return ufn('cos', self)
    def tan(self): return ufn('tan', self)
    def arctan(self): return ufn('atan', self)
    def arctan2(self, o): return ufn('atan2', self, o)
    def floor(self): return floor(self, 'np')
    def square(self): return self * self
    def rint(self): return round_even(self, 0)
    def isnan(self): return False
    def round(self, n=0, *_a): return round_even(self, n)
    def radians(self): return self * PI() / 180
    deg2rad = radians
    def degrees(self): return degrees(self)
    rad2deg = degrees

    @property
    def dtype(self): return real_np.dtype(float)
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    @property
    def real(self): return self


class SArr(real_np.ndarray):
    """Array of concrete shape holding (possibly symbolic) float64 numbers; numpy operations on it go
    through the models (HOOK is set by pydv.models)."""
    __array_priority__ = 500
    HOOK = None

    def __new__(cls, shape, dtype=object):
        return super().__new__(cls, shape, dtype=object)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **k):
        return SArr.HOOK.ufunc(ufunc, method, inputs, out, k)

    def __array_function__(self, func, types, args, kwargs):
        return SArr.HOOK.function(func, args, kwargs)

    def astype(self, dtype, *a, **k):
        return SArr.HOOK.astype(self, dtype)

    def _m(name):
        def f(self, *a, **k):
            return SArr.HOOK.method(name, self, a, k)
        return f
    sum = _m('sum'); mean = _m('mean'); std = _m('std'); var = _m('var'); max = _m('max'); min = _m('min')
    any = _m('any'); all = _m('all'); prod = _m('prod'); cumsum = _m('cumsum'); round = _m('round')
    argsort = _m('argsort'); argmax = _m('argmax'); argmin = _m('argmin'); dot = _m('dot'); clip = _m('clip')
    nonzero = _m('nonzero')
    del _m

    def sort(self, *a, **k):
        self[...] = SArr.HOOK.method('sort', self, a, k)


def PI():
    from .world import BOUNDS
    BOUNDS['PI'] = (Fraction(314159, 100000), Fraction(31416, 10000), True)
    return SReal(T.var('PI'), 'py')


def degrees(x):
    return x * SReal(T.div(T.const(180), PI().t), 'py')


def log_const(n):
    return SReal(T.uf('log', T.const(n)), 'py')


def divide(a, b):
    npk = 'np' in (kind_of(a), kind_of(b)) or 'npint' in (kind_of(a), kind_of(b))
    if not isinstance(a, SReal) and not isinstance(b, SReal):
        return _cdiv(a, b)
    if issp(b):
        return NAN if math.isnan(b) else SReal(T.const(0), 'np')
    z = (cur().decide(cmp_formula('eq', term(b))))
    if z:
        if not npk:
            raise ZeroDivisionError('division by zero')
        s = sign(a) if not issp(a) else (0 if math.isnan(a) else 1 if a > 0 else -1)
        if s == 0:
            if not issp(a):
                np_warn('invalid value encountered in divide')
            return NAN
        if not issp(a):
            np_warn('divide by zero encountered in divide', 'divide')
        return INF * s
    if issp(a):
        return NAN if math.isnan(a) else a * sign(b)
    return SReal(T.div(term(a), term(b)), join_kind(a, b, True))


def _cdiv(a, b):
    if b == 0 and ('np' in (kind_of(a), kind_of(b)) or 'npint' in (kind_of(a), kind_of(b))):
        if a == 0 or a != a:
            np_warn('invalid value encountered in divide')
            return NAN
        np_warn('divide by zero', 'divide')
        return INF * (1 if a > 0 else -1)
    return a / b


def sqrt(x, np_like):
    if isinstance(x, (bool, int, float)) or is_num(x):
        if issp(x):
            return x
        if x < 0:
            if not np_like:
                raise ValueError('math domain error')
            np_warn('invalid value encountered in sqrt')
            return NAN
        f = T.frac(x)
        from math import isqrt
        a, b = isqrt(f.numerator), isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return SReal(T.const(Fraction(a, b)), 'np' if np_like else 'py')
        return SReal(T.sqrt_term(T.const(f)), 'np' if np_like else 'py')
    if not isinstance(x, SReal):
        raise TypeError('must be real number, not %s' % type(x).__name__)
    if cur().decide(cmp_formula('lt', x.t)):
        if not np_like:
            raise ValueError('math domain error')
        np_warn('invalid value encountered in sqrt')
        return NAN
    return SReal(T.sqrt_term(x.t), 'np' if np_like else 'py')


def log(x, np_like, fn='log'):
    if not isinstance(x, SReal):
        if not is_num(x):
            raise TypeError('must be real number, not %s' % type(x).__name__)
        if issp(x):
            return x if not (x < 0) else NAN
        x = SReal(T.const(x), kind_of(x))
    s = sign(x)
    if s <= 0:
        if not np_like:
            raise ValueError('math domain error')
        if s == 0:
            np_warn('divide by zero encountered in log', 'divide')
            return -INF
        np_warn('invalid value encountered in log')
        return NAN
    if x.t.op == 'c' and x.t.args[0] == 1:
        return SReal(T.const(0), 'np' if np_like else 'py')
    return SReal(T.uf('log', x.t), 'np' if np_like else 'py')


def ufn(fn, *xs, np_like=True):
    for x in xs:
        if not (isinstance(x, SReal) or is_num(x)):
            raise TypeError('must be real number, not %s' % type(x).__name__)
    if any(issp(x) for x in xs):
        return _ufn_special(fn, xs, np_like)
    ts = [term(x) for x in xs]
    if fn == 'exp' and ts[0].op == 'c' and ts[0].args[0] == 0:
        return 1.0
    if fn in ('sin', 'cos'):
        return SReal(trig(fn, ts[0]), 'np' if np_like else 'py')
    return SReal(T.uf(fn, *ts), 'np' if np_like else 'py')


def trig(fn, t):
    """sine or cosine with the multiples of half a turn taken out of the angle, and a leading sign."""
    try:
        n, d = T.canon(t)
    except T.TooBig:
        return T.uf(fn, t)
    sgn = 1
    if len(d) == 1 and () in d:
        m = ((T.var('PI').aid, 1),)
        q = n.get(m, Fraction(0)) / d[()]
        if T.negative_lead(T.sub(t, T.mul(T.const(q), T.var('PI')))):
            t, q = T.neg(t), -q
            sgn = -1 if fn == 'sin' else 1
        h = math.floor(q * 2)
        if h:
            t = T.sub(t, T.mul(T.const(Fraction(h, 2)), T.var('PI')))
            if h % 2:
                sgn = -sgn if fn == 'cos' else sgn    # cos(x + pi/2) = -sin x, sin(x + pi/2) = cos x
                fn = 'sin' if fn == 'cos' else 'cos'
            if (h - h % 2) // 2 % 2:
                sgn = -sgn
        q = q - Fraction(h, 2)
        if all(k == m for k, v in n.items() if v):         # a multiple of pi, in the first quarter
            if fn == 'sin':
                q = Fraction(1, 2) - q
            from . import fourier
            r = fourier._cos24(int(q * 12)).t if 12 % q.denominator == 0 else T.uf('cos', T.mul(T.const(q), T.var('PI')))
            return r if sgn > 0 else T.neg(r)
    r = T.uf(fn, t)
    return r if sgn > 0 else T.neg(r)


def _ufn_special(fn, xs, np_like):
    if any(issp(x) and math.isnan(x) for x in xs):
        return NAN
    if fn == 'exp':
        return INF if xs[0] > 0 else 0.0
    if fn in ('sin', 'cos', 'tan'):
        if not np_like:
            raise ValueError('math domain error')
        np_warn('invalid value encountered in ' + fn)
        return NAN
    if fn == 'atan':
        return PI() / 2 if xs[0] > 0 else -PI() / 2
    if fn == 'atan2':
        y, x = xs
        k = 'np' if np_like else 'py'
        if issp(y):
            q = 2 if not issp(x) else 1 if x > 0 else 3      # quarters of pi
            q = q if issp(x) else 2
            return SReal(T.mul(T.const(Fraction(q, 4) * (1 if y > 0 else -1)), PI().t), k)
        if x > 0:
            return SReal(T.const(0), k)
        return SReal(T.mul(T.const(1 if not bool(y < 0) else -1), PI().t), k)
    cur().flag('%s of infinity' % fn)


def floor(x, keep='int'):
    if not isinstance(x, SReal):
        if issp(x):
            if keep in ('np', 'npint'):
                return x
            if math.isnan(x):
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        if x is None:
            raise TypeError('must be real number, not NoneType')
        return math.floor(x)
    if x.kind in ('int', 'npint'):
        return x
    if x.t.op == 'c':
        return math.floor(x.t.args[0])
    return SReal(T.uf('floor', x.t), keep)


def mod(a, b):
    if issp(a) or issp(b):
        return NAN
    q = divide(a, b)
    if issp(q):
        return NAN
    return a - b * floor(q, 'np' if 'np' in (kind_of(a), kind_of(b)) else 'int')


def round_even(x, n=0):
    n = 0 if n is None else n
    if not isinstance(x, SReal):
        return round(x, n)
    if not isinstance(n, int):
        cur().flag('symbolic precision')
    if T.negative_lead(x.t):            # rounding is odd
        return -SReal(T.uf('rounde', T.neg(x.t), n), x.kind)
    return SReal(T.uf('rounde', x.t, n), x.kind)


def power(a, b):
    k = join_kind(a, b)
    if isinstance(b, SReal) and b.t.op == 'c':
        b = b.t.args[0] if b.t.args[0].denominator != 1 else int(b.t.args[0])
    if not isinstance(b, SReal):
        if issp(a) and type(b) is int and b > 0:
            return abs(a) if b % 2 == 0 else a
        if issp(b) or issp(a):
            cur().flag('power with infinity')
        fb = T.frac(b if not isinstance(b, real_np.generic) else b.item())
        if fb.denominator == 1:
            n = int(fb)
            if n >= 0:
                return mk(T.powi(term(a), n), k)
            if abs(n) > 12:
                cur().flag('large power')
            return divide(1.0, mk(T.powi(term(a), -n), 'np' if k in ('np', 'npint') else 'py'))
        if fb == Fraction(1, 2):
            if k not in ('np', 'npint') and cur().decide(cmp_formula('lt', term(a))):
                cur().flag('complex power')
            return sqrt(a, k in ('np', 'npint'))
        if fb == Fraction(3, 2):
            return a * power(a, 0.5)
    # general power: positive base only
    if cur().decide(f_not(cmp_formula('lt', T.neg(term(a))))):
        cur().flag('power with non-positive base')
    return SReal(T.uf('pow', term(a), term(b)), 'np' if k in ('np', 'npint') else 'py')


def smax(a, b):
    return b if b > a else a


def smin(a, b):
    return b if b < a else a


# ---- rows, columns, tables ---------------------------------------------------------------------
class RowMask:
    """A row predicate: conjunction (frozenset) of atomic predicates on the generic row.
    An atom is ('eq', column, value) or ('f', key, formula)."""

    def __init__(self, tab, preds):
        self.tab = tab
        self.preds = frozenset(preds)

    def __and__(self, o):
        if isinstance(o, RowMask) and o.tab.root is self.tab.root and o.tab.filters == self.tab.filters:
            return RowMask(self.tab, self.preds | o.preds)
        cur().flag('conjunction of a row mask with something else')

    __rand__ = __and__

    def __invert__(self):
        if len(self.preds) == 1 and next(iter(self.preds))[0] == 'not':
            return RowMask(self.tab, next(iter(self.preds))[1])
        return RowMask(self.tab, [('not', self.preds, '')])

    def __or__(self, o): cur().flag('disjunction of row masks')
    __ror__ = __xor__ = __eq__ = __ne__ = __or__
    __hash__ = object.__hash__
    def __iter__(self): cur().flag('iteration over a row mask')
    def __len__(self): cur().flag('len() of a row mask')
    def __getitem__(self, k): cur().flag('row mask indexing')
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous.')
    @property
    def values(self): return self
    def to_numpy(self, *_a, **_k): return self
    def astype(self, *_a, **_k): return self
    def copy(self): return self
    def reset_index(self, *_a, **_k): return self

    def sum(self, *_a, **_k): return self.tab.filtered(self).nrows()

    def any(self, *_a, **_k): return self.sum() > 0
    def all(self, *_a, **_k): return self.sum() == self.tab.nrows()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        cur().flag('row mask attribute %s' % n)


def pred_key(p):
    if p[0] == 'not':
        return ('not', '', str(sorted(pred_key(q) for q in p[1])), '')
    if p[0] in ('has', 'text', 'in'):
        return (p[0], str(p[1]), str(p[2]), '')
    return (p[0], p[1], str(p[2]), type(p[2]).__name__ if p[0] == 'eq' else '')


class Vec:
    """A column over the (unbounded, symbolic) rows of a table: element term over the generic row,
    the set of columns whose missing cell makes the element missing, and the row filter."""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, tab, t, miss, kind='np'):
        self.tab = tab
        self.t = t
        self.miss = frozenset(miss)
        self.kind = kind

    # elementwise
    def _bin(self, o, fn):
        if isinstance(o, Vec):
            if o.tab.root is not self.tab.root or o.tab.filters != self.tab.filters:
                cur().flag('element-wise operation on columns of different row sets')
            return Vec(self.tab, fn(self.t, o.t), self.miss | o.miss)
        if isinstance(o, (SReal, SBool)) or is_num(o):
            if issp(o):
                cur().flag('column op with nan/inf')
            return Vec(self.tab, fn(self.t, term(o)), self.miss)
        return NotImplemented

    def __add__(self, o): return self._bin(o, T.add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, T.sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: T.sub(b, a))
    def __mul__(self, o): return self._bin(o, T.mul)
    __rmul__ = __mul__
    def __neg__(self): return Vec(self.tab, T.neg(self.t), self.miss)

    def __truediv__(self, o):
        """Row-wise division.  The divisor is assumed non-zero on every row (listed assumption) unless constant."""
        if not isinstance(o, Vec):
            if not (isinstance(o, SReal) or is_num(o)):
                return NotImplemented
            if cur().decide(cmp_formula('eq', term(o))):
                cur().flag('column divided by zero')
        else:
            cur().events.append(('assume', 'row-wise divisor non-zero: %s' % T.show(o.t)))
        return self._bin(o, T.div)

    def __rtruediv__(self, o):
        cur().events.append(('assume', 'row-wise divisor non-zero: %s' % T.show(self.t)))
        return self._bin(o, lambda a, b: T.div(b, a))

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            return Vec(self.tab, T.powi(self.t, n), self.miss)
        cur().flag('column power')

    def __eq__(self, o):
        if isinstance(o, (SReal, SBool)) or is_num(o) or isinstance(o, (str, real_np.str_)):
            col = self.tab.colname(self.t)
            if col is None:
                if isinstance(o, str):
                    cur().flag('string comparison of a computed column')
                f = cmp_formula('eq', T.sub(self.t, term(o)))
                return RowMask(self.tab, [('f', str(f), f)])
            if isinstance(o, SReal):
                cur().flag('filter by symbolic value')
            return RowMask(self.tab, [('eq', col, o)])
        cur().flag('column comparison')

    def __ne__(self, o): cur().flag('column !=')
    def __lt__(self, o): cur().flag('column <')
    __gt__ = __le__ = __ge__ = __lt__
    def __hash__(self): return id(self)

    def astype(self, t=None, *_a, **_k): return Vec(self.tab, self.t, self.miss)
    def copy(self, *_a, **_k): return Vec(self.tab, self.t, self.miss)
    def flatten(self, *_a): return self
    ravel = flatten
    def to_numpy(self, *_a, **_k): return self

    @property
    def values(self): return self
    @property
    def shape(self): return (self.tab.nrows(),)
    @property
    def size(self): return self.tab.nrows()
    @property
    def ndim(self): return 1
    @property
    def dtype(self): return real_np.dtype(float)

    def __len__(self): cur().flag('len() of a symbolic column')
    def __iter__(self): cur().flag('iteration over a symbolic column')
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __float__(self): cur().flag('float(column)')

    def __getitem__(self, k):
        if isinstance(k, RowMask):
            return Vec(self.tab.filtered(k), self.t, self.miss)
        if isinstance(k, NanMask):
            if k.vec.tab.root is self.tab.root and k.neg and k.vec.tab.filters == self.tab.filters:
                return Vec(self.tab, self.t, self.miss | k.vec.miss, 'dropna')
        if isinstance(k, int) and self.tab.colname(self.t):
            return self.tab.first_row(self.tab.colname(self.t), k)
        cur().flag('column indexing')

    # reductions
    def allnan(self):
        return mkbool(self.tab.b_allnan(self.miss))

    def anynan(self):
        if not self.miss:
            return False
        return mkbool(self.tab.b_anynan(self.miss))

    def nansum(self, *_a, **_k):
        if not self.tab.complete and self.miss and bool(self.allnan()):
            return SReal(T.const(0), 'np')
        return SReal(self.tab.sum_term(self.t, self.miss), 'np')

    def sum(self, *_a, **_k):
        if bool(self.anynan()):
            return NAN
        return self.nansum()

    def mean(self, *_a, **_k):
        return self.sum() / self.tab.nrows()

    def count_present(self):
        return SReal(self.tab.sum_term(T.const(1), self.miss), 'npint')


class NanMask:
    def __init__(self, vec, neg=False):
        self.vec = vec
        self.neg = neg

    def __invert__(self): return NanMask(self.vec, not self.neg)
    def all(self, *_a, **_k):
        if self.neg:
            return not bool(self.vec.anynan())
        return self.vec.allnan()
    def any(self, *_a, **_k):
        if self.neg:
            return not bool(self.vec.allnan())
        return self.vec.anynan()
    def sum(self, *_a, **_k):
        c = self.vec.count_present()
        return c if self.neg else self.vec.tab.nrows() - c
    def __bool__(self): raise ValueError('ambiguous')


class ColRef:
    """Position of a named column."""

    def __init__(self, tab, name):
        self.tab = tab
        self.name = name

    def __eq__(self, o): cur().flag('column position compared')
    def __hash__(self): return hash(self.name)
    def __index__(self): cur().flag('column position used as a number')
    def __repr__(self): return 'ColRef(%s)' % self.name


class ColIdx:
    """np.where(columns == name)[0]"""

    def __init__(self, cols, name):
        self.cols = cols
        self.name = name

    @property
    def size(self):
        return 1 if self.cols.present(self.name) else 0

    @property
    def shape(self):
        return (self.size,)

    def __len__(self): return self.size

    def __getitem__(self, k):
        if k in (0, -1):
            if self.size == 0:
                raise IndexError('index 0 is out of bounds for axis 0 with size 0')
            return ColRef(self.cols.tab, self.cols.actual(self.name))
        cur().flag('column index list')

    def __iter__(self):
        if self.size:
            yield self[0]

    def item(self): return self[0]


class ColMask:
    def __init__(self, cols, name):
        self.cols = cols
        self.name = name

    def any(self): return self.cols.present(self.name)
    def nonzero(self): return (ColIdx(self.cols, self.name),)
    def sum(self): return 1 if self.any() else 0
    def __bool__(self): raise ValueError('ambiguous')


class ColNames:
    """The column-name array belonging to a table (contents unknown; presence is decided on demand).
    `ren` maps a new name to the column it now denotes (a renamed private copy); the new names are
    assumed not to occur in the table already."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, tab, ren=None, own=False):
        self.tab = tab
        self.ren = dict(ren or {})
        self.own = own

    def actual(self, n):
        """The table column that name n denotes, or None."""
        n = str(n)
        if n in self.ren:
            return self.ren[n]
        if n in self.ren.values():
            return None
        return n

    def present(self, n):
        a = self.actual(n)
        return a is not None and self.tab.present(a)

    def __eq__(self, o):
        if isinstance(o, str):
            return ColMask(self, o)
        cur().flag('column names compared with %r' % (o,))
    __hash__ = None

    def __contains__(self, n): return self.present(n)
    def tolist(self): return self
    def copy(self, *_a): return ColNames(self.tab, self.ren, True)
    def astype(self, *_a, **_k): return self.copy()
    def get_loc(self, n):
        if not self.present(n):
            raise KeyError(n)
        return ColRef(self.tab, self.actual(n))
    def index(self, n):
        if not self.present(n):
            raise ValueError('%r is not in list' % n)
        return ColRef(self.tab, self.actual(n))
    def __iter__(self): cur().flag('iteration over unknown column names')
    def __len__(self): cur().flag('number of columns')
    @property
    def values(self): return self
    @property
    def size(self): cur().flag('number of columns')
    def __getitem__(self, k): cur().flag('column name by position')
    def __setitem__(self, k, v):
        if isinstance(k, ColMask) and isinstance(v, str):
            a = k.cols.actual(k.name)
            if a is not None and self.tab.present(a):
                if not self.own:
                    cur().mutated.append('columns')
                for n in [n for n, x in self.ren.items() if x == a]:
                    del self.ren[n]
                if v != a:
                    self.ren[str(v)] = a
                    cur().events.append(('assume', 'a column name introduced by renaming is not already in the table'))
            return
        if not self.own:
            cur().mutated.append('columns')
        cur().flag('column names assigned')


class Root:
    """Identity of an input table: names the unknowns.  `layout`: ordered column names when the
    column list is concrete; `nonneg(col)`: is the column known to hold no negative number."""

    def __init__(self, name, columns=None, layout=None, nonneg=None, first=None):
        self.name = name
        self.first = dict(first or {})      # concrete first-row cells
        self.layout = list(layout) if layout is not None else None
        self.columns = columns if columns is not None else (frozenset(self.layout) if layout is not None else None)
        self.nonneg = nonneg or (lambda c: False)


class STable:
    """A table with an arbitrary number of rows (2-D data array plus its column names)."""
    __array_ufunc__ = None
    __array_priority__ = 2000
    ndim = 2

    def __init__(self, root, filters=frozenset(), over=None, arg=False, rename=None, complete=False, names=None):
        self.root = root
        self.filters = frozenset(filters)
        self.over = dict(over or {})    # column -> Vec-like (term, miss) replacing the root's column
        self.arg = arg                  # True: this object is the caller's own table (frame check)
        self.complete = complete        # assume no missing cells
        self.names = list(names) if names is not None else root.layout      # ordered column names when known

    # unknowns
    def present(self, name):
        if name in self.over:
            return self.over[name] is not None
        if self.root.columns is not None:
            return name in self.root.columns
        return cur().decide(('b', ('present', self.root.name, str(name))))

    def cell(self, name):
        return T.var(('cell', self.root.name, str(name)))

    def column(self, name):
        if name in self.over:
            t, miss = self.over[name]
            return Vec(self, t, miss)
        return Vec(self, self.cell(name), () if self.complete else (str(name),))

    def colname(self, t):
        if t.op == 'v' and isinstance(t.args[0], tuple) and t.args[0][0] == 'cell':
            return t.args[0][2]
        return None

    def fkey(self):
        return tuple(sorted(pred_key(p) for p in self.filters))

    def b_allnan(self, miss):
        if self.complete:
            return cmp_formula('eq', term(self.nrows()))
        return ('b', ('allnan', self.root.name, self.fkey(), tuple(sorted(miss))))

    def b_anynan(self, miss):
        if self.complete or not miss:
            return FALSE
        return ('b', ('anynan', self.root.name, self.fkey(), tuple(sorted(miss))))

    def sum_term(self, t, miss):
        """Sum over the rows passing the filter with all `miss` columns present; linear in the
        monomials of the generic row."""
        n, d = T.canon(t)
        isrow = lambda a: _is_row(T._atoms[a])
        drow = any(isrow(a) for m in d for a, _ in m)
        total = T.const(0)
        if drow:
            lead = d[min(d, key=_monokey)]
            d = {m: c / lead for m, c in d.items()}
            n = {m: c / lead for m, c in n.items()}
            dk = _polykey(d)
        for m, c in sorted(n.items()):
            rowp = tuple((a, e) for a, e in m if isrow(a))
            sc = tuple((a, e) for a, e in m if not isrow(a))
            coef = T.const(c)
            for a, e in sc:
                coef = T.mul(coef, T.powi(T._atoms[a], e))
            if not drow:
                name = ('sum', self.root.name, self.fkey(), tuple(sorted(miss)), _monokey(rowp), '1')
                s = T.var(name)
                total = T.add(total, T.mul(coef, s))
            else:
                name = ('sum', self.root.name, self.fkey(), tuple(sorted(miss)), _monokey(rowp), dk)
                total = T.add(total, T.mul(coef, T.var(name)))
            if not drow and all(self.root.nonneg(T._atoms[a].args[0][2]) or e % 2 == 0 for a, e in rowp
                                if T._atoms[a].op == 'v') and all(T._atoms[a].op == 'v' for a, e in rowp):
                from .world import BOUNDS
                BOUNDS[name] = (0, None, False)
                T.NONNEG.add(name)
        if not drow and not (len(d) == 1 and () in d and d[()] == 1):
            total = T.div(total, _poly_term(d))
        return total

    def nrows(self):
        name = ('sum', self.root.name, self.fkey(), (), '1', '1')
        from .world import BOUNDS
        BOUNDS[name] = (0, None, False)
        # a row set is no larger than any weaker filter's row set
        return SReal(T.var(name, True), 'int')

    def filtered(self, mask):
        return STable(self.root, self.filters | mask.preds, self.over, complete=self.complete, names=self.names)

    def first_row(self, name, k):
        """The cell of row k (assumed present) of a table with at least one row."""
        if k != 0:
            cur().flag('access to row %d' % k)
        if term(self.nrows()).op == 'v' and cur().decide(cmp_formula('eq', term(self.nrows()))):
            raise IndexError('index 0 is out of bounds for axis 0 with size 0')
        if name in self.root.first:
            return self.root.first[name]
        cur().events.append(('assume', 'cells read from the first row are present'))
        if name in self.over:
            cur().flag('first row of a computed column')
        n = ('first', self.root.name, self.fkey(), name)
        if self.root.nonneg(name):
            from .world import BOUNDS
            BOUNDS[n] = (0, None, False)
        return SReal(T.var(n), 'np')

    # array protocol used by the code
    @property
    def shape(self): return (self.nrows(), _Opaque('number of columns'))
    @property
    def size(self):
        from .world import BOUNDS
        BOUNDS['columns'] = (1, None, False)
        return SReal(T.mul(self.nrows().t, T.var('columns', True)), 'int')
    def __len__(self): cur().flag('len() of a symbolic table')
    def __iter__(self): cur().flag('iteration over table rows')
    def __bool__(self): raise ValueError('ambiguous truth value')
    def copy(self, *_a, **_k): return STable(self.root, self.filters, self.over, complete=self.complete, names=self.names)
    def astype(self, *_a, **_k): return self.copy()
    def __eq__(self, o): cur().flag('table comparison')
    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, RowMask):
            return self.filtered(k)
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            t = self
            row = None
            if isinstance(r, RowMask):
                t = self.filtered(r)
            elif isinstance(r, (int, real_np.integer)) and not isinstance(r, bool):
                row = int(r)
            elif not (isinstance(r, slice) and r == slice(None)) and r is not Ellipsis:
                cur().flag('row indexing %r' % (r,))
            if isinstance(c, (int, real_np.integer)) and self.names is not None:
                c = ColRef(self, self.names[int(c)])
            if isinstance(c, ColRef):
                if c.tab.root is not self.root:
                    cur().flag('column position of another table')
                if row is not None:
                    return t.first_row(c.name, row)
                return t.column(c.name)
            if c is None and row is not None and self.names is not None and len(self.names) > 1:
                # numpy: row with a new leading axis, an array of more than one element
                return real_np.array([[t.first_row(n, row) for n in self.names]], dtype=object)
            cur().flag('column indexing %r' % (c,))
        if isinstance(k, (int, real_np.integer)) and self.names is not None:
            out = real_np.empty(len(self.names), dtype=object)
            for i, c in enumerate(self.names):
                out[i] = self.first_row(c, int(k))
            return out
        cur().flag('table indexing %r' % (k,))

    def __setitem__(self, k, v):
        if self.arg:
            cur().mutated.append('table')
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], ColRef) and isinstance(k[0], slice) and k[0] == slice(None):
            if isinstance(v, Vec):
                self.over[k[1].name] = (v.t, v.miss)
            else:
                self.over[k[1].name] = (term(v), frozenset())
            return
        cur().flag('table assignment')


class _Opaque:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        cur().flag(self.why)


def _is_row(t):
    if t.op == 'v':
        return isinstance(t.args[0], tuple) and t.args[0][0] == 'cell'
    return any(isinstance(a, T.Term) and any(_is_row(x) for x in T.atoms_of(a)) for a in t.args[1:])


def _atomkey(t):
    if t.op == 'v':
        return t.args[0][2] if isinstance(t.args[0], tuple) and t.args[0][0] == 'cell' else str(t.args[0])
    return T.show(t, 30)


def _monokey(m):
    if not m:
        return '1'
    return '*'.join(sorted('%s^%d' % (_atomkey(T._atoms[a]), e) for a, e in m))


def _polykey(p):
    return '+'.join(sorted('%s:%s' % (c, _monokey(m)) for m, c in p.items()))


_poly_term = T.poly_term


def contains_sym(x, depth=3):
    if isinstance(x, (SReal, SBool, Vec, STable, ColNames, ColIdx, ColMask, RowMask, NanMask, ColRef)):
        return True
    if getattr(x, '__sym__', False):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(contains_sym(y, depth - 1) for y in x.values())
    if isinstance(x, real_np.ndarray) and x.dtype == object:
        return any(contains_sym(y, 0) for y in x.ravel())
    return False
