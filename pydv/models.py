"""Contracts (models) of the libraries the code calls: numpy, math, warnings, statistics, builtins.

Every entry states what the real library function does on the modelled values; a call that no
model covers while carrying symbolic data raises Unsupported, so nothing is silently assumed.
On purely concrete arguments the real library function is called.
"""
import builtins as _bi
import math as _math
import types
import statistics as _st
import warnings as _warnings
import numpy as real_np
from . import terms as T
from .world import cur, SBool, mkbool, cmp_formula, f_and, f_or, f_not, TRUE, FALSE, Unsupported
from .values import *
from . import values as V


def _elementwise(fn, x):
    if isinstance(x, real_np.ndarray):
        out = SArr(x.shape)
        for i in real_np.ndindex(x.shape):
            out[i] = fn(x[i])
        return out
    if isinstance(x, (list, tuple)):
        return _elementwise(fn, to_arr(x))
    return fn(x)


def to_arr(x):
    """Concrete-shape object array (nested lists of symbolic numbers)."""
    if isinstance(x, real_np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, Vec) for e in x):
            cur().flag('array of columns')
        rows = [to_arr(e) if isinstance(e, (list, tuple, real_np.ndarray)) else e for e in x]
        if rows and all(isinstance(r, real_np.ndarray) for r in rows):
            if len({r.shape for r in rows}) == 1:
                out = SArr((len(rows),) + rows[0].shape)
                for i, r in enumerate(rows):
                    out[i] = raw(r)
                return out
        out = SArr(len(x))
        for i, e in enumerate(x):
            out[i] = e
        return out
    return x


def raw(x):
    return x.view(real_np.ndarray) if isinstance(x, SArr) else x


def npify(a):
    """Elements as numpy holds them: floats unless the array is of integers or holds other objects."""
    if not isinstance(a, SArr):
        return a
    flat = list(raw(a).ravel())
    if not all(isinstance(e, SReal) or is_num(e) or isinstance(e, (bool, real_np.bool_, SBool)) for e in flat):
        if all(isinstance(e, (SReal, str)) or e is None or is_num(e) for e in flat):
            return a.view(real_np.ndarray)      # object array: Python arithmetic on the elements
        return a
    if all(isinstance(e, (bool, real_np.bool_, SBool)) for e in flat):
        return _elementwise(bool, a).view(real_np.ndarray).astype(bool)
    k = 'npint' if all(V.kind_of(e) in ('int', 'npint') for e in flat) else 'np'
    return _elementwise(lambda e: e if issp(e) else SReal(V.term(e), k), a)


def _bcast(fn, *xs):
    """Apply a scalar function over broadcast concrete-shape operands."""
    if any(isinstance(x, (real_np.ndarray, list, tuple)) for x in xs):
        arrs = [to_arr(x) if isinstance(x, (list, tuple)) else x for x in xs]
        obj = []
        for a in arrs:
            if isinstance(a, real_np.ndarray):
                obj.append(a)
            else:
                o = real_np.empty((), dtype=object); o[()] = a
                obj.append(o)
        bs = real_np.broadcast_arrays(*[raw(o) for o in obj])
        out = SArr(bs[0].shape)
        for i in real_np.ndindex(out.shape):
            out[i] = fn(*[b[i] for b in bs])
        return out
    return fn(*xs)


def _isnan1(x):
    if isinstance(x, SReal):
        return False
    if isinstance(x, fourier.SCpx):
        return _isnan1(x.real) or _isnan1(x.imag)
    if x is None or isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return bool(real_np.isnan(x))


def _irrational(x):
    """A plain number whose root is kept exact while a path is explored."""
    return cur() is not None and type(x) in (int, float, T.Rat, real_np.float64, real_np.int64) and 0 <= x < 1e15 and _math.sqrt(x) % 1 != 0


class NumpyModel:
    """numpy as seen by the extracted code."""

    def __init__(self):
        self._cache = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'pi' and cur() is not None and cur().exact_pi:
            return PI()
        if name in self._cache:
            return self._cache[name]
        if name == 'random':
            return RANDOM
        if name == 'ma':
            return MA
        if name == 'fft':
            return FFT
        if name == 'linalg':
            return LINALG
        realf = getattr(real_np, name)       # AttributeError as in the real library
        model = getattr(NPFuncs, name, None)
        if model is None and (not callable(realf) or isinstance(realf, type)):
            if name in ('float64', 'float_', 'double', 'float32'):
                r = _TypeLike(realf, lambda x=0.0: x if isinstance(x, SReal) else realf(x))
            elif name in ('finfo', 'iinfo', 'dtype'):
                r = _TypeLike(realf, lambda x: realf(_detype(x)))
            else:
                r = realf
        elif isinstance(realf, types.ModuleType):
            r = realf
        else:
            def r(*a, **k):
                if name in CREATE and cur() is not None and (k.get('dtype') is None or _detype(k['dtype']) in FLOATS) \
                        and not (name in ('zeros', 'ones', 'empty') and len(a) > 1 and _detype(a[1]) not in FLOATS) \
                        and not (name == 'full' and not (is_num(a[1]) or isinstance(a[1], SReal))):
                    return CREATE[name](*a)
                if a and type(a[0]).__name__ == 'DataArray' and a[0].dtype == object and model is not None and cur() is not None:
                    return _labelled(name, model, a, k)
                if contains_sym(a) or contains_sym(k) or any(isinstance(x, SArr) for x in a) or name == 'sqrt' and _irrational(a[0]):
                    if model is None and name in STRUCT:
                        return struct(name, a, k)
                    if model is None:
                        cur().flag('numpy.%s has no contract for symbolic arguments' % name)
                    return model(*a, **k)
                if name in ('seterr', 'errstate'):
                    return model(*a, **k)
                out = _np_call(realf, a, k)
                if name in ('copy', 'array', 'asarray') and type(out) is real_np.ndarray and out.ndim < 2 and cur() is not None:
                    return out.view(LowArr)
                return out
            r.__name__ = name
            if isinstance(realf, real_np.ufunc):
                for meth in ('reduce', 'accumulate', 'outer', 'at'):
                    setattr(r, meth, _ufunc_method(realf, meth))
        self._cache[name] = r
        return r


def _labelled(name, model, a, k):
    """A numpy function of one labelled array of symbolic numbers (xarray): elementwise, labels kept."""
    if any(type(x).__name__ == 'DataArray' for x in a[1:]):
        return getattr(real_np, name)(*a, **k)
    r = model(a[0].values.view(SArr), *a[1:], **k)
    if name in ('angle', 'array', 'asarray', 'copy') or getattr(r, 'shape', None) != a[0].shape:
        return r
    return a[0].copy(data=real_np.asarray(raw(r)))


def _ufunc_method(realf, meth):
    def f(*a, **k):
        if contains_sym(a) or contains_sym(k) or any(isinstance(x, SArr) for x in a):
            if realf.__name__ == 'logical_and' and meth == 'reduce' and isinstance(a[0], (list, tuple)) and all(isinstance(e, RowMask) for e in a[0]):
                return frames.MaskStack(list(a[0])).all(axis=0)
            return ArrHook.ufunc(realf, meth, (to_arr(a[0]),) + a[1:], None, k)
        return _np_call(getattr(realf, meth), a, k)
    return f


CREATE = {'zeros': lambda s, *a: _filled(s, 0), 'ones': lambda s, *a: _filled(s, 1), 'empty': lambda s, *a: _filled(s, None),
          'full': lambda s, v, *a: _filled(s, v)}


class LowArr(real_np.ndarray):
    """A concrete array of fewer than two dimensions: a (row, column) index is out of range."""

    def __getitem__(self, k):
        if isinstance(k, tuple) and any(isinstance(x, ColRef) for x in k) and len(k) > self.ndim:
            raise IndexError('too many indices for array')
        return super().__getitem__(k)


class _TypeLike:
    def __init__(self, real, fn):
        self.real = real
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)

    def __eq__(self, o):
        return o is self or o == self.real

    def __hash__(self):
        return hash(self.real)

    def __instancecheck__(self, x):
        return isinstance(x, self.real)


def _detype(x):
    if isinstance(x, _TypeLike):
        return x.real
    if isinstance(x, tuple):
        return tuple(_detype(y) for y in x)
    return x


def _np_call(realf, a, k):
    """A concrete numpy call under the modelled warning filters."""
    a = tuple(_detype(x) for x in a)
    k = {n: _detype(x) for n, x in k.items()}
    w = cur()
    mode = w.warn if w is not None else 'default'
    with _warnings.catch_warnings():
        _warnings.simplefilter('error' if mode == 'error' else 'ignore')
        r = realf(*a, **k)
    return r


class RandomModel:
    """numpy.random: draws are arbitrary numbers of the requested range when the contract asks for it (w.draws), else the
    draws of a private generator; the global generator is left alone."""

    def __getattr__(self, name):
        w = cur()
        if w is None:
            return getattr(real_np.random, name)
        if name == 'seed':
            return lambda *a, **k: None
        if w.draws is None:
            return getattr(real_np.random.RandomState(7), name)
        if name not in ('choice', 'randint', 'default_rng', 'RandomState', 'integers'):
            w.flag('numpy.random.%s' % name)
        return getattr(self, '_' + name)

    def _default_rng(self, *a, **k): return self
    _RandomState = _default_rng

    def _draw(self, lo, hi, size, kind='draw'):
        from .world import BOUNDS
        w = cur()
        if not isinstance(lo, int) or not isinstance(hi, int):
            w.flag('random range')
        out = SArr(() if size is None else size)
        for i in real_np.ndindex(out.shape):
            n = (kind, len(w.draws))
            w.draws.append(n)
            BOUNDS[n] = (lo, hi, False)
            out[i] = SReal(T.var(n, True), 'npint')
        return out if size is not None else out[()]

    def _choice(self, a, size=None, replace=True, p=None, **k):
        if p is not None or k or not isinstance(a, (int, real_np.integer)):
            cur().flag('random choice')
        return self._draw(0, int(a) - 1, size, 'draw' if replace else 'perm')

    def _randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        return self._draw(lo, hi if endpoint else hi - 1, size)
    _integers = _randint


RANDOM = RandomModel()


class MaskedModel:
    """numpy.ma: the masks made by a comparison with a number, and what is counted, summed or averaged outside of them."""

    def __getattr__(self, name):
        realf = getattr(real_np.ma, name)
        test = {'masked_greater_equal': lambda e, v: e >= v, 'masked_greater': lambda e, v: e > v, 'masked_less': lambda e, v: e < v,
                'masked_less_equal': lambda e, v: e <= v, 'masked_equal': lambda e, v: e == v, 'masked_not_equal': lambda e, v: e != v}.get(name)

        def r(*a, **k):
            if not (contains_sym(a) or contains_sym(k) or any(isinstance(x, SArr) for x in a)):
                return _np_call(realf, a, k)
            if test is not None and len(a) == 2:
                return MArr(a[0], _boolarr(_bcast(lambda e: bool(test(e, a[1])), to_arr(a[0]))))
            if name == 'masked_where':
                return MArr(a[1], _boolarr(to_arr(a[0])))
            if name == 'masked_invalid':
                return MArr(a[0], _boolarr(_bcast(lambda e: issp(e), to_arr(a[0]))))
            cur().flag('numpy.ma.%s' % name)
        return r


MA = MaskedModel()


class LinalgModel:
    """numpy.linalg: least squares for one or two independent columns."""

    def __getattr__(self, name):
        return getattr(Guard(real_np.linalg, 'numpy.linalg'), name)

    @staticmethod
    def lstsq(a, b, rcond='warn'):
        if not contains_sym([a, b]):
            return real_np.linalg.lstsq(a, b, rcond=rcond)
        m, v = raw(to_arr(a)), raw(to_arr(b))
        if v.ndim != 1 or m.ndim != 2 or m.shape[1] not in (1, 2) or m.shape[0] != len(v):
            cur().flag('numpy.linalg.lstsq of this shape')
        cols = [list(m[:, j]) for j in range(m.shape[1])]
        dot = lambda x, y: _pysum(p * q for p, q in zip(x, y))
        if len(cols) == 1:
            det, num = dot(cols[0], cols[0]), [dot(cols[0], v)]
        else:
            e, f = cols
            a, b, c, p, q = dot(e, e), dot(e, f), dot(f, f), dot(e, v), dot(f, v)
            det, num = a * c - b * b, [c * p - b * q, a * q - b * p]
        if det == 0:
            cur().flag('numpy.linalg.lstsq of dependent columns')
        return to_arr([x / det for x in num]), real_np.array([]), len(cols), None


LINALG = LinalgModel()


class MArr:
    def __init__(self, data, mask):
        self.data = to_arr(data)
        self.mask = raw(mask).astype(bool)
        self.shape = self.data.shape

    def count(self, axis=None, keepdims=False):
        return real_np.sum(~self.mask, axis=axis, keepdims=bool(keepdims))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        cur().flag('numpy.ma array: %s' % name)




class NPFuncs:
    """Contracts of numpy functions on symbolic arguments."""

    @staticmethod
    def average(a, axis=None, weights=None, returned=False, keepdims=False):
        if returned or weights is not None and getattr(weights, 'shape', None) != a.shape:
            cur().flag('np.average options')
        if weights is None:
            return NPFuncs.mean(a, axis=axis, keepdims=keepdims)
        return NPFuncs.sum(a * weights, axis=axis) / NPFuncs.sum(to_arr(weights), axis=axis)

    @staticmethod
    def angle(x, deg=False):
        def one(e):
            e = fourier.SCpx.of(e)
            r = ufn('atan2', e.imag, e.real)
            return V.degrees(r) if deg else r
        return _elementwise(one, x)
    @staticmethod
    def real(x): return _elementwise(lambda e: e.real if isinstance(e, fourier.SCpx) else e, x)
    @staticmethod
    def imag(x): return _elementwise(lambda e: e.imag if isinstance(e, fourier.SCpx) else 0.0, x)
    @staticmethod
    def conjugate(x, **k): return _elementwise(lambda e: e.conj() if isinstance(e, fourier.SCpx) else e, x)
    conj = conjugate

    @staticmethod
    def interp(x, xp, fp, left=None, right=None, period=None):
        if period is not None:
            cur().flag('numpy.interp period')
        xp, fp = [[SReal(V.term(e), 'np') if is_num(e) and not issp(e) else e for e in raw(to_arr(v)).ravel()] for v in (xp, fp)]
        if len(xp) != len(fp):
            raise ValueError('fp and xp are not of the same length.')
        if not xp:
            raise ValueError('array of sample points is empty')

        def one(e):
            if issp(e):
                if e != e:
                    return e
                cur().flag('numpy.interp at infinity')
            if bool(e < xp[0]):
                return fp[0] if left is None else left
            if bool(e > xp[-1]):
                return fp[-1] if right is None else right
            for j in _bi.range(len(xp) - 1, -1, -1):
                if bool(xp[j] <= e):
                    break
            if j == len(xp) - 1 or bool(e == xp[j]):
                return _np_of(fp[j])
            return _np_of(fp[j]) + (e - xp[j]) * V.divide(_np_of(fp[j + 1]) - fp[j], _np_of(xp[j + 1]) - xp[j])
        return _elementwise(one, x)

    @staticmethod
    def where(cond, *rest):
        if isinstance(cond, ColMask) and not rest:
            return cond.nonzero()
        if rest:
            return _bcast(lambda c, a, b: a if c else b, cond, rest[0], rest[1])
        cur().flag('np.where')

    @staticmethod
    def flatnonzero(cond):
        if isinstance(cond, ColMask):
            return cond.nonzero()[0]
        cur().flag('np.flatnonzero')

    argwhere = flatnonzero

    @staticmethod
    def nonzero(cond):
        if isinstance(cond, ColMask):
            return cond.nonzero()
        cur().flag('np.nonzero')

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        if isinstance(x, (list, tuple)) and x and all(isinstance(e, RowMask) for e in x):
            return frames.MaskStack(list(x))
        if isinstance(x, (frames.Text, RowMask)):
            return x
        if isinstance(x, (Vec, STable, ColNames)):
            return x.copy()
        if isinstance(x, SReal):
            out = SArr(())
            out[()] = _np_of(x)
            return out
        if isinstance(x, SBool):
            return x
        return npify(to_arr(x).copy())

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, (Vec, STable, ColNames)):
            return x
        return NPFuncs.array(x, dtype)

    asanyarray = asarray

    @staticmethod
    def copy(x, *a, **k):
        if isinstance(x, (Vec, STable, ColNames)):
            return x.copy()
        return NPFuncs.array(x)

    @staticmethod
    def isnan(x, **k):
        if isinstance(x, Vec):
            return NanMask(x)
        if isinstance(x, (real_np.ndarray, list, tuple)):
            return raw(_elementwise(_isnan1, x)).astype(bool)
        return _isnan1(x)

    @staticmethod
    def isfinite(x, **k):
        if isinstance(x, SReal):
            return True
        if isinstance(x, (real_np.ndarray, list, tuple)):
            return _elementwise(lambda e: True if isinstance(e, SReal) else not e.special() if isinstance(e, fourier.SCpx) else bool(real_np.isfinite(e)), x).view(real_np.ndarray).astype(bool)
        cur().flag('np.isfinite')

    @staticmethod
    def nansum(x, *a, **k):
        if isinstance(x, Vec):
            return x.nansum()
        if isinstance(x, SReal):
            return x
        if isinstance(x, (real_np.ndarray, list, tuple)):
            arr = to_arr(x)
            f = _elementwise(lambda e: 0.0 if not isinstance(e, SReal) and _isnan1(e) else e, arr)
            return _reduce(_sum1, f, *a, **k)
        cur().flag('np.nansum')

    @staticmethod
    def sum(x, *a, **k):
        if isinstance(x, Vec):
            return x.sum()
        if isinstance(x, NanMask):
            return x.sum()
        return _reduce(_sum1, x, *a, **k)

    @staticmethod
    def prod(x, *a, **k): return _reduce(_prod1, x, *a, **k)
    @staticmethod
    def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _reduce(lambda v: _var1(v, ddof), x, axis, keepdims=keepdims)
    @staticmethod
    def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _reduce(lambda v: sqrt(_var1(v, ddof), True), x, axis, keepdims=keepdims)
    @staticmethod
    def nanmean(x, *a, **k): return _reduce(lambda v: _mean1(_dropnan(v)), x, *a, **k)
    @staticmethod
    def nanvar(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _reduce(lambda v: _var1(_dropnan(v), ddof), x, axis, keepdims=keepdims)
    @staticmethod
    def nanstd(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return _reduce(lambda v: sqrt(_var1(_dropnan(v), ddof), True), x, axis, keepdims=keepdims)
    @staticmethod
    def median(x, *a, **k): return _reduce(lambda v: _percentile1(v, 50), x, *a, **k)
    @staticmethod
    def nanmedian(x, *a, **k): return _reduce(lambda v: _percentile1(_dropnan(v), 50), x, *a, **k)
    @staticmethod
    def percentile(x, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None):
        return _quant(x, q, axis, keepdims, interpolation or method, 1)
    @staticmethod
    def quantile(x, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None):
        return _quant(x, q, axis, keepdims, interpolation or method, 100)
    @staticmethod
    def nanpercentile(x, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, interpolation=None):
        return _quant(x, q, axis, keepdims, interpolation or method, 1, True)
    @staticmethod
    def argmax(x, axis=None, **k): return _reduce(lambda v: _arg(smax_strict, v), x, axis)
    @staticmethod
    def argmin(x, axis=None, **k): return _reduce(lambda v: _arg(lambda a, b: bool(b < a), v), x, axis)
    @staticmethod
    def argsort(x, *a, **k):
        arr = raw(to_arr(x))
        if arr.ndim != 1:
            cur().flag('argsort of a multi-dimensional array')
        return real_np.array(_bi.sorted(range(len(arr)), key=lambda i: _K(arr[i])), dtype=int)
    @staticmethod
    def searchsorted(x, v, side='left', **k):
        arr = raw(to_arr(x))
        def one(e):
            n = 0
            for y in arr:
                if (bool(y < e) if side == 'left' else bool(y <= e)):
                    n += 1
                else:
                    break
            return n
        r = _bcast(one, v)
        return raw(r).astype(int) if isinstance(r, real_np.ndarray) else r
    @staticmethod
    def isinf(x, **k):
        if isinstance(x, (real_np.ndarray, list, tuple)):
            return raw(_elementwise(lambda e: False if isinstance(e, SReal) else bool(real_np.isinf(e)), x)).astype(bool)
        return False if isinstance(x, SReal) else bool(real_np.isinf(x))
    @staticmethod
    def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
        def one(e):
            if isinstance(e, SReal) or not issp(e):
                return e
            if math_isnan(e):
                return nan
            r = (posinf if e > 0 else neginf)
            return r if r is not None else real_np.nan_to_num(e)
        return _bcast(one, x)
    @staticmethod
    def outer(x, y, **k):
        a, b = raw(to_arr(x)).ravel(), raw(to_arr(y)).ravel()
        out = SArr((len(a), len(b)))
        for i in range(len(a)):
            for j in range(len(b)):
                out[i, j] = a[i] * b[j]
        return out
    @staticmethod
    def arcsin(x, **k): return _bcast(lambda a: ufn('asin', a), x)
    @staticmethod
    def ceil(x, **k): return _bcast(lambda e: -floor(-e, 'np'), x)
    @staticmethod
    def not_equal(x, y, **k): return _boolarr(_bcast(lambda a, b: bool(a != b), x, y))

    @staticmethod
    def mean(x, *a, **k):
        if isinstance(x, Vec):
            return x.mean()
        return _reduce(_mean1, x, *a, **k)

    @staticmethod
    def _red(name):
        pass

    @staticmethod
    def all(x, *a, **k):
        if isinstance(x, NanMask):
            return x.all()
        if isinstance(x, SBool):
            return x
        return real_np.all(raw(_elementwise(bool, to_arr(x))).astype(bool), *a, **k)

    @staticmethod
    def any(x, *a, **k):
        if isinstance(x, NanMask):
            return x.any()
        if isinstance(x, ColMask):
            return x.any()
        if isinstance(x, SBool):
            return x
        return real_np.any(raw(_elementwise(bool, to_arr(x))).astype(bool), *a, **k)

    @staticmethod
    def logical_not(x): return ~x if isinstance(x, RowMask) else _boolarr(_bcast(lambda a: not a, x))
    @staticmethod
    def logical_and(x, y): return x & y if isinstance(x, RowMask) and isinstance(y, RowMask) else _boolarr(_bcast(lambda a, b: bool(a) and bool(b), x, y))
    @staticmethod
    def logical_or(x, y): return _boolarr(_bcast(lambda a, b: bool(a) or bool(b), x, y))

    @staticmethod
    def sqrt(x, **k): return _bcast(lambda e: sqrt(e, True), x)
    @staticmethod
    def log(x, **k): return _bcast(lambda e: log(e, True), x)
    @staticmethod
    def log10(x, **k): return _bcast(lambda e: log(e, True) / log_const(10), x)
    @staticmethod
    def log2(x, **k): return _bcast(lambda e: log(e, True) / log_const(2), x)
    @staticmethod
    def exp(x, **k): return _bcast(lambda e: ufn('exp', e), x)
    @staticmethod
    def sin(x, **k): return _bcast(lambda e: ufn('sin', e), x)
    @staticmethod
    def cos(x, **k): return _bcast(lambda e: ufn('cos', e), x)
    @staticmethod
    def tan(x, **k): return _bcast(lambda e: ufn('tan', e), x)
    @staticmethod
    def arctan2(x, y, **k): return _bcast(lambda a, b: ufn('atan2', a, b), x, y)
    @staticmethod
    def arctan(x, **k): return _bcast(lambda a: ufn('atan', a), x)
    @staticmethod
    def arccos(x, **k): return _bcast(lambda a: ufn('acos', a), x)
    @staticmethod
    def deg2rad(x, **k): return _bcast(lambda e: e * PI() / 180, x)
    radians = deg2rad
    @staticmethod
    def rad2deg(x, **k): return _bcast(lambda e: V.degrees(e), x)
    degrees = rad2deg
    @staticmethod
    def absolute(x, **k): return _bcast(lambda e: _abs(e), x)
    abs = fabs = absolute
    @staticmethod
    def square(x, **k): return _bcast(lambda e: e * e, x) if not isinstance(x, Vec) else x * x
    @staticmethod
    def floor(x, **k): return _bcast(lambda e: floor(e, 'np'), x)
    @staticmethod
    def sign(x, **k): return _bcast(lambda e: V.sign(e), x)
    @staticmethod
    def mod(x, y, **k): return _bcast(_npmod, x, y)
    remainder = mod
    @staticmethod
    def power(x, y, **k): return _bcast(lambda a, b: power(_np_of(a), b), x, y)
    @staticmethod
    def multiply(x, y, **k): return _bcast(lambda a, b: a * b, x, y) if not (isinstance(x, Vec) or isinstance(y, Vec)) else x * y
    @staticmethod
    def add(x, y, **k): return _bcast(lambda a, b: a + b, x, y) if not (isinstance(x, Vec) or isinstance(y, Vec)) else x + y
    @staticmethod
    def subtract(x, y, **k): return _bcast(lambda a, b: a - b, x, y) if not (isinstance(x, Vec) or isinstance(y, Vec)) else x - y
    @staticmethod
    def divide(x, y, **k): return _bcast(lambda a, b: V.divide(_np_of(a), b), x, y) if not (isinstance(x, Vec) or isinstance(y, Vec)) else x / y
    true_divide = divide
    @staticmethod
    def negative(x, **k): return _bcast(lambda a: -a, x)
    @staticmethod
    def greater(x, y, **k): return _boolarr(_bcast(lambda a, b: bool(a > b), x, y))
    @staticmethod
    def less(x, y, **k): return _boolarr(_bcast(lambda a, b: bool(a < b), x, y))
    @staticmethod
    def greater_equal(x, y, **k): return _boolarr(_bcast(lambda a, b: bool(a >= b), x, y))
    @staticmethod
    def less_equal(x, y, **k): return _boolarr(_bcast(lambda a, b: bool(a <= b), x, y))
    @staticmethod
    def equal(x, y, **k):
        if isinstance(x, ColNames):
            return x == y
        return _boolarr(_bcast(lambda a, b: bool(a == b), x, y))
    @staticmethod
    def maximum(x, y, **k): return _bcast(smax, x, y)
    @staticmethod
    def minimum(x, y, **k): return _bcast(smin, x, y)
    @staticmethod
    def max(x, *a, **k): return _fold(smax, x, a, k)
    amax = max
    @staticmethod
    def min(x, *a, **k): return _fold(smin, x, a, k)
    amin = min
    @staticmethod
    def nanmax(x, *a, **k): return _fold(smax, _dropnan(x), a, k)
    @staticmethod
    def nanmin(x, *a, **k): return _fold(smin, _dropnan(x), a, k)
    @staticmethod
    def clip(x, lo, hi, **k): return _bcast(lambda e: smin(smax(e, lo), hi), x)
    @staticmethod
    def round(x, n=0, **k): return _bcast(lambda e: round_even(e, n), x)
    around = round_ = round
    @staticmethod
    def isclose(x, y, **k): cur().flag('np.isclose')
    @staticmethod
    def size(x, *a): return x.size if hasattr(x, 'size') else to_arr(x).size
    @staticmethod
    def shape(x):
        return x.shape if hasattr(x, 'shape') else to_arr(x).shape
    @staticmethod
    def ndim(x): return x.ndim if hasattr(x, 'ndim') else to_arr(x).ndim
    @staticmethod
    def append(x, y, axis=None):
        if axis is not None:
            return _wrap(real_np.append(raw(to_arr(x)), raw(to_arr(y)), axis))
        o = [e for v in (x, y) for e in (list(raw(to_arr(v)).ravel()) if isinstance(v, (list, tuple, real_np.ndarray)) else [v])]
        return npify(to_arr(o))
    @staticmethod
    def concatenate(xs, *a, **k): return npify(_wrap(real_np.concatenate([raw(to_arr(x)) for x in xs], *a, **k)))
    @staticmethod
    def diff(x, *a, **k): return _wrap(real_np.diff(raw(to_arr(x)), *a, **k))
    @staticmethod
    def cumsum(x, *a, **k): return _wrap(real_np.cumsum(raw(to_arr(x)), *a, **k))
    @staticmethod
    def dot(x, y):
        a, b = raw(to_arr(x)), raw(to_arr(y))
        if a.ndim > 1 or b.ndim > 1:
            return _wrap(real_np.dot(a, b))
        return _pysum(p * q for p, q in zip(a, b))
    @staticmethod
    def matmul(x, y, **k): return NPFuncs.dot(x, y)
    @staticmethod
    def hypot(x, y, **k): return _bcast(lambda a, b: sqrt(a * a + b * b, True), x, y)
    @staticmethod
    def reshape(x, *a, **k): return _wrap(real_np.reshape(raw(to_arr(x)), *a, **k))
    @staticmethod
    def ravel(x, *a): return to_arr(x).ravel()
    @staticmethod
    def sort(x, *a, **k): return _sorted_arr(x)
    @staticmethod
    def unique(x, **k):
        if k:
            cur().flag('np.unique options')
        out = []
        for e in _sorted_arr(x):
            if not out or not bool(out[-1] == e):
                out.append(e)
        return to_arr(out)
    @staticmethod
    def apply_along_axis(fn, axis, arr, *a, **k):
        arr = to_arr(arr)
        if arr.ndim == 2 and axis in (1, -1):
            return to_arr([fn(arr[i], *a, **k) for i in range(arr.shape[0])])
        if arr.ndim == 2 and axis == 0:
            return to_arr([fn(arr[:, i], *a, **k) for i in range(arr.shape[1])]).T
        cur().flag('apply_along_axis')
    @staticmethod
    def expand_dims(x, *a, **k): return _wrap(real_np.expand_dims(raw(to_arr(x)), *a, **k))
    @staticmethod
    def squeeze(x, *a, **k): return _wrap(real_np.squeeze(raw(to_arr(x)), *a, **k))
    @staticmethod
    def zeros_like(x, **k):
        if isinstance(x, Vec):
            return Vec(x.tab, T.const(0), ())
        return _filled(to_arr(x).shape, 0)
    @staticmethod
    def full(shape, v, **k): return _filled(shape, v)
    @staticmethod
    def full_like(x, v, **k): return _filled(to_arr(x).shape, v)
    @staticmethod
    def ones_like(x, **k): return _filled(to_arr(x).shape, 1)
    @staticmethod
    def empty_like(x, **k): return _filled(to_arr(x).shape, None)
    @staticmethod
    def seterr(**k):
        w = cur()
        if w is None:
            return {}
        old = dict(w.np_err)
        if 'all' in k and k['all'] is not None:
            for n in w.np_err:
                w.np_err[n] = k['all']
        for n, v in k.items():
            if n in w.np_err and v is not None:
                w.np_err[n] = v
        return old

    class errstate:
        def __init__(self, **k):
            self.k = k

        def __enter__(self):
            self.old = NPFuncs.seterr(**self.k)
            return self

        def __exit__(self, *a):
            if cur() is not None:
                cur().np_err.update(self.old)
            return False


class _K:
    def __init__(self, v): self.v = v
    def __lt__(self, o): return bool(self.v < o.v)


def _sorted_arr(x):
    if isinstance(x, Vec):
        cur().flag('sorting a symbolic column')
    arr = to_arr(x)
    if arr.ndim != 1:
        cur().flag('sorting a multi-dimensional array')
    if any(issp(e) for e in arr):
        cur().flag('sorting non-finite values')
    return to_arr(_bi.sorted(arr, key=_K))


def _npmod(a, b):
    return mod(_np_of(a), b)


def _np_of(a):
    return SReal(a.t, 'np' if a.kind in ('py', 'np') else a.kind) if isinstance(a, SReal) else real_np.float64(a) if isinstance(a, float) else a


def _dropnan(x):
    return [e for e in raw(to_arr(x)).ravel() if isinstance(e, SReal) or not _isnan1(e)]


def _fold(fn, x, a, k):
    if isinstance(x, Vec):
        cur().flag('extremum of a symbolic column')
    return _reduce(lambda v: _fold1(fn, v), x, *a, **k)


def _fold1(fn, v):
    if not v:
        raise ValueError('zero-size array to reduction operation which has no identity')
    m = v[0]
    for e in v[1:]:
        if issp(m) and m != m:
            return m
        m = e if issp(e) and e != e else fn(m, e)
    return m


def math_isnan(x):
    return x != x


def smax_strict(a, b):
    return bool(b > a)


def _arg(better, v):
    if not v:
        raise ValueError('attempt to get argmax of an empty sequence')
    k = 0
    for i in range(1, len(v)):
        if issp(v[k]) and v[k] != v[k]:
            return k
        if (issp(v[i]) and v[i] != v[i]) or better(v[k], v[i]):
            k = i
    return k


def _sum1(v):
    r = 0.0
    for i, e in enumerate(v):
        r = e if i == 0 else r + e
    return r


def _prod1(v):
    r = 1.0
    for e in v:
        r = r * e
    return r


def _mean1(v):
    if not len(v):
        np_warn('Mean of empty slice')
        return NAN
    return V.divide(_sum1(v), real_np.float64(len(v)))


def _var1(v, ddof=0):
    n = len(v)
    if n == 0:
        np_warn('Degrees of freedom <= 0 for slice.')
        return NAN
    m = _mean1(v)
    ss = _sum1([(e - m) * (e - m) for e in v])
    if n - ddof <= 0:
        np_warn('Degrees of freedom <= 0 for slice')
    return V.divide(_np_of(ss), real_np.float64(max(n - ddof, 0)))


def _percentile1(v, q):
    """Linear interpolation between order statistics."""
    if any(issp(e) and e != e for e in v):
        return NAN
    if not v:
        return NAN
    if not is_num(q):
        cur().flag('percentile with a symbolic probability')
    xs = _bi.sorted(v, key=_K)
    from fractions import Fraction
    pos = T.frac(q) * (len(xs) - 1) / 100
    k = pos.numerator // pos.denominator
    if k >= len(xs) - 1:
        return _np_of(xs[-1])
    f = pos - k
    if f == 0:
        return _np_of(xs[k])
    return xs[k] + (xs[k + 1] - xs[k]) * SReal(T.const(f), 'np')


def _quant(x, q, axis, keepdims, method, scale, nan=False):
    if method != 'linear':
        cur().flag('percentile method ' + str(method))
    def one(p):
        return _reduce(lambda v: _percentile1(_dropnan(v) if nan else v, p * scale), x, axis, keepdims=keepdims)
    if isinstance(q, (list, tuple, real_np.ndarray)):
        return to_arr([one(p) for p in q])
    return one(q)


def _reduce(fn, x, axis=None, dtype=None, out=None, keepdims=False, where=None, initial=None, **k):
    if isinstance(x, Vec):
        cur().flag('reduction of a symbolic column')
    if where is not None or initial is not None or out is not None:
        cur().flag('reduction options')
    arr = raw(to_arr(x))
    if not isinstance(arr, real_np.ndarray):
        return fn([arr])
    if axis is None:
        r = fn(list(arr.ravel()))
        return _filled((1,) * arr.ndim, r) if keepdims else r
    ax = (axis,) if isinstance(axis, (int, real_np.integer)) else tuple(axis)
    ax = tuple(a % arr.ndim if -arr.ndim <= a < arr.ndim else _axis_error(a, arr.ndim) for a in ax)
    keep = [d for d in range(arr.ndim) if d not in ax]
    moved = real_np.transpose(arr, keep + list(ax))
    shape = moved.shape[:len(keep)]
    if not keep:
        r = fn(list(moved.ravel()))
        return _filled((1,) * arr.ndim, r) if keepdims else r
    res = SArr(shape)
    for i in real_np.ndindex(shape):
        res[i] = fn(list(moved[i].ravel()))
    if keepdims:
        res = res.reshape([1 if d in ax else arr.shape[d] for d in range(arr.ndim)])
    return res


def _axis_error(a, n):
    raise real_np.AxisError('axis %d is out of bounds for array of dimension %d' % (a, n))


def _boolarr(x):
    return raw(x).astype(bool) if isinstance(x, real_np.ndarray) else x


def _wrap(x):
    if isinstance(x, real_np.ndarray) and x.dtype == object and not isinstance(x, SArr):
        return x.view(SArr)
    if isinstance(x, (list, tuple)):
        return type(x)(_wrap(e) for e in x)
    return x


_fresh = [0]


def _filled(shape, v):
    out = SArr(shape)
    for i in real_np.ndindex(out.shape):
        if v is None:
            w = cur()
            _fresh[0] += 1
            out[i] = SReal(T.var(('uninitialised', _fresh[0])), 'np')
        else:
            out[i] = SReal(T.const(v), 'np') if is_num(v) and not issp(v) else v
    return out


STRUCT = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'moveaxis',
          'swapaxes', 'roll', 'flip', 'flipud', 'fliplr', 'tile', 'repeat', 'broadcast_to', 'take', 'delete', 'insert', 'atleast_1d',
          'atleast_2d', 'column_stack', 'split', 'array_split', 'diff', 'meshgrid', 'pad', 'triu', 'tril', 'diag', 'rollaxis', 'compress',
          'array_equal_', 'ndim', 'shape', 'size', 'take_along_axis', 'rot90', 'broadcast_arrays'}


def _deep_raw(x):
    if isinstance(x, real_np.ndarray):
        return raw(x)
    if isinstance(x, (list, tuple)):
        if contains_sym(x) and all(isinstance(e, (list, tuple, real_np.ndarray)) for e in x):
            return type(x)(raw(to_arr(e)) for e in x)
        return type(x)(_deep_raw(e) for e in x) if not contains_sym(x) else raw(to_arr(x))
    return x


def struct(name, a, k):
    return _wrap(getattr(real_np, name)(*[_deep_raw(x) for x in a], **{n: _deep_raw(v) for n, v in k.items()}))


class ArrHook:
    @staticmethod
    def ufunc(ufunc, method, inputs, out, k):
        name = ufunc.__name__
        if method == 'reduce':
            red = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all', 'logical_or': 'any'}.get(name)
            k = {n: v for n, v in k.items() if n in ('axis', 'keepdims') and not (n == 'keepdims' and not v)}
            if red:
                return getattr(NPFuncs, red)(*inputs, **k)
        if method == 'accumulate' and name == 'add':
            return NPFuncs.cumsum(*inputs)
        if method == 'outer' and name == 'multiply':
            return NPFuncs.outer(*inputs)
        if method != '__call__':
            cur().flag('numpy.%s.%s' % (name, method))
        f = getattr(NPFuncs, name, None)
        if f is None:
            cur().flag('numpy.%s has no contract for symbolic arguments' % name)
        if k.get('where') is not None and k.get('where') is not True:
            cur().flag('numpy.%s where=' % name)
        r = f(*inputs)
        if out is not None:
            out[0][...] = r
            return out[0]
        return r[()] if isinstance(r, SArr) and r.ndim == 0 else r

    @staticmethod
    def function(func, args, kwargs):
        name = func.__name__
        f = getattr(NPFuncs, name, None)
        if f is not None:
            return f(*args, **kwargs)
        if name in STRUCT:
            return struct(name, args, kwargs)
        if name == 'array_equal':
            a, b = to_arr(args[0]), to_arr(args[1])
            return a.shape == b.shape and all(bool(x == y) for x, y in zip(raw(a).ravel(), raw(b).ravel()))
        cur().flag('numpy.%s has no contract for symbolic arguments' % name)

    @staticmethod
    def astype(a, dtype):
        dtype = _detype(dtype)
        if dtype in FLOATS or dtype in (object, 'object'):
            return npify(a.copy()) if dtype is not object and dtype != 'object' else a.copy()
        if dtype in (bool, real_np.bool_, 'bool'):
            return raw(_elementwise(bool, a)).astype(bool)
        if dtype in (int, 'int', 'int64', real_np.int64, _IntType):
            return npify(_elementwise(lambda e: _IntType(e), a))
        cur().flag('astype(%s)' % (dtype,))

    @staticmethod
    def method(name, self, a, k):
        if name == 'nonzero':
            return raw(_elementwise(bool, self)).astype(bool).nonzero()
        if name == 'sort' and self.ndim != 1:
            cur().flag('sorting a multi-dimensional array')
        return getattr(NPFuncs, name)(self, *a, **k)


SArr.HOOK = ArrHook


# ---- math -------------------------------------------------------------------------------------
class MathModel:
    pi = property(lambda self: PI() if cur() is not None and cur().exact_pi else _math.pi)
    e = _math.e
    inf = _math.inf
    nan = _math.nan

    def __getattr__(self, name):
        realf = getattr(_math, name)
        def r(*a, **k):
            if contains_sym(a):
                cur().flag('math.%s has no contract' % name)
            return realf(*a, **k)
        return r

    @staticmethod
    def sqrt(x): return sqrt(x, False) if isinstance(x, SReal) or _irrational(x) else _math.sqrt(x)
    @staticmethod
    def log(x, base=None):
        if not isinstance(x, SReal):
            return _math.log(x) if base is None else _math.log(x, base)
        r = log(x, False)
        return r if base is None else r / log_const(base)
    @staticmethod
    def log10(x): return log(x, False) / log_const(10) if isinstance(x, SReal) else _math.log10(x)
    @staticmethod
    def log2(x): return log(x, False) / log_const(2) if isinstance(x, SReal) else _math.log2(x)
    @staticmethod
    def exp(x): return ufn('exp', x, np_like=False) if isinstance(x, SReal) else _math.exp(x)
    @staticmethod
    def sin(x): return ufn('sin', x, np_like=False) if isinstance(x, SReal) else _math.sin(x)
    @staticmethod
    def cos(x): return ufn('cos', x, np_like=False) if isinstance(x, SReal) else _math.cos(x)
    @staticmethod
    def tan(x): return ufn('tan', x, np_like=False) if isinstance(x, SReal) else _math.tan(x)
    @staticmethod
    def atan(x): return ufn('atan', x, np_like=False) if isinstance(x, SReal) else _math.atan(x)
    @staticmethod
    def atan2(x, y): return ufn('atan2', x, y, np_like=False) if contains_sym((x, y)) else _math.atan2(x, y)
    @staticmethod
    def acos(x): return ufn('acos', x, np_like=False) if isinstance(x, SReal) else _math.acos(x)
    @staticmethod
    def floor(x): return floor(x, 'int')
    @staticmethod
    def ceil(x): return -floor(-x, 'int') if isinstance(x, SReal) else _math.ceil(x)
    @staticmethod
    def fabs(x): return _abs(x)
    @staticmethod
    def pow(x, y):
        if not contains_sym((x, y)):
            return _math.pow(x, y)
        return power(SReal(x.t, 'py') if isinstance(x, SReal) else x, y)
    @staticmethod
    def isnan(x):
        if isinstance(x, SReal):
            return False
        return _math.isnan(x)
    @staticmethod
    def isinf(x): return False if isinstance(x, SReal) else _math.isinf(x)
    @staticmethod
    def isfinite(x): return True if isinstance(x, SReal) else _math.isfinite(x)
    @staticmethod
    def radians(x): return x * PI() / 180 if isinstance(x, SReal) else _math.radians(x)
    @staticmethod
    def degrees(x): return V.degrees(x) if isinstance(x, SReal) else _math.degrees(x)
    @staticmethod
    def hypot(x, y): return sqrt(x * x + y * y, False) if contains_sym((x, y)) else _math.hypot(x, y)
    @staticmethod
    def fsum(xs): return _pysum(xs)


# ---- warnings ----------------------------------------------------------------------------------
class WarningsModel:
    """Warning filters as ghost state: 'error' (numpy floating conditions raise) or not."""

    def __getattr__(self, name):
        return getattr(_warnings, name)

    @staticmethod
    def filterwarnings(action, message='', category=Warning, *a, **k):
        w = cur()
        if w is not None and issubclass(RuntimeWarning, category) and not message:
            w.warn = action

    @staticmethod
    def simplefilter(action, category=Warning, *a, **k):
        w = cur()
        if w is not None and issubclass(RuntimeWarning, category):
            w.warn = action

    @staticmethod
    def resetwarnings():
        if cur() is not None:
            cur().warn = 'default'

    @staticmethod
    def warn(message, category=UserWarning, *a, **k):
        w = cur()
        if w is not None and w.warn == 'error':
            raise (category or UserWarning)(message)

    class catch_warnings:
        def __init__(self, *, record=False, action=None, category=Warning, **k):
            self.action = action

        def __enter__(self):
            self.old = cur().warn if cur() else None
            if self.action and cur():
                cur().warn = self.action
            return []

        def __exit__(self, *a):
            if cur():
                cur().warn = self.old
            return False


# ---- statistics ---------------------------------------------------------------------------------
class StatisticsModel:
    def __getattr__(self, name):
        realf = getattr(_st, name)
        if isinstance(realf, type) and issubclass(realf, BaseException):
            return realf
        def r(*a, **k):
            if contains_sym(a):
                cur().flag('statistics.%s has no contract' % name)
            return realf(*a, **k)
        return r

    @staticmethod
    def mean(xs):
        xs = list(xs)
        if not contains_sym(xs):
            return _st.mean(xs)
        return _pysum(xs) / len(xs)

    fmean = mean

    @staticmethod
    def median(xs):
        xs = list(xs)
        if not contains_sym(xs):
            return _st.median(xs)
        xs = _bi.sorted(xs, key=_K)
        n = len(xs)
        return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2

    @staticmethod
    def variance(xs, xbar=None):
        xs = list(xs)
        if not contains_sym(xs):
            return _st.variance(xs, xbar)
        if len(xs) < 2:
            raise _st.StatisticsError('variance requires at least two data points')
        m = _pysum(xs) / len(xs) if xbar is None else xbar
        return _pysum((x - m) * (x - m) for x in xs) / (len(xs) - 1)

    @staticmethod
    def stdev(xs, xbar=None):
        xs = list(xs)
        if not contains_sym(xs):
            return _st.stdev(xs, xbar)
        return sqrt(StatisticsModel.variance(xs, xbar), False)


# ---- builtins -----------------------------------------------------------------------------------
def _abs(x):
    if isinstance(x, real_np.ndarray) and x.dtype == object:
        return _elementwise(_abs, x)
    return _bi.abs(x)


def _pysum(xs, start=0):
    if isinstance(xs, Vec):
        return start + xs.sum()
    r = start
    for x in xs:
        r = r + x
    return r


def _b_sum(xs, start=0):
    return _pysum(xs, start)


def _b_len(x):
    if isinstance(x, Vec):
        return x.tab.nrows()
    if isinstance(x, STable):
        return x.nrows()
    if hasattr(x, '__symlen__'):
        return x.__symlen__()
    return _bi.len(x)


def _b_isinstance(x, cls):
    if isinstance(cls, (tuple, list)):
        return any(_b_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(_b_isinstance(x, c) for c in cls.__args__)
    if isinstance(cls, _TypeLike):
        cls = cls.real
    cls = getattr(cls, '__realclass__', cls)
    if cls is _FloatType:
        cls = float
    if cls is _IntType:
        cls = int
    if isinstance(x, SReal):
        if x.kind in ('np',):
            return issubclass(real_np.float64, cls)
        if x.kind == 'npint':
            return issubclass(real_np.int64, cls)
        return issubclass(int if x.kind == 'int' else float, cls)
    if isinstance(x, SBool):
        return issubclass(bool, cls)
    if isinstance(x, (Vec, STable, ColNames)) and not isinstance(x, frames.FVec):
        return cls is real_np.ndarray or cls is object
    pc = getattr(x, '__pyclass__', None)
    if pc is not None:
        try:
            return issubclass(pc, cls)
        except TypeError:
            return False
    return _bi.isinstance(x, cls)


def _b_max(*a, **k):
    if k or not contains_sym(a):
        return _bi.max(*a, **k)
    it = iter(a[0] if _bi.len(a) == 1 else a)
    m = next(it)
    for e in it:
        m = smax(m, e)
    return m


def _b_min(*a, **k):
    if k or not contains_sym(a):
        return _bi.min(*a, **k)
    it = iter(a[0] if _bi.len(a) == 1 else a)
    m = next(it)
    for e in it:
        m = smin(m, e)
    return m


def _b_round(x, n=None):
    if isinstance(x, SReal):
        return round_even(x, n or 0)
    return _bi.round(x, n) if n is not None else _bi.round(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _b_isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class _FloatType(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SReal):
            return SReal(x.t, 'py')
        return x if type(x) is T.Rat else float(x)


FLOATS = (float, 'float', 'double', 'd', 'float64', 'float32', 'f4', 'f8', real_np.float64, real_np.float32, _FloatType)


class _IntMeta(type):
    dtype = real_np.dtype(int)       # what numpy makes of it

    def __instancecheck__(cls, x):
        return _b_isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class _IntType(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SReal):
            # truncation towards zero
            if x.kind in ('int', 'npint'):
                return SReal(x.t, 'int')
            return floor(x, 'int') if not bool(x < 0) else -floor(-x, 'int')
        return int(x, *a)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return _b_isinstance(x, set)

    def __subclasscheck__(cls, c):
        return issubclass(c, set)


class _SetType(set, metaclass=_SetMeta):
    __realclass__ = set

    def __new__(cls, x=()):
        if hasattr(x, '__symset__'):
            return x.__symset__()
        return set(x)


def _b_print(*a, **k):
    w = cur()
    if w is not None:
        w.events.append(('print',))


def _b_type(*a):
    if len(a) == 1 and isinstance(a[0], SReal):
        k = a[0].kind
        return {'np': real_np.float64, 'npint': real_np.int64, 'int': int, 'py': float}[k]
    t = _bi.type(*a)
    return t


class _TypeMeta(type):
    def __call__(cls, *a):
        if len(a) == 1:
            return _b_type(a[0])
        return _bi.type(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, _bi.type)


class _Type(metaclass=_TypeMeta):
    pass


class _LW:
    def __init__(self, x):
        self.real = x


class SpecialModel:
    def __getattr__(self, name):
        import scipy.special as sp
        realf = getattr(sp, name)
        def r(*a, **k):
            if contains_sym(a):
                if name == 'lambertw':
                    if issp(a[0]):
                        cur().flag('lambertw of a non-finite value')
                    return _LW(ufn('lambertw', a[0]))
                cur().flag('scipy.special.%s has no contract' % name)
            return realf(*a, **k)
        return r


class Dist:
    """A symmetric continuous distribution: cdf and quantile function are uninterpreted; the solver knows their range, sign and symmetry."""

    def __init__(self, name):
        import scipy.stats
        self.real = getattr(scipy.stats, name)
        self.name = name

    def __getattr__(self, n):
        realf = getattr(self.real, n)
        def r(*a, **k):
            if contains_sym(a) or contains_sym(k):
                cur().flag('scipy.stats.%s.%s has no contract' % (self.name, n))
            return realf(*a, **k)
        return r

    def _std(self, x, args, loc, scale):
        if not contains_sym(loc) and loc == 0 and not contains_sym(scale) and scale == 1:
            return x
        return (x - loc) / scale

    def cdf(self, x, *args, loc=0, scale=1, **k):
        args = args + tuple(k[n] for n in ('df',) if n in k)
        if not contains_sym((x, args, loc, scale)):
            return self.real.cdf(x, *args, loc=loc, scale=scale)
        def one(e):
            e = self._std(e, args, loc, scale)
            if issp(e):
                return NAN if e != e else 1.0 if e > 0 else 0.0
            return ufn(self.name + 'cdf', e, *args)
        return _bcast(one, x)

    def sf(self, x, *args, **k):
        if not contains_sym((x, args, k)):
            return self.real.sf(x, *args, **k)
        return 1 - self.cdf(x, *args, **k)

    def ppf(self, q, *args, loc=0, scale=1, **k):
        args = args + tuple(k[n] for n in ('df',) if n in k)
        if not contains_sym((q, args, loc, scale)):
            return self.real.ppf(q, *args, loc=loc, scale=scale)
        def one(p):
            if bool(p < 0) or bool(p > 1):
                return NAN
            r = ufn(self.name + 'ppf', p, *args)
            return r if not contains_sym(scale) and scale == 1 and not contains_sym(loc) and loc == 0 else r * scale + loc
        return _bcast(one, q)

    def isf(self, q, *args, **k):
        return self.ppf(1 - q, *args, **k)


class StatsModel:
    """scipy.stats"""

    def __init__(self):
        self._c = {}

    def __getattr__(self, name):
        if name in ('t', 'norm'):
            if name not in self._c:
                self._c[name] = Dist(name)
            return self._c[name]
        import scipy.stats
        return getattr(Guard(scipy.stats, 'scipy.stats'), name) if name != 'nct' else Dist('nct')

    @staticmethod
    def iqr(x, axis=None, rng=(25, 75), scale=1.0, nan_policy='propagate', interpolation='linear', keepdims=False):
        if not contains_sym(x):
            import scipy.stats
            return scipy.stats.iqr(x, axis=axis, rng=rng, scale=scale, nan_policy=nan_policy, interpolation=interpolation, keepdims=keepdims)
        if axis is not None or interpolation != 'linear' or nan_policy != 'propagate' or scale not in (1, 1.0, 'raw'):
            cur().flag('scipy.stats.iqr options')
        return _quant(x, rng[1], None, False, 'linear', 1) - _quant(x, rng[0], None, False, 'linear', 1)


class Guard:
    """Any other library: concrete arguments only."""

    def __init__(self, mod, name):
        self.__dict__['_m'] = mod
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        v = getattr(self._m, n)
        if isinstance(v, types.ModuleType):
            if self._n + '.' + n in MODELS:
                return MODELS[self._n + '.' + n]
            return Guard(v, self._n + '.' + n)
        if isinstance(v, type) or not callable(v):
            return v
        full = self._n + '.' + n
        def r(*a, **k):
            if contains_sym(a) or contains_sym(k):
                cur().flag('%s has no contract' % full)
            return v(*a, **k)
        r.__name__ = n
        return r


class SignalModel:
    """scipy.signal"""

    def __getattr__(self, name):
        import scipy.signal
        return getattr(Guard(scipy.signal, 'scipy.signal'), name)

    @staticmethod
    def detrend(data, axis=-1, type='linear', bp=0, overwrite_data=False):
        a = fourier._arr(data)
        if not contains_sym(a):
            import scipy.signal
            return scipy.signal.detrend(data, axis, type, bp, overwrite_data)
        if bp != 0 or type not in ('linear', 'l', 'constant', 'c'):
            cur().flag('scipy.signal.detrend options')

        def line(x):
            n = len(x)
            m = x[0]
            for e in x[1:]:
                m = m + e
            m = m * T.Rat(T.frac(1) / n)
            if type in ('constant', 'c') or n == 1:
                return [e - m for e in x]
            t = [T.frac(2 * j - n + 1) / 2 for j in range(n)]          # centred, so that mean and slope separate
            s = sum(v * v for v in t)
            b = 0
            for v, e in zip(t, x):
                b = b + e * T.Rat(v / s)
            return [e - m - b * T.Rat(v) for v, e in zip(t, x)]
        return fourier._along(a, axis, line)


from . import frames
from .frames import PandasModel
from . import fourier
import numpy.fft as _nfft
import scipy.fft as _sfft
FFT = fourier.FourierModel(_nfft)
MODELS = {'numpy.linalg': LINALG, 'scipy.signal': SignalModel(), 'scipy.fft': fourier.FourierModel(_sfft), 'pandas': PandasModel(), 'scipy.special': SpecialModel(), 'scipy.stats': StatsModel(), 'numpy': NumpyModel(), 'math': MathModel(), 'warnings': WarningsModel(), 'statistics': StatisticsModel()}


_PLAIN = (int, float, T.Rat)


def vdiv(a, b):
    """Division; the quotient of plain numbers is kept exact while a path is explored."""
    if type(a) in _PLAIN and type(b) in _PLAIN and cur() is not None and b != 0 and _math.isfinite(a) and _math.isfinite(b):
        f = T.frac(a) / T.frac(b)
        q = a / b
        return q if f.denominator & (f.denominator - 1) == 0 and f == q else T.Rat(f)
    return a / b


def vreport(it):
    """The collection of a loop that only prints: nothing to execute when it is symbolic."""
    return [] if getattr(it, '__sym__', False) or isinstance(it, Vec) else it


def make_builtins(importer):
    b = dict(vars(_bi))
    b['__vdiv__'] = vdiv
    b['__vreport__'] = vreport
    b['set'] = _SetType
    b.update(len=_b_len, isinstance=_b_isinstance, sum=_b_sum, max=_b_max, min=_b_min, round=_b_round,
             abs=_abs, float=_FloatType, print=_b_print, int=_IntType, __import__=importer)
    return b
