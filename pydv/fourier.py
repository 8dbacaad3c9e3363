"""Complex numbers and discrete Fourier transforms of arrays of symbolic numbers.

The transform is the defining sum with exact roots of unity, so it is available for the lengths whose roots of unity are
rational or square roots of rationals (divisors of 24); other lengths are reported as unsupported."""
from fractions import Fraction
import numpy as np
from . import terms as T
from . import values as V
from .values import SReal, NAN, issp, is_num
from .world import cur


def num(x):
    return isinstance(x, (SReal, bool, np.bool_)) or is_num(x)


class SCpx:
    """A complex number with symbolic parts."""
    __sym__ = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SCpx):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SCpx(float(x.real), float(x.imag))
        if isinstance(x, (bool, np.bool_)):
            return SCpx(int(x), 0)
        return SCpx(x, 0) if num(x) else None

    def _op(self, o, fn):
        if isinstance(o, np.ndarray):
            out = V.SArr(o.shape)
            for i in np.ndindex(o.shape):
                out[i] = fn(self, SCpx.of(o[i]))
            return out
        o = SCpx.of(o)
        return NotImplemented if o is None else fn(self, o)

    def __add__(self, o): return self._op(o, lambda a, b: SCpx(a.real + b.real, a.imag + b.imag))
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: SCpx(a.real - b.real, a.imag - b.imag))
    def __rsub__(self, o): return self._op(o, lambda a, b: SCpx(b.real - a.real, b.imag - a.imag))
    def __mul__(self, o): return self._op(o, lambda a, b: SCpx(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._op(o, lambda a, b: a / b)
        c = SCpx.of(o)
        if c is None:
            return NotImplemented
        if not isinstance(o, (SCpx, complex, np.complexfloating)):
            return SCpx(V.divide(_np(self.real), o), V.divide(_np(self.imag), o))
        d = c.real * c.real + c.imag * c.imag
        return SCpx(V.divide(_np(self.real * c.real + self.imag * c.imag), d), V.divide(_np(self.imag * c.real - self.real * c.imag), d))

    def __rtruediv__(self, o):
        c = SCpx.of(o)
        return NotImplemented if c is None else c / self

    def __pow__(self, n):
        if n != 2:
            cur().flag('complex power')
        return self * self

    def __neg__(self): return SCpx(-self.real, -self.imag)
    def __pos__(self): return self
    def __abs__(self): return V.sqrt(_np(self.real * self.real + self.imag * self.imag), True)
    def conjugate(self): return SCpx(self.real, -self.imag)
    conj = conjugate

    def __eq__(self, o):
        c = SCpx.of(o)
        return NotImplemented if c is None else bool(self.real == c.real) and bool(self.imag == c.imag)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self): return bool(self != 0)
    def __hash__(self): cur().flag('hash of a complex number')
    def __float__(self): raise TypeError("can't convert complex to float")
    def __repr__(self): return '%r+%rj' % (self.real, self.imag)

    def special(self):
        return any(issp(p) for p in (self.real, self.imag))


def _np(x):
    return SReal(x.t, 'np') if isinstance(x, SReal) else np.float64(x)


def _const(f):
    return SReal(T.const(f), 'np')


def root(n, m):
    """exp(2 pi i m / n)"""
    m %= n
    f = Fraction(m, n)
    if 24 % f.denominator:
        cur().flag('Fourier transform of length %d' % n)
    c = _cos24(int(f * 24))
    s = _cos24(int(f * 24) - 6)         # sin x = cos(x - pi/2)
    return SCpx(c, s)


def _cos24(k):
    k %= 24
    k = min(k, 24 - k)
    if k > 12:
        k = 24 - k
    if k > 6:
        r = _cos24(12 - k)
        return -r
    if k in (0, 4, 6):
        return _const({0: Fraction(1), 4: Fraction(1, 2), 6: Fraction(0)}[k])
    r2, r3, r6 = [SReal(T.sqrt_term(T.const(v)), 'np') for v in (2, 3, 6)]
    r6 = r2 * r3
    return {1: (r6 + r2) * _const(Fraction(1, 4)), 2: r3 * _const(Fraction(1, 2)), 3: r2 * _const(Fraction(1, 2)), 5: (r6 - r2) * _const(Fraction(1, 4))}[k]


def _scale(w, x):
    """root of unity times a number, dropping exact zeros"""
    return SCpx.of(x) * w


def _line(x, sign, back, n):
    """One full transform of a list."""
    out = []
    for k in range(n):
        a = SCpx(_const(0), _const(0))
        for j, e in enumerate(x[:n]):
            a = a + _scale(root(n, sign * j * k), e)
        out.append(a / n if back else a)
    return out


def _along(a, axis, fn):
    a = np.moveaxis(a.view(np.ndarray), axis, -1)
    rows = []
    for i in np.ndindex(a.shape[:-1]):
        rows.append(fn(list(a[i])))
    m = len(rows[0]) if rows else 0
    out = np.empty(a.shape[:-1] + (m,), dtype=object)
    for i, r in zip(np.ndindex(a.shape[:-1]), rows):
        for j, e in enumerate(r):
            out[i + (j,)] = e
    return np.moveaxis(out, -1, axis).view(V.SArr)


def fft1(a, n=None, axis=-1, back=False):
    return _along(a, axis, lambda x: _line(x, 1 if back else -1, back, n or len(x)))


def rfft1(a, n=None, axis=-1):
    return _along(a, axis, lambda x: _line(x, -1, False, n or len(x))[:(n or len(x)) // 2 + 1])


def irfft1(a, n=None, axis=-1):
    def line(x):
        m = n if n is not None else 2 * (len(x) - 1)
        if m < 1:
            raise ValueError('Invalid number of data points (%d) specified' % m)
        x = [SCpx.of(e) for e in x[:m // 2 + 1]]
        full = []
        for k in range(m):
            j = k if k <= m // 2 else m - k
            e = x[j] if j < len(x) else SCpx(_const(0), _const(0))
            if j == 0 or 2 * j == m:
                e = SCpx(e.real, _const(0))         # the imaginary part of the end coefficients is not used
            full.append(e if k <= m // 2 else e.conj())
        return [e.real for e in _line(full, 1, True, m)]
    return _along(a, axis, line)


def _arr(a):
    a = a.values if hasattr(a, 'dims') and hasattr(a, 'values') else a
    from .models import to_arr
    return to_arr(a)


class FourierModel:
    """numpy.fft and scipy.fft"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        realf = getattr(self._real, name)

        def r(a, *p, **k):
            if not (V.contains_sym(a) or V.contains_sym(_arr(a)) if not isinstance(a, (int, float)) else False):
                return realf(a, *p, **k)
            f = getattr(Transforms, name, None)
            if f is None or k.get('norm') not in (None, 'backward'):
                cur().flag('%s.%s' % (self._real.__name__, name))
            k = {n: v for n, v in k.items() if n in ('n', 's', 'axis', 'axes')}
            return f(_arr(a), *p, **k)
        return r


class Transforms:
    @staticmethod
    def fft(a, n=None, axis=-1): return fft1(a, n, axis)
    @staticmethod
    def ifft(a, n=None, axis=-1): return fft1(a, n, axis, True)
    @staticmethod
    def rfft(a, n=None, axis=-1): return rfft1(a, n, axis)
    @staticmethod
    def irfft(a, n=None, axis=-1): return irfft1(a, n, axis)

    @staticmethod
    def fft2(a, s=None, axes=(-2, -1)):
        if s is not None:
            cur().flag('transform with a given shape')
        for x in axes:
            a = fft1(a, None, x)
        return a

    @staticmethod
    def ifft2(a, s=None, axes=(-2, -1)):
        if s is not None:
            cur().flag('transform with a given shape')
        for x in axes:
            a = fft1(a, None, x, True)
        return a

    @staticmethod
    def rfft2(a, s=None, axes=(-2, -1)):
        if s is not None:
            cur().flag('transform with a given shape')
        a = rfft1(a, None, axes[-1])
        for x in axes[:-1]:
            a = fft1(a, None, x)
        return a

    @staticmethod
    def irfft2(a, s=None, axes=(-2, -1)):
        for x in axes[:-1]:
            a = fft1(a, None, x, True)
        return irfft1(a, None if s is None else s[-1], axes[-1])

    @staticmethod
    def fftshift(a, axes=None):
        return np.fft.fftshift(a.view(np.ndarray), axes=axes).view(V.SArr)

    @staticmethod
    def ifftshift(a, axes=None):
        return np.fft.ifftshift(a.view(np.ndarray), axes=axes).view(V.SArr)
