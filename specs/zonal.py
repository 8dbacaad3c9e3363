"""C22: longitude conversion, directional means, zonal waves.  xarray is executed on arrays of symbolic numbers."""
import contextlib, math
from fractions import Fraction
import numpy as np
from pydv import contract as C, spec as S, values as V, fourier as F, terms as T
from .shape import Shape, X, Arr, Raises, xs, plain
from .fields import grid, missing
from .columns import at, shape_of, nest

UTILS = 'metcalcpy.util.utils'
MEANS = 'metcalcpy.pre_processing.directional_means'
WAVES = 'metcalcpy.pre_processing.waves'
NAN = math.nan


class Label(V.SReal):
    """A coordinate value: a number that is told apart by what it is written as."""
    __slots__ = ()
    def __hash__(self): return hash(self.t.id)


def array(values, dims, coords=None):
    import xarray as xr
    v = values.view(np.ndarray)
    co = {}
    for d, n in zip(dims, v.shape):
        c = (coords or {}).get(d)
        if c is None:
            c = 10 + 3 * np.arange(n)
        elif isinstance(c, V.SArr):
            o = np.empty(c.shape, dtype=object)
            for i, e in enumerate(c.view(np.ndarray)):
                o[i] = Label(e.t, 'np')
            c = o
        co[d] = c
    return xr.DataArray(v, dims=dims, coords=co)


@contextlib.contextmanager
def object_sums():
    """xarray sums object arrays as floats ("dtype inference is impossible"); keep the symbolic numbers instead."""
    if V.cur() is None:
        yield
        return
    from xarray.core import nanops
    old = nanops._nanmean_ddof_object
    def mean(ddof, value, axis=None, dtype=None, **kw):
        return old(ddof, value, axis=axis, dtype=object if dtype is None else dtype, **kw)
    nanops._nanmean_ddof_object = mean
    try:
        yield
    finally:
        nanops._nanmean_ddof_object = old


# ---- longitudes ---------------------------------------------------------------------------------
def ascending(v):
    out = []
    for x in v:
        i = len(out)
        while i and x < out[i - 1]:
            i -= 1
        out.insert(i, x)
    return out


class Lon180(Shape):
    prop = 'C22'
    module, fn = UTILS, 'convert_lon_360_to_180'
    functions = [UTILS + ':convert_lon_360_to_180']
    name = 'longitudes in [-180, 180)'
    quick_cases, thorough_cases = 300, 3000

    def templates(self):
        for n in (1, 2, 3):
            yield (xs(n),)
            yield (Arr(xs(n)),)
            yield (xs(n, kind='int'),)

    def gen(self, rng):
        k = rng.choice(['py', 'int'])
        n = rng.randint(1, 12)
        return (rng.choice([list, Arr])(xs(n, kind=k)),)

    def value(self, rng, leaf):
        v = rng.choice([rng.randrange(-360, 721, 30), rng.uniform(-400, 800), rng.randint(0, 360)])
        return int(v) if leaf.kind == 'int' else float(v)

    def spec(self, lons):
        return ascending([S.fmod(x + 180, 360) - 180 for x in lons])


class LonWindow(Shape):
    prop = 'C22'
    module, fn = UTILS, 'convert_lons_indices'
    functions = [UTILS + ':convert_lons_indices']
    name = 'longitudes in a window, with the permutation'
    quick_cases, thorough_cases = 300, 3000

    def templates(self):
        for lo, r in ((-180, 360), (0, 360), (-90, 180)):
            for n in (1, 2, 3):
                yield Arr(xs(n)), lo, r
        yield xs(2), -180, 360
        yield Arr(xs(2)), X(lo=-360, hi=-1), 360

    def gen(self, rng):
        return rng.choice([list, Arr])(xs(rng.randint(1, 12))), rng.choice([-180, 0, -90, -30, -360]), rng.choice([360, 360, 180])

    def value(self, rng, leaf):
        if leaf.hi == -1:
            return float(rng.randrange(-360, 0, 30))
        return float(rng.choice([rng.randrange(-360, 721, 30), rng.uniform(-400, 800)]))

    def out(self, r, args):
        lons, idx = r
        idx = [int(i) for i in idx]
        if sorted(idx) != list(range(len(args[0]))):
            raise AssertionError('indices %r are not a permutation' % (idx,))
        # the converted value of the longitude each index points at
        return [plain(lons), [args[0][i] for i in idx]]

    def spec(self, lons, lo, r):
        new = [S.fmod(x - lo, r) + lo for x in lons]
        order = []
        for i, x in enumerate(new):
            j = len(order)
            while j and x < new[order[j - 1]]:
                j -= 1
            order.insert(j, i)
        return [[new[i] for i in order], [lons[i] for i in order]]

    def pre(self, lons, lo, r):
        # equal longitudes may come in any order
        new = [S.fmod(x - lo, r) for x in lons]
        for i in range(len(new)):
            for j in range(i):
                if new[i] == new[j]:
                    return False
        return True


# ---- means --------------------------------------------------------------------------------------
class Zonal(Shape):
    """args: field, position of the longitude, its name (None: default)"""
    prop = 'C22'
    module, fn = MEANS, 'zonal_mean'
    functions = [MEANS + ':zonal_mean']
    name = 'zonal mean'
    quick_cases, thorough_cases = 150, 1200

    def make(self, shape, pos, name=None, nan=None):
        f = grid(shape)
        if nan is not None:
            at(f, nan[:-1])[nan[-1]] = NAN
        return Arr(f), pos, name

    def templates(self):
        for shape, pos in (((1,), 0), ((3,), 0), ((2, 3), 1), ((2, 2), 0), ((1, 3, 2), 1)):
            yield self.make(shape, pos)
        yield self.make((2, 2), 1, 'lon')
        yield self.make((2, 2), 1, nan=(0, 1))

    def gen(self, rng):
        shape = [rng.randint(1, 5) for _ in range(rng.randint(1, 3))]
        return self.make(shape, rng.randrange(len(shape)), rng.choice([None, 'lon']), tuple(rng.randrange(s) for s in shape) if rng.random() < 0.2 else None)

    def call(self, mod, args):
        f, pos, name = args
        dims = ['time', 'lev', 'lat'][:f.ndim]
        dims[pos] = name or 'longitude'
        a = array(f, dims)
        with object_sums():
            r = mod.zonal_mean(a) if name is None else mod.zonal_mean(a, name)
        if list(r.dims) != dims[:pos] + dims[pos + 1:]:
            raise AssertionError('dimensions of the result')
        return r.values

    def spec(self, f, pos, name):
        pos = int(pos.v) if isinstance(pos, S.Q) else pos
        s = shape_of(f)

        def one(i):
            v = [x for x in (at(f, i[:pos] + (k,) + i[pos:]) for k in range(s[pos])) if not missing(x)]
            return total(v) / len(v) if v else NAN
        return nest(s[:pos] + s[pos + 1:], one)


def total(v):
    r = v[0]
    for x in v[1:]:
        r = r + x
    return r


class Meridional(Shape):
    """args: field, latitudes, limits, position, name"""
    prop = 'C22'
    module, fn = MEANS, 'meridional_mean'
    functions = [MEANS + ':meridional_mean']
    name = 'meridional mean'
    exact_pi = True
    quick_cases, thorough_cases = 200, 1500
    tol = 1e-8

    def make(self, shape, pos, name=None, nan=None):
        f = grid(shape)
        if nan is not None:
            at(f, nan[:-1])[nan[-1]] = NAN
        return Arr(f), Arr(xs(shape[pos], lo=-90, hi=90)), X(lo=-90, hi=90), X(lo=-90, hi=90), pos, name

    def templates(self):
        for shape, pos in (((1,), 0), ((2,), 0), ((3,), 0), ((2, 2), 1), ((2, 1, 2), 0)):
            yield self.make(shape, pos)
        yield self.make((2, 1), 0, 'lat')
        yield self.make((2, 1), 0, None, (0, 0))

    def gen(self, rng):
        shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        pos = rng.randrange(len(shape))
        shape[pos] = rng.randint(1, 8)
        return self.make(shape, pos, rng.choice([None, 'lat']), tuple(rng.randrange(s) for s in shape) if rng.random() < 0.2 else None)

    def cases(self, rng, n):
        for c in Shape.cases(self, rng, n):
            a = c['args']['__tuple__']
            m = len(a[1]['__arr__'])
            lat = sorted(rng.sample(range(-90, 91, 5), m), reverse=rng.random() < 0.5)
            a[1]['__arr__'] = [float(x) + rng.choice([0, 0, 0.25]) * (abs(x) < 90) for x in lat]
            a[2], a[3] = float(rng.randrange(-90, 91, 5)), float(rng.randrange(-90, 91, 5))
            if rng.random() < 0.9:
                a[2], a[3] = min(a[2], a[3]), max(a[2], a[3])
            yield c

    def pre(self, f, lat, lo, hi, pos, name):
        # latitudes in order, north or south first, and at least one of them in the band
        for k in range(len(lat) - 1):
            if not lat[k] < lat[k + 1]:
                break
        else:
            return True
        for k in range(len(lat) - 1):
            if not lat[k] > lat[k + 1]:
                return False
        return True

    def call(self, mod, args):
        f, lat, lo, hi, pos, name = args
        dims = ['time', 'lev', 'lon'][:f.ndim]
        dims[pos] = name or 'latitude'
        a = array(f, dims, {dims[pos]: lat})
        r = mod.meridional_mean(a, lo, hi) if name is None else mod.meridional_mean(a, lo, hi, name)
        if list(r.dims) != dims[:pos] + dims[pos + 1:]:
            raise AssertionError('dimensions of the result')
        return r.values

    def spec(self, f, lat, lo, hi, pos, name):
        pos = int(pos.v) if isinstance(pos, S.Q) else pos
        if lo >= hi:
            raise Raises(ValueError)
        s = shape_of(f)
        inside = [k for k in range(len(lat)) if lat[k] >= lo and lat[k] <= hi]
        if not inside:
            raise S.Skip()
        w = {k: S.cos(lat[k] * S.pi() / 180) for k in inside}

        def one(i):
            v = [(w[k], x) for k, x in ((k, at(f, i[:pos] + (k,) + i[pos:])) for k in inside) if not missing(x)]
            if not v:
                return NAN
            ws = total([a for a, _ in v])
            if not V.cur() and abs(float(ws)) < 1e-9:
                raise S.Skip()
            if V.cur() and ws == 0:
                return NAN
            return total([a * x for a, x in v]) / ws
        return nest(s[:pos] + s[pos + 1:], one)


# ---- waves --------------------------------------------------------------------------------------
def unit(n, m):
    """cosine and sine of 2 pi m / n"""
    if V.cur() is not None:
        r = F.root(n, m)
        return r.real, r.imag
    a = 2 * math.pi * (m % n) / n
    return S.Q(math.cos(a), False), S.Q(math.sin(a), False)


def coefficient(x, k):
    """Fourier sum of a list at wavenumber k: real and imaginary part"""
    re = im = 0
    for j, e in enumerate(x):
        c, s = unit(len(x), j * k)
        re, im = re + e * c, im - e * s
    return re, im


def twice(n, k):
    return 1 if k == 0 or 2 * k == n else 2


class Waves(Shape):
    """args: field, position of the longitude, its name, selected waves"""
    prop = 'C22'
    module = WAVES
    quick_cases, thorough_cases = 60, 500
    tol = 1e-7

    def __init__(self, what, pkg):
        self.what, self.pkg = what, pkg
        self.proof = pkg != 'xrft'
        self.name = 'zonal waves: %s (%s)' % (what, pkg)
        self.fn = {'coefficients': 'zonal_wave_coeffs', 'amplitudes and phases': 'zonal_wave_ampl_phase', 'phases in degrees': 'zonal_wave_ampl_phase',
                   'contributions': 'zonal_wave_contributions', 'covariance': 'zonal_wave_covariance'}[what]
        self.functions = [WAVES + ':' + self.fn, WAVES + ':zonal_wave_coeffs', WAVES + ':_zonal_wave_coeffs_' + pkg]

    def make(self, shape, pos, name=None, waves=None):
        return Arr(grid(shape)), Arr(grid(shape)) if self.what == 'covariance' else None, pos, name, waves

    def templates(self):
        if self.pkg == 'xrft':
            return
        for shape, pos in (((1,), 0), ((2,), 0), ((3,), 0), ((4,), 0), ((6,), 0), ((2, 3), 1), ((4, 2), 0), ((2, 2, 1), 1)):
            yield self.make(shape, pos)
        yield self.make((1, 4), 1, 'lon')
        yield self.make((4,), 0, None, [1, 2])
        yield self.make((3,), 0, None, [1])
        yield self.make((4,), 0, None, [2, 0])

    def gen(self, rng):
        shape = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        pos = rng.randrange(len(shape))
        shape[pos] = rng.randint(2, 9)
        k = list(range(shape[pos] // 2 + 1))
        return self.make(shape, pos, rng.choice([None, 'lon']), rng.choice([None, rng.sample(k, rng.randint(1, len(k)))]))

    @property
    def tmpl(self):
        if self.pkg != 'xrft':
            return Shape.tmpl.fget(self)
        import random
        if not hasattr(self, '_t'):
            r = random.Random(5)
            self._t = [self.gen(r) for _ in range(6)]
        return self._t

    def call(self, mod, args):
        f, g, pos, name, waves = args
        dims = ['time', 'lev', 'lat'][:f.ndim]
        dims[pos] = name or 'longitude'
        n = f.shape[pos]
        lon = {dims[pos]: np.arange(n) * (360.0 / n)}
        a = array(f, dims, lon)
        k = {'fftpkg': self.pkg, 'waves': waves}
        if self.what == 'covariance':
            if name is not None:
                k.update(dimvar1=name, dimvar2=name)
            r = mod.zonal_wave_covariance(a, array(g, dims, lon), **k)
            return self.check(r, dims, pos, waves, n)
        if name is not None:
            k['dimvar'] = name
        if self.what == 'phases in degrees':
            k['phase_deg'] = True
        r = getattr(mod, self.fn)(a, **k)
        if self.what == 'coefficients':
            r = self.check(r, dims, pos, waves, n)
            return [[e.real for e in r.ravel()], [e.imag for e in r.ravel()]]
        if self.what == 'contributions':
            if list(r.dims) != dims + ['lon_wavenum'] or list(r.lon_wavenum.values) != (waves or list(range(n // 2 + 1))):
                raise AssertionError('dimensions of the result: %r' % (r.dims,))
            return r.values
        ampl, phase = self.check(r[0], dims, pos, waves, n), np.asarray(r[1])
        return self.pair(ampl.ravel().tolist(), phase.ravel().tolist())

    def pair(self, ampl, phase):
        if V.cur() is not None:
            return [ampl, phase]
        # phases are compared as directions
        deg = math.pi / 180 if self.what == 'phases in degrees' else 1
        return [[a, a * math.cos(p * deg), a * math.sin(p * deg)] for a, p in zip(ampl, phase)]

    def check(self, r, dims, pos, waves, n):
        want = dims[:pos] + ['lon_wavenum'] + dims[pos + 1:]
        if list(r.dims) != want or list(r.lon_wavenum.values) != (waves or list(range(n // 2 + 1))):
            raise AssertionError('dimensions of the result: %r' % (r.dims,))
        return r.values

    def spec(self, f, g, pos, name, waves):
        if isinstance(pos, S.Q):
            pos, waves = int(pos.v), waves and [int(w.v) for w in waves]
        s = shape_of(f)
        n = s[pos]
        ks = waves or list(range(n // 2 + 1))
        memo = {}

        def coef(v, tag, rest, k):
            key = tag, rest, k
            if key not in memo:
                memo[key] = coefficient([at(v, rest[:pos] + (j,) + rest[pos:]) for j in range(n)], k)
            return memo[key]
        rows = s[:pos] + (len(ks),) + s[pos + 1:]
        flat = [i for i in np.ndindex(rows)]
        if self.what == 'contributions':
            def part(i):
                j, k = i[pos], ks[i[-1]]
                i = i[:-1]
                re, im = coef(f, 'f', i[:pos] + i[pos + 1:], k)
                c, q = unit(n, j * k)
                return (re * c - im * q) * twice(n, k) / n
            return nest(s + (len(ks),), part)
        co = [coef(f, 'f', i[:pos] + i[pos + 1:], ks[i[pos]]) for i in flat]
        if self.what == 'coefficients':
            return [[a for a, _ in co], [b for _, b in co]]
        if self.what == 'covariance':
            def cov(i):
                rest, k = i[:pos] + i[pos + 1:], ks[i[pos]]
                a, b = coef(f, 'f', rest, k), coef(g, 'g', rest, k)
                return (a[0] * b[0] + a[1] * b[1]) * twice(n, k) / (n * n)
            return nest(rows, cov)
        m = [twice(n, ks[i[pos]]) for i in flat]
        if V.cur() is not None:
            ph = [S.atan2(b, a) for a, b in co]
            if self.what == 'phases in degrees':
                ph = [p * 180 / S.pi() for p in ph]
            return [[S.sqrt(a * a + b * b) * t / n for (a, b), t in zip(co, m)], ph]
        return [[S.sqrt(a * a + b * b) * t / n, a * t / n, b * t / n] for (a, b), t in zip(co, m)]


def contracts(prop):
    out = [Lon180(), LonWindow(), Zonal(), Meridional()]
    for what in ('coefficients', 'amplitudes and phases', 'phases in degrees', 'contributions', 'covariance'):
        for pkg in ('scipy', 'xrft'):
            out.append(Waves(what, pkg))
    return out


def preload(prop):
    for m in (UTILS, MEANS, WAVES):
        C.loader().load(m)
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': 'three longitudes converted, three latitudes, transforms of 1, 2, 3, 4 and 6 longitudes when proved; at most twelve longitudes, eight latitudes '
                                       'and transforms of nine longitudes at run time; the xrft transforms at run time only',
            'assumptions': ['xarray is executed, not modelled, on arrays whose elements are symbolic numbers; its mean of an object array is told to add them as objects, not as floats',
                            'the scipy transforms are their defining sums with exact roots of unity (pydv/fourier.py)',
                            'the starting longitude of a window is not positive; the latitudes are in order and distinct']}
