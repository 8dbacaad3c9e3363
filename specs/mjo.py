"""C26: projection of daily fields on MJO patterns, removal of recent means, time filters."""
import math
import numpy as np
from pydv import contract as C, spec as S, values as V
from .shape import Shape, X, Arr, Raises, xs, plain
from .fields import grid, missing
from .columns import at, shape_of, nest
from .zonal import total

MJO = 'metcalcpy.contributed.rmm_omi.compute_mjo_indices'
NAN = math.nan


def ints(*v):
    return [int(x.v) if isinstance(x, S.Q) else x for x in v]


def times(n, step, start):
    """n times, step hours apart"""
    return np.datetime64('2003-01-01T00', 'ns') + np.timedelta64(24 * 3600 * 10 ** 9, 'ns') * start + np.arange(n) * np.timedelta64(3600 * 10 ** 9, 'ns') * step


def labelled(v, dims, **coords):
    import xarray as xr
    return xr.DataArray(v.view(np.ndarray), dims=dims, coords=coords)


def dot(a, b):
    return total([x * y for x, y in zip(a, b)])


def dependent(e, f):
    """The patterns do not determine the coefficients."""
    det = dot(e, e) * dot(f, f) - dot(e, f) * dot(e, f)
    if V.cur() is None:
        return abs(float(det)) <= 1e-3 * float(dot(e, e) * dot(f, f))
    return det == 0


def coefficients(v, e, f):
    """Least-squares coefficients of v on the patterns e and f."""
    a, b, c = dot(e, e), dot(e, f), dot(f, f)
    p, q = dot(e, v), dot(f, v)
    det = a * c - b * b
    return (c * p - b * q) / det, (a * q - b * p) / det


def recent(v, t, w):
    """Value t of a series minus the mean of the available values among it and the w before it."""
    past = [x for x in v[max(0, t - w):t + 1] if not missing(x)]
    if missing(v[t]):
        return NAN
    return v[t] - total(past) / len(past)


class Vector(Shape):
    prop = 'C26'
    module, fn = MJO, 'regress_vector_onto_eofs'
    functions = [MJO + ':regress_vector_onto_eofs']
    name = 'coefficients of one field on two patterns'
    quick_cases, thorough_cases = 200, 2000
    tol = 1e-7

    def templates(self):
        for n in (2, 3, 4):
            yield Arr(xs(n)), Arr(xs(n)), Arr(xs(n))

    def gen(self, rng):
        n = rng.randint(2, 12)
        return Arr(xs(n)), Arr(xs(n)), Arr(xs(n))

    def pre(self, v, e, f):
        return not dependent(e, f)

    def spec(self, v, e, f):
        return list(coefficients(v, e, f))


class Recent(Shape):
    """args: field, hours between times"""
    prop = 'C26'
    module, fn = MJO, 'rem_120day_mean'
    functions = [MJO + ':rem_120day_mean']
    name = 'mean of the last 120 days removed'
    quick_cases, thorough_cases = 150, 1500

    def templates(self):
        for n, step in ((2, 24 * 120), (3, 24 * 120), (4, 24 * 60), (5, 24 * 40), (3, 24), (4, 24 * 50)):
            yield Arr(grid((n, 1))), step
        yield Arr(grid((3, 2))), 24 * 60
        yield Arr(grid((3, 1, 2))), 24 * 120
        t = grid((4, 2))
        t[1][0] = NAN
        yield Arr(t), 24 * 120

    def gen(self, rng):
        step = rng.choice([24 * 120, 24 * 60, 24 * 40, 24 * 30, 24 * 7, 24, 12, 24 * 50, 18])
        n = min(rng.randint(2, 9), 9) if rng.random() < 0.8 else 24 * 120 // step + rng.randint(0, 4)
        n = max(2, min(n, 250))
        f = grid([n] + [rng.randint(1, 2) for _ in range(rng.randint(1, 2))])
        if rng.random() < 0.2:
            f[rng.randrange(n)][0] = NAN if not isinstance(f[0][0], list) else [NAN] * len(f[0][0])
        return Arr(f), step

    def call(self, mod, args):
        f, step = args
        n = len(f)
        a = labelled(f, ('time', 'lat', 'lon')[:f.ndim])
        r = mod.rem_120day_mean(a, times(n, step, 0))
        if r.dims != a.dims:
            raise AssertionError('dimensions of the result')
        return r.values

    def spec(self, f, step):
        step, = ints(step)
        s, w = shape_of(f), (24 * 120) // step
        return nest(s, lambda i: recent([at(f, (t,) + i[1:]) for t in range(s[0])], i[0], w))


class Daily(Shape):
    """args: field (time, lat, lon), hours between times, first day, patterns by day of the year, wrong grid"""
    prop = 'C26'
    module, fn = MJO, 'regress_3dim_data_onto_eofs'
    functions = [MJO + ':regress_3dim_data_onto_eofs', MJO + ':regress_vector_onto_eofs']
    name = 'coefficients on the patterns of the day of the year'
    quick_cases, thorough_cases = 80, 800
    tol = 1e-7

    def make(self, n, step, start, rows, nlat, nlon, wrong=None):
        return Arr(grid((n, nlat, nlon))), step, start, Arr(grid((rows, nlat, nlon))), Arr(grid((rows, nlat, nlon))), wrong

    def templates(self):
        yield self.make(1, 24, 0, 2, 1, 2)
        yield self.make(2, 24, 0, 3, 1, 2)
        yield self.make(2, 12, 0, 3, 2, 1)
        yield self.make(2, 24, 1, 3, 2, 2)
        yield self.make(1, 24, 0, 1, 1, 2, 'lon')
        yield self.make(1, 24, 0, 1, 2, 1, 'lat')

    def gen(self, rng):
        n, step, start = rng.randint(1, 5), rng.choice([6, 12, 24, 24, 48]), rng.randint(0, 5)
        w = rng.choice([None, None, None, None, 'lat', 'lon'])
        return self.make(n, step, start, start + n * step // 24 + 2, rng.randint(1, 3), rng.randint(2, 4), w)

    def day(self, t, step, start):
        return start + t * step // 24

    def pre(self, f, step, start, e, g, wrong):
        step, start = ints(step, start)
        if wrong:
            return True
        for d in sorted({self.day(t, step, start) for t in range(len(f))}):
            if dependent(flat(e[d]), flat(g[d])):
                return False
        return True

    def axes(self, f, wrong, k):
        lat, lon = 2.5 * np.arange(f.shape[1]), 2.5 * np.arange(f.shape[2])
        if wrong == 'lon' and k:
            lon = lon + (2.5 if f.shape[0] % 2 else 1)
        if wrong == 'lat' and k:
            lat = lat + (2.5 if f.shape[0] % 2 else 1)
        return {'lat': lat, 'lon': lon}

    def call(self, mod, args):
        f, step, start, e, g, wrong = args
        t = times(len(f), step, start)
        a = labelled(f, ('time', 'lat', 'lon'), time=t, **self.axes(f, wrong, 0))
        co = self.axes(f, wrong, 1)
        r = mod.regress_3dim_data_onto_eofs(a, t, labelled(e, ('day', 'lat', 'lon'), **co), labelled(g, ('day', 'lat', 'lon'), **co))
        return [plain(r[0]), plain(r[1])]

    def spec(self, f, step, start, e, g, wrong):
        step, start = ints(step, start)
        if wrong:
            raise Raises(ValueError)
        r = []
        for t in range(len(f)):
            d = self.day(t, step, start)
            r.append(coefficients(flat(f[t]), flat(e[d]), flat(g[d])))
        return [[a for a, _ in r], [b for _, b in r]]


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


class Rmm(Shape):
    """args: the three variables, hours between times, patterns, their factors, factors of the coefficients, wrong grid"""
    prop = 'C26'
    module, fn = MJO, 'rmm'
    functions = [MJO + ':rmm', MJO + ':rem_120day_mean', MJO + ':regress_2dim_data_onto_eofs', MJO + ':regress_vector_onto_eofs']
    name = 'RMM index'
    quick_cases, thorough_cases = 100, 1000
    tol = 1e-7

    def make(self, n, m, step, wrong=None):
        return [Arr(grid((n, m))) for _ in range(3)], step, Arr(grid((3, m))), Arr(grid((3, m))), \
            xs(3, lo=0.5, hi=20), xs(2, lo=0.5, hi=20), wrong

    def templates(self):
        yield self.make(2, 1, 24 * 120)
        yield self.make(3, 1, 24 * 120)
        yield self.make(2, 2, 24)
        yield self.make(2, 2, 24, 0)
        yield self.make(2, 1, 24, 1)
        yield self.make(2, 1, 24, 2)

    def gen(self, rng):
        return self.make(rng.randint(2, 6), rng.randint(1, 5), rng.choice([24, 24 * 30, 24 * 60, 24 * 120]), rng.choice([None] * 5 + [0, 1, 2]))

    def pre(self, v, step, e, f, *rest):
        return not dependent(flat(e), flat(f))

    def call(self, mod, args):
        v, step, e, f, norm, pc, wrong = args
        n, m = v[0].shape
        t = times(n, step, 0)
        lon = 2.5 * np.arange(m)
        a = [labelled(x, ('time', 'lon'), time=t, lon=lon + (2.5 if n % 2 else 1) * (wrong == i)) for i, x in enumerate(v)]
        r = mod.rmm(*a, t, 1, labelled(e, ('variable', 'lon'), lon=lon), labelled(f, ('variable', 'lon'), lon=lon), norm, pc)
        if any(x.dims != ('time',) or list(x['time'].values) != list(t) for x in r):
            raise AssertionError('coordinates of the result')
        return [plain(x.values) for x in r]

    def spec(self, v, step, e, f, norm, pc, wrong):
        step, = ints(step)
        if wrong is not None:
            raise Raises(ValueError)
        n, m, w = len(v[0]), len(v[0][0]), (24 * 120) // step
        out = [[], []]
        for t in range(n):
            row = [recent([x[j] for x in v[k]], t, w) / norm[k] for k in range(3) for j in range(m)]
            a, b = coefficients(row, flat(e), flat(f))
            out[0].append(a / pc[0])
            out[1].append(b / pc[1])
        return out


class Taper(Shape):
    prop = 'C26'
    module, fn = MJO, 'taper_vector_to_zero'
    functions = [MJO + ':taper_vector_to_zero']
    name = 'taper'
    exact_pi = True
    frame = False
    quick_cases, thorough_cases = 200, 2000

    def templates(self):
        for n, w in ((1, 1), (2, 1), (3, 2), (4, 2), (4, 4), (5, 1), (6, 3)):
            yield Arr(xs(n)), w

    def gen(self, rng):
        n = rng.randint(1, 30)
        return Arr(xs(n)), rng.randint(0, n)

    def spec(self, v, w):
        w, = ints(w)
        out = list(v)
        for j in range(w):
            k = (1 - S.cos(j * S.pi() / w)) / 2
            out[j] = out[j] * k
            out[-1 - j] = out[-1 - j] * k
        return out


class Variance(Shape):
    prop = 'C26'
    module, fn = MJO, 'zon_avg_variance'
    functions = [MJO + ':zon_avg_variance']
    name = 'zonal mean of the variance in time'
    quick_cases, thorough_cases = 200, 2000

    def templates(self):
        for s in ((1, 1), (2, 1), (2, 3), (3, 2)):
            yield (Arr(grid(s)),)
        f = grid((3, 2))
        f[1][0] = NAN
        yield (Arr(f),)

    def gen(self, rng):
        f = grid((rng.randint(1, 6), rng.randint(1, 5)))
        if len(f) > 1 and rng.random() < 0.3:
            f[0][0] = NAN
        return (Arr(f),)

    def spec(self, f):
        var = []
        for j in range(len(f[0])):
            v = [r[j] for r in f if not missing(r[j])]
            m = total(v) / len(v)
            var.append(total([(x - m) * (x - m) for x in v]) / len(v))
        return total(var) / len(var)


# ---- time filters: padded to a length no path can be followed for; run-time evaluations only --------
def floats(f):
    return np.array(nest(shape_of(f), lambda i: float(at(f, i))))


def prepared(f, n, w):
    """Linear trend removed, beginning tapered over w values, zeros appended up to n."""
    nt = len(f)
    x = np.arange(nt) - (nt - 1) / 2
    f = f - f.mean(axis=0)
    if nt > 1:
        f = f - x[:, None, None] * (x[:, None, None] * f).sum(axis=0) / (x * x).sum()
    out = np.zeros((n,) + f.shape[1:])
    out[:nt] = f
    k = 0.5 * (1 - np.cos(np.arange(w) * math.pi / w))[:, None, None] if w else None
    if w:
        out[:w] *= k
        out[n - w:] *= k[::-1]
    return out


def near(x):
    return abs(x - round(x)) < 1e-6


class Filter(Shape):
    prop = 'C26'
    proof = False
    tol = 1e-7
    bound = 'fields of up to 120 times and 2 x 5 points, steps of 6 hours to 2 days'

    def field(self, rng, least=1, most=2):
        return Arr(grid((rng.randint(2, 120) if rng.random() < 0.5 else rng.randint(2, 12), rng.randint(1, 2), rng.randint(least, most))))

    def periods(self, rng):
        a = rng.choice([2.3, 5.1, 9.7, 20, 30.3])
        return a, a + rng.choice([3.3, 10.1, 40.7, 76])


class Band(Filter):
    """args: field, hours between times, shortest and longest period"""
    module, fn = MJO, 'bandpass_filter_3D'
    functions = [MJO + ':bandpass_filter_3D']
    name = 'band-pass filter in time'
    quick_cases, thorough_cases = 40, 250

    def gen(self, rng):
        return (self.field(rng), rng.choice([6, 12, 24, 24, 48])) + self.periods(rng)

    def call(self, mod, args):
        f, step, a, b = args
        t = times(len(f), step, 0)
        x = labelled(f, ('time', 'lat', 'lon'), time=t)
        r = mod.bandpass_filter_3D(x, t, a, b)
        if r.dims != x.dims or list(r['time'].values) != list(t):
            raise AssertionError('coordinates of the result')
        return r.values

    def spec(self, f, step, a, b):
        f, dt, a, b, n = floats(f), float(step) / 24, float(a), float(b), 2 ** 17
        if near(n * dt / a) or near(n * dt / b):
            raise S.Skip()
        x = prepared(f, n, int(10 / dt))
        y = np.fft.rfft(x, axis=0)
        k = np.arange(len(y)) / (n * dt)
        y[(k < 1 / b) | (k > 1 / a)] = 0
        return plain(np.fft.irfft(y, n, axis=0)[:len(f)])


def passed(f, dt, a, b, lo, hi):
    """Components of period a to b (days) and eastward wavenumber lo to hi."""
    n, m = len(f) + 1000, f.shape[2]
    x = prepared(f, n, int(10 / dt))
    y = np.fft.fft2(x, axes=(0, 2))
    for i in range(n):
        for j in range(m):
            p = i if i <= n / 2 else i - n
            q = -j if j <= m / 2 else m - j
            if p < 0 or p == 0 and q > 0:
                p, q = -p, (-q if 2 * j != m else q)
            if not (1 / b <= p / (n * dt) <= 1 / a and lo <= q <= hi):
                y[i, :, j] = 0
    return np.fft.ifft2(y, axes=(0, 2)).real[:len(f)]


class Spectral(Filter):
    """args: field, days between times, shortest and longest period, limits of the wavenumber"""
    module, fn = MJO, 'perform_3dim_spectral_filtering'
    functions = [MJO + ':perform_3dim_spectral_filtering']
    name = 'filter in time and longitude'
    quick_cases, thorough_cases = 40, 250

    def gen(self, rng):
        w = rng.choice([(-720, 720), (-720, 720), (0.5, 9.5), (-9.5, -0.5), (-1.5, 1.5), (-0.5, 1.5), (1.5, 2.5)])
        return (self.field(rng, 2, 6), rng.choice([0.25, 0.5, 1, 1, 2])) + self.periods(rng) + w

    def call(self, mod, args):
        f, dt, a, b, lo, hi = args
        x = labelled(f, ('time', 'lat', 'lon'), time=times(len(f), int(24 * dt), 0), lat=2.5 * np.arange(f.shape[1]))
        r = mod.perform_3dim_spectral_filtering(x, dt, a, b, lo, hi)
        if r.dims != x.dims:
            raise AssertionError('dimensions of the result')
        return r.values

    def spec(self, f, dt, a, b, lo, hi):
        f, dt, a, b, lo, hi = floats(f), float(dt), float(a), float(b), float(lo), float(hi)
        n = len(f) + 1000
        if near(n * dt / a) or near(n * dt / b) or a <= 2 * dt:      # a wave of two steps moves either way
            raise S.Skip()
        return plain(passed(f, dt, a, b, lo, hi))


class Omi(Filter):
    """args: field, hours between times, first day, seed of the patterns, wrong grid"""
    module, fn = MJO, 'omi'
    functions = [MJO + ':omi', MJO + ':perform_3dim_spectral_filtering', MJO + ':regress_3dim_data_onto_eofs']
    name = 'OMI index'
    quick_cases, thorough_cases = 30, 200

    def gen(self, rng):
        return Arr(grid((rng.randint(3, 40), rng.randint(1, 2), rng.randint(2, 4)))), rng.choice([12, 24, 24, 24 * 5]), rng.randint(0, 800), \
            rng.randrange(1000), rng.choice([None] * 5 + ['lat', 'lon'])

    axes = Daily.axes

    def patterns(self, seed, s):
        r = np.random.RandomState(seed)
        return r.uniform(-3, 3, (366,) + s), r.uniform(-3, 3, (366,) + s)

    def call(self, mod, args):
        f, step, start, seed, wrong = args
        t = times(len(f), step, start)
        co = self.axes(f, wrong, 1)
        e, g = (labelled(x, ('day', 'lat', 'lon'), **co) for x in self.patterns(seed, f.shape[1:]))
        r = mod.omi(labelled(f, ('time', 'lat', 'lon'), time=t, **self.axes(f, wrong, 0)), t, 1, e, g)
        if any(x.dims != ('time',) or list(x['time'].values) != list(t) for x in r):
            raise AssertionError('coordinates of the result')
        return [plain(x.values) for x in r]

    def spec(self, f, step, start, seed, wrong):
        step, start, seed = ints(step, start, seed)
        if wrong:
            raise Raises(ValueError)
        import datetime
        f, dt = floats(f), step / 24
        n = len(f) + 1000
        if near(n * dt / 20) or near(n * dt / 96):
            raise S.Skip()
        y = passed(f, dt, 20, 96, -720, 720)
        e, g = self.patterns(seed, f.shape[1:])
        pc = []
        for t in range(len(f)):
            d = (datetime.datetime(2003, 1, 1) + datetime.timedelta(days=start, hours=t * step)).timetuple().tm_yday - 1
            m = np.array([e[d].ravel(), g[d].ravel()])
            if np.linalg.cond(m @ m.T) > 1e4:
                raise S.Skip()
            pc.append(np.linalg.solve(m @ m.T, m @ y[t].ravel()))
        pc = np.array(pc).T
        if np.std(pc[0]) < 1e-6:
            raise S.Skip()
        return plain(pc / np.std(pc[0]))


def contracts(prop):
    return [Vector(), Recent(), Daily(), Rmm(), Taper(), Variance(), Band(), Spectral(), Omi()]


def preload(prop):
    C.loader().load(MJO)
    C.real(MJO)


def info(prop):
    return {'level': 'proof', 'bound': 'five times and four points when proved (means, patterns, tapers, RMM); the band-pass filters and OMI are padded with a thousand zeros or more '
                                       'and are judged at run time only, on up to 120 times and 2 x 6 points',
            'assumptions': ['least squares on two linearly independent patterns is the solution of the normal equations',
                            'the two patterns are linearly independent; the field has at least two longitudes',
                            'xarray is executed, not modelled, on arrays whose elements are symbolic numbers',
                            'filter limits do not coincide with a frequency or wavenumber of the transform, and the shortest period is longer than two time steps']}
