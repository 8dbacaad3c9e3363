"""C31: surface stress of the MJO, its wind power on the Kelvin wave, MaKE and MaKI indices."""
import contextlib, datetime, io, math
import numpy as np
from pydv import contract as C, spec as S
from .shape import Shape, X, Arr, xs, plain
from .fields import grid
from .mjo import ints
from .waveact import floats, same

ENSO = 'metcalcpy.contributed.mjo_enso.compute_mjo_enso'
NAN = math.nan


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def noise(seed, *shape):
    return np.random.default_rng(seed).normal(size=shape).round(3)


def days(n, start='2001-01-01'):
    return np.datetime64(start, 'ns') + np.arange(n) * np.timedelta64(24 * 3600 * 10 ** 9, 'ns')


def array(v, **coords):
    import xarray as xr
    return xr.DataArray(v, dims=list(coords), coords=coords)


class Stress(Shape):
    """args: times, latitudes, longitudes, lengths of the two filters, number of patterns, land points, seed"""
    prop = 'C31'
    module, fn = ENSO, 'calc_tau_MJO'
    functions = [ENSO + ':calc_tau_MJO']
    name = 'stress of the MJO'
    proof = False
    quick_cases, thorough_cases = 40, 300
    # computed in single precision
    tol = 2e-3
    bound = 'up to thirty days, 3 x 3 points'

    def gen(self, rng):
        nlat, nlon = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)])
        n = rng.randint(12, 30)
        return n, nlat, nlon, rng.choice([1, 3, 5, 9]), rng.choice([1, 3, 4, 7]), rng.randint(4, 6), rng.randint(0, nlat * nlon - 2), rng.randint(0, 99999)

    def data(self, n, nlat, nlon, a, b, k, land, seed):
        f, e = noise(seed, n, nlat, nlon), noise(seed + 1, k, nlat, nlon)
        gone = np.random.default_rng(seed + 2).permutation(nlat * nlon)[:land]
        f.reshape(n, -1)[:, gone] = NAN
        return f, e, noise(seed + 3, a, nlat * nlon - land), noise(seed + 4, b, nlat * nlon - land)

    def call(self, mod, args):
        f, e, p, q = self.data(*args)
        lat, lon = np.arange(f.shape[1]) * 2.0 - 1, 150 + np.arange(f.shape[2]) * 2.0
        x, y = array(f, time=days(len(f)), lat=lat, lon=lon), array(e, time=np.arange(len(e)), lat=lat, lon=lon)
        keep = [x.copy(deep=True), y.copy(deep=True), p.copy(), q.copy()]
        r = quiet(mod.calc_tau_MJO, x, y, p, q)
        same(x, keep[0])
        same(y, keep[1])
        if not (np.array_equal(p, keep[2]) and np.array_equal(q, keep[3])):
            raise AssertionError('filters modified')
        return r.transpose('time', 'lat', 'lon').values

    def spec(self, *args):
        args = ints(*args)
        f, e, p, q = self.data(*args)
        n = len(f)
        flat, pats = f.reshape(n, -1), e.reshape(len(e), -1)
        sea = [i for i in range(flat.shape[1]) if flat[0, i] == flat[0, i]]

        def smooth(v, w):
            """centred sum of products, the series taken as zero outside"""
            half = (len(w) - 1) // 2
            return np.array([sum(w[j] * v[t + half - j] for j in range(len(w)) if 0 <= t + half - j < n) for t in range(n)])
        y = np.array([smooth(flat[:, i] - smooth(flat[:, i], p[:, c]), q[:, c]) for c, i in enumerate(sea)])
        out = np.full(flat.shape, NAN)
        tot = 0
        for j in range(4):
            pc = pats[j, sea] @ y / len(sea)
            sd = np.std(pc, ddof=1)
            if sd < 0.02:
                raise S.Skip()
            tot = tot + np.outer(pc, y @ pc / sd)
        out[:, sea] = tot
        return plain(out.reshape(f.shape))


class Power(Shape):
    """args: southern and northern latitude, number of latitudes, longitudes, times, seed"""
    prop = 'C31'
    module, fn = ENSO, 'calc_wpower_MJO'
    functions = [ENSO + ':calc_wpower_MJO']
    name = 'wind power on the Kelvin wave'
    proof = False
    quick_cases, thorough_cases = 60, 500
    tol = 1e-7
    bound = 'up to fifteen latitudes between 12S and 12N'

    def gen(self, rng):
        return rng.choice([-12.0, -10.0, -5.0, -4.0, -2.5]), rng.choice([3.0, 4.0, 5.0, 10.0, 12.0]), rng.randint(3, 15), rng.randint(1, 3), rng.randint(1, 3), \
            rng.randint(0, 99999)

    def structure(self, south, north, n):
        """Structure of the equatorial Kelvin wave at the middles of n equal intervals: d phi / d y = - y phi by the trapezoidal rule from the point next to the equator."""
        scale = math.sqrt(math.sqrt(9.81e-2 * 90) / 2.28e-11) / 111000
        a, b = south / scale, north / scale
        h = (b - a) / n
        y = [a + (j + 0.5) * h for j in range(n)]
        near = sorted(range(n), key=lambda j: abs(y[j]))
        if abs(abs(y[near[0]]) - abs(y[near[1]])) < 1e-9:
            # either neighbour may be taken
            raise S.Skip()
        k = near[0]
        if k == n - 1:
            raise S.Skip()
        phi = [0.0] * n
        phi[k] = math.exp(-y[k] ** 2 / 2) / math.sqrt(math.sqrt(math.pi) * (math.erf(b) - math.erf(a)))
        for j in range(k, n - 1):
            phi[j + 1] = phi[j] * (1 - h * y[j] / 2) / (1 + h * y[j + 1] / 2)
        for j in range(k, 0, -1):
            phi[j - 1] = phi[j] * (1 + h * y[j] / 2) / (1 - h * y[j - 1] / 2)
        return np.array(phi)

    def data(self, south, north, n, nlon, nt, seed):
        return [noise(seed + i, nt, n, nlon) for i in range(4)]

    def call(self, mod, args):
        south, north, n, nlon, nt, seed = args
        lat, lon = np.linspace(south, north, n), 150.0 + np.arange(nlon)
        given = [array(x, time=days(nt), lat=lat, lon=lon) for x in self.data(*args)]
        keep = [x.copy(deep=True) for x in given]
        r = quiet(mod.calc_wpower_MJO, *given)
        for x, k in zip(given, keep):
            same(x, k)
        if r.dims != ('time', 'lat', 'lon'):
            raise AssertionError('dimensions of the result')
        return r.values

    def spec(self, south, north, n, nlon, nt, seed):
        south, north = float(south), float(north)
        n, nlon, nt, seed = ints(n, nlon, nt, seed)
        u, v, tx, ty = self.data(south, north, n, nlon, nt, seed)
        return plain((u * tx + v * ty) * self.structure(south, north, n)[None, :, None])


class Indices(Shape):
    """args: first year, months, longitudes, seed"""
    prop = 'C31'
    module, fn = ENSO, 'make_maki'
    functions = [ENSO + ':make_maki']
    name = 'MaKE and MaKI indices'
    proof = False
    quick_cases, thorough_cases = 12, 60
    tol = 1e-7
    bound = 'up to thirty months, three longitudes'

    def gen(self, rng):
        # the ninety-first day is the first of April
        return rng.choice([2001, 2002, 2003, 2005]), rng.randint(6, 30), rng.randint(1, 3), rng.randint(0, 99999)

    def length(self, year, months):
        return (datetime.date(year + months // 12, months % 12 + 1, 1) - datetime.date(year, 1, 1)).days

    def call(self, mod, args):
        year, months, nlon, seed = args
        n = self.length(year, months)
        t, lon = days(n, '%d-01-01' % year), 150.0 + np.arange(nlon)
        sst, w = array(noise(seed, n, nlon), time=t, lon=lon), array(noise(seed + 1, n, nlon) * 3, time=t, lon=lon)
        e = array(noise(seed + 2, 2, 2 * nlon), number=np.arange(2), lonn=np.arange(2 * nlon))
        keep = [x.copy(deep=True) for x in (sst, w, e)]
        r = quiet(mod.make_maki, sst, w, e)
        for x, k in zip((sst, w, e), keep):
            same(x, k)
        want = ['%04d-%02d-01' % (year + m // 12, m % 12 + 1) for m in range(3, months)]
        for x in r:
            if [str(s)[:10] for s in x['time'].values] != want:
                raise AssertionError('months of the result: %s' % x['time'].values)
        return [x.values for x in r]

    def spec(self, year, months, nlon, seed):
        year, months, nlon, seed = ints(year, months, nlon, seed)
        n = self.length(year, months)
        sst, w, e = noise(seed, n, nlon), noise(seed + 1, n, nlon) * 3, noise(seed + 2, 2, 2 * nlon)
        rows = np.hstack([w / w.std(axis=0), sst / sst.std(axis=0)])
        a, b = (-(rows @ p) for p in e)
        a, b = a / a.std(), b / b.std()
        out = []
        for v in (a + abs(b), a + b):
            first = [(datetime.date(year + m // 12, m % 12 + 1, 1) - datetime.date(year, 1, 1)).days for m in range(3, months)]
            x = np.array([min(v[d - 90:d + 1]) for d in first])
            if x.std() < 1e-3:
                raise S.Skip()
            out.append(x / x.std())
        return plain(out)


def contracts(prop):
    return [Stress(), Power(), Indices()]


def preload(prop):
    C.loader().load(ENSO)
    C.real(ENSO)


def info(prop):
    return {'level': 'exploration', 'bound': 'stress of up to thirty days and 3 x 3 points, up to fifteen latitudes, up to thirty months; at run time only',
            'assumptions': ['points are land at every time or at none, and at least two are sea; filters are shorter than the series',
                            'latitudes span the equator, the last one is not the one next to it; the ninety-first day is the first of a month']}
