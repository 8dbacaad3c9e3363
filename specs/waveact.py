"""C30: anomalies, projection on wave patterns, wave activity, skill and leading patterns."""
import contextlib, io, math, os, shutil, sys, tempfile, types
import numpy as np
from pydv import contract as C, spec as S, values as V
from .shape import Shape, X, Arr, xs, plain
from .fields import grid, missing
from .columns import at, shape_of, nest
from .zonal import total, object_sums
from .mjo import ints, labelled, times

ACT = 'metcalcpy.contributed.tropical_diagnostics.ccew_activity'
SP = 'metcalcpy.contributed.spacetime.spacetime'
NAN = math.nan


def stand_in():
    """The module imports a plotting library that need not be installed and that no contract uses."""
    try:
        import kaleido.scopes.plotly
    except ImportError:
        for name in ('kaleido', 'kaleido.scopes', 'kaleido.scopes.plotly'):
            m = sys.modules.setdefault(name, types.ModuleType(name))
            m.__path__ = []
        sys.modules['kaleido.scopes.plotly'].PlotlyScope = object


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), object_sums():
        return fn(*a, **k)


def floats(v):
    return np.array([float(at(v, i)) for i in np.ndindex(*shape_of(v))]).reshape(shape_of(v))


def same(a, b):
    if not a.identical(b):
        raise AssertionError('input modified')


def mean(v):
    v = [x for x in v if not missing(x)]
    return total(v) / len(v) if v else NAN


def less(x, m):
    return NAN if missing(x) or missing(m) else x - m


def calendar(n, step, start):
    return [str(t)[5:10] for t in times(n, step, start)]


class Anomaly(Shape):
    """args: field (time, lat, lon), hours between times, first day, mean of the day of the year?"""
    prop = 'C30'
    module = ACT
    quick_cases, thorough_cases = 80, 800
    tol = 1e-8

    def __init__(self, daily):
        self.daily = daily
        self.fn = 'rem_seas_cyc' if daily else 'rem_seas_mean'
        self.functions = [ACT + ':' + self.fn]
        self.name = 'anomalies from the mean of the calendar day' if daily else 'anomalies from the mean over time'

    def templates(self):
        for shape, step, start in (((2,), 24, 0), ((3,), 12, 0), ((3,), 24 * 365, 0), ((4, 1), 12, 3), ((2, 1, 2), 12, 0), ((3, 1, 2), 24 * 365, 40)):
            yield Arr(grid(shape)), step, start
        t = grid((4, 1))
        t[1][0] = NAN
        yield Arr(t), 12, 0

    def gen(self, rng):
        shape = [rng.randint(2, 9)] + [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
        f = grid(shape)
        if len(shape) == 2 and rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                f[rng.randrange(shape[0])][0] = NAN
        return Arr(f), rng.choice([24, 12, 6, 24 * 365, 24 * 365, 24 * 366, 12 * 365]), rng.choice([0, 58, 59, rng.randrange(800)])

    def pre(self, f, step, start):
        # some calendar day comes back
        step, start = ints(step, start)
        return not self.daily or len(set(calendar(len(f), step, start))) < len(f)

    def call(self, mod, args):
        f, step, start = args
        a = labelled(f, ('time', 'lat', 'lon')[:f.ndim], time=times(len(f), step, start))
        keep = a.copy(deep=True)
        r = quiet(getattr(mod, self.fn), a)
        if V.cur() is None:
            same(a, keep)
        if r.dims != a.dims or list(r['time'].values) != list(a['time'].values):
            raise AssertionError('dimensions or times of the result')
        return r.values

    def spec(self, f, step, start):
        step, start = ints(step, start)
        s = shape_of(f)
        days = calendar(s[0], step, start)
        def one(i):
            of = [t for t in range(s[0]) if not self.daily or days[t] == days[i[0]]]
            return less(at(f, i), mean([at(f, (t,) + i[1:]) for t in of]))
        return nest(s, one)


def months(n, step, start):
    return [int(str(t)[5:7]) for t in times(n, step, start)]


def project(f, e, lats, lons, elats, elons, mon):
    """One row per pattern, one column per time: sum over the points of the patterns' grid."""
    li, lj = [lats.index(x) for x in elats], [lons.index(x) for x in elons]
    sub = f[:, li][:, :, lj]
    return np.array([[float((e[(m - 1) if len(e) > 1 else 0, k] * sub[t]).sum()) for t, m in enumerate(mon)] for k in range(e.shape[1])])


class Projection(Shape):
    """args: field (time, lat, lon), hours between times, first day, rows of latitudes and longitudes around the patterns, monthly patterns, seed"""
    prop = 'C30'
    module, fn = ACT, 'waveproj'
    functions = [ACT + ':waveproj']
    name = 'projection on the patterns of the month'
    proof = False
    quick_cases, thorough_cases = 40, 300
    tol = 1e-8
    bound = 'up to six times, 5 x 6 points, four patterns'

    def gen(self, rng):
        n, nlat, nlon = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 6)
        return Arr(grid((n, nlat, nlon))), rng.choice([24, 12, 24 * 20, 24 * 31]), rng.choice([0, 29, 30, rng.randrange(800)]), \
            rng.randint(0, nlat - 1), rng.randint(0, nlon - 1), rng.random() < 0.5, rng.randint(0, 9999)

    def lay(self, f, south, west, monthly, seed):
        lats, lons = [-15.0 + 2.5 * i for i in range(f.shape[1])], [130.0 + 2.5 * i for i in range(f.shape[2])]
        elats, elons = lats[south:], lons[west:]
        r = np.random.default_rng(seed)
        elats, elons = elats[:r.integers(1, len(elats) + 1)], elons[:r.integers(1, len(elons) + 1)]
        e = r.normal(size=(12 if monthly else 1, int(r.integers(1, 5)), len(elats), len(elons))).round(3)
        return lats, lons, elats, elons, e

    def call(self, mod, args):
        import xarray as xr
        f, step, start, south, west, monthly, seed = args
        lats, lons, elats, elons, e = self.lay(f, south, west, monthly, seed)
        a = labelled(f, ('time', 'lat', 'lon'), time=times(len(f), step, start), lat=lats, lon=lons)
        p = xr.DataArray(e, dims=('month' if monthly else 'annual', 'eofnum', 'lat', 'lon'),
                         coords=[np.arange(len(e)) + int(monthly), np.arange(e.shape[1]) + 1, elats, elons])
        keep = a.copy(deep=True), p.copy(deep=True)
        r = quiet(mod.waveproj, a, p)
        same(a, keep[0])
        same(p, keep[1])
        if r.dims != ('eofnum', 'time') or list(r['time'].values) != list(a['time'].values):
            raise AssertionError('dimensions or times of the result')
        return r.values

    def spec(self, f, step, start, south, west, monthly, seed):
        step, start, south, west, seed = ints(step, start, south, west, seed)
        f = floats(f)
        lats, lons, elats, elons, e = self.lay(f, south, west, monthly, seed)
        return plain(project(f, e, lats, lons, elats, elons, months(len(f), step, start)))


class Activity(Projection):
    """args as for the projection, name of the wave"""
    fn = 'waveact'
    functions = [ACT + ':' + f for f in ('waveact', 'rem_seas_cyc', 'rem_seas_mean', 'waveproj')]
    name = 'wave activity from files of patterns'
    quick_cases, thorough_cases = 24, 150
    FILES = {'kelvin': 'EOF_1-4_130-270E_-15S-15N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_Kelvinband_',
             'er': 'EOF_1-4_60-220E_-21S-21N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_ERband_',
             'mjo': 'EOF_1-4_30-240E_-21S-21N_persiann_cdr_%s_nlat%d_fillmiss8314_1983-2016_MJOband_',
             'mrg': 'EOF_1-2_150-210E_-21S-21N_precip.trmm.8x.1deg.lats{1}.v7a.fillmiss.comp.1998-201806_MRGband_'}

    def gen(self, rng):
        f, step, start, south, west, monthly, seed = Projection.gen(self, rng)
        n = rng.randint(2, 6)
        f = Arr(grid((n,) + (len(f.v[0]), len(f.v[0][0]))))
        # a whole number of times a day; a calendar day comes back after a year
        step = rng.choice([24, 12, 6, 24 * 365, 24 * 20])
        return f, step, start, south, west, monthly, seed, rng.choice(['Kelvin', 'kelvin', 'ER', 'er', 'MJO', 'mjo', 'MRG', 'mrg'])

    def lay(self, f, south, west, monthly, seed, wave):
        lats, lons, elats, elons, e = Projection.lay(self, f, south, west, monthly, seed)
        k = 2 if wave.lower() == 'mrg' else 4
        e = np.random.default_rng(seed + 1).normal(size=(len(e), k, len(elats), len(elons))).round(3)
        return lats, lons, elats, elons, e

    def call(self, mod, args):
        import xarray as xr
        f, step, start, south, west, monthly, seed, wave = args
        lats, lons, elats, elons, e = self.lay(f, south, west, monthly, seed, wave)
        a = labelled(f, ('time', 'lat', 'lon'), time=times(len(f), step, start), lat=lats, lon=lons)
        if seed % 2:
            a.attrs['units'] = 'mm/d'
        d = tempfile.mkdtemp(prefix='wave_')
        try:
            name = self.FILES[wave.lower()]
            name = name.format('1p0', 180) if '{' in name else name % ('1p0', 180)
            for m in range(len(e)):
                xr.Dataset({'eof': (('eofnum', 'lat', 'lon'), e[m])}, coords={'eofnum': np.arange(e.shape[1]) + 1, 'lat': elats, 'lon': elons}) \
                    .to_netcdf(os.path.join(d, name + ('%02d.nc' % (m + 1) if monthly else 'annual.nc')))
            keep = a.copy(deep=True)
            r = quiet(mod.waveact, a, wave, d + '/', max(1, 24 // step), '1p0', 180, 'monthly' if monthly else 'annual')
        finally:
            shutil.rmtree(d)
        same(a, keep)
        if list(r['time'].values) != list(a['time'].values) or r.attrs.get('units') != a.attrs.get('units'):
            raise AssertionError('times or units of the result')
        return r.values

    def spec(self, f, step, start, south, west, monthly, seed, wave):
        step, start, south, west, seed = ints(step, start, south, west, seed)
        f = floats(f)
        lats, lons, elats, elons, e = self.lay(f, south, west, monthly, seed, wave)
        days = calendar(len(f), step, start)
        one = [int((t.astype('datetime64[D]') - t.astype('datetime64[Y]')) / np.timedelta64(1, 'D')) for t in times(len(f), step, start)][::max(1, 24 // step)]
        if len(set(one)) != len(one):
            if len(set(days)) == len(days):
                raise S.Skip()
            anom = np.array([f[t] - np.mean([f[u] for u in range(len(f)) if days[u] == days[t]], axis=0) for t in range(len(f))])
        else:
            anom = f - f.mean(axis=0)
        p = project(anom, e, lats, lons, elats, elons, months(len(f), step, start))
        return plain(np.sqrt((p ** 2).sum(axis=0)))


class Skill(Shape):
    """args: activity (lead time, line, time)"""
    prop = 'C30'
    module, fn = ACT, 'wave_skill'
    functions = [ACT + ':wave_skill']
    name = 'correlation of each line with the first'
    proof = False
    quick_cases, thorough_cases = 60, 500
    tol = 1e-7
    bound = 'up to four lead times, four lines, eight times'

    def gen(self, rng):
        return Arr(grid((rng.randint(1, 4), rng.randint(2, 4), rng.randint(3, 8)))),

    def call(self, mod, args):
        a = labelled(args[0], ('fchrs', 'line', 'time'), fchrs=24 * np.arange(args[0].shape[0]))
        keep = a.copy(deep=True)
        r = quiet(mod.wave_skill, a)
        same(a, keep)
        return r.values

    def spec(self, f):
        f = floats(f)
        if np.std(f, axis=2).min() < 1e-3:
            raise S.Skip()
        return plain(np.array([[np.corrcoef(x, row[0])[0, 1] for x in row[1:]] for row in f]))


class Leading(Shape):
    """args: data, number of patterns, covariance?, position of the time"""
    prop = 'C30'
    module, fn = ACT, 'eof_comp'
    functions = [ACT + ':eof_comp', ACT + ':opt_eof.__init__']
    name = 'leading patterns and explained variance'
    proof = False
    quick_cases, thorough_cases = 60, 500
    tol = 1e-6
    bound = 'up to six times, 2 x 3 points'

    def gen(self, rng):
        shape = [rng.randint(2, 3) for _ in range(rng.choice([1, 2]))]
        pos = rng.randint(0, len(shape))
        n = rng.randint(3, 6)
        k = rng.randint(1, min(n, int(np.prod(shape))))
        shape.insert(pos, n)
        return Arr(grid(shape)), k, rng.random() < 0.5, pos

    def call(self, mod, args):
        f, k, cov, pos = args
        dims = ['lat', 'lon'][:f.ndim - 1]
        dims.insert(pos, 'time')
        a = labelled(f, tuple(dims))
        keep = a.copy(deep=True)
        ts, var, eof = quiet(mod.eof_comp, a, k, mod.opt_eof(cov), pos)
        same(a, keep)
        rest = [n for i, n in enumerate(f.shape) if i != pos]
        if ts.shape != (f.shape[pos], k) or list(eof.shape) != [k] + rest:
            raise AssertionError('shapes of the results: %r %r' % (ts.shape, eof.shape))
        # the sign of a pattern is free: products of pattern and series
        e = eof.reshape(k, -1)
        return [var, [np.outer(ts[:, i], e[i]) for i in range(k)]]

    def spec(self, f, k, cov, pos):
        k, pos = ints(k, pos)
        f = floats(f)
        a = np.moveaxis(f, pos, 0).reshape(f.shape[pos], -1)
        if not cov:
            sd = a.std(axis=0)
            if sd.min() < 1e-3:
                raise S.Skip()
            a = (a - a.mean(axis=0)) / sd
        # leading eigenvectors of the matrix of products
        w, v = np.linalg.eigh(a @ a.T)
        w, v = w[::-1], v[:, ::-1]
        top = w[0]
        if any(w[i] < 1e-4 * top for i in range(k)) or any(w[i] - w[i + 1] < 1e-3 * top for i in range(min(k, len(w) - 1))):
            raise S.Skip()
        return plain([w[:k] / w.sum(), [np.outer(v[:, i], v[:, i] @ a / math.sqrt(w[i])) for i in range(k)]])


class Filter(Shape):
    """args: data (time, lon), observations per day, shortest and longest period, lowest and highest wavenumber (east positive), equivalent depths or -9999, wave"""
    prop = 'C30'
    module, fn = SP, 'kf_filter'
    functions = [SP + ':kf_filter', SP + ':kf_filter_mask']
    name = 'filter of a region of wavenumbers and frequencies'
    proof = False
    quick_cases, thorough_cases = 150, 1500
    tol = 1e-7
    bound = 'up to 40 times and twelve longitudes'

    def gen(self, rng):
        nt, nk = rng.randint(8, 40), rng.randint(4, 12)
        low = rng.randint(-(nk // 2) + 1, nk // 2 - 1)
        high = rng.randint(low, nk // 2 - 1)
        short = rng.choice([2.0, 2.5, 3.0, 5.0])
        depth = rng.choice([8, 12.0, 25.0])
        return Arr(grid((nt, nk))), rng.choice([1, 1, 2, 4]), short, short * rng.choice([1.5, 3.0, 10.0]), low, high, rng.choice([-9999, depth, depth]), \
            rng.choice([-9999, depth * 4, depth * 10]), rng.choice(['Kelvin', 'kelvin', 'ER', 'er', 'MRG', 'IG0', 'IG1', 'ig2', 'TD', 'MJO'])

    def call(self, mod, args):
        keep = args[0].copy()
        r = mod.kf_filter(*args)
        if not np.array_equal(keep, args[0]):
            raise AssertionError('input modified')
        return np.asarray(r)

    def frequency(self, wave, n, h):
        """angular frequency (1/s) of the wave of zonal wavenumber n and equivalent depth h"""
        re, g, omega = 6.371008e6, 9.80665, 7.292e-05
        beta, k, c = 2 * omega / re, n / re, math.sqrt(g * h)
        if wave == 'kelvin':
            return k * c
        if wave == 'er':
            return -beta * k / (k * k + 3 * beta / c)
        if wave in ('mrg', 'ig0'):
            return (k * c + math.sqrt(k * k * c * c + 4 * beta * c)) / 2
        return math.sqrt({'ig1': 3, 'ig2': 5}[wave] * beta * c + k * k * c * c)

    def spec(self, f, spd, short, long, low, high, shallow, deep, wave):
        f = floats(f)
        spd, low, high = ints(spd, low, high)
        short, long, shallow, deep = (float(x) for x in (short, long, shallow, deep))
        nt, nk = f.shape
        z = np.fft.rfft2(f.T)
        n = 2 * (z.shape[1] - 1)
        wave = wave.lower()
        for p in (short, long):
            if abs((n / (p * spd)) % 1 - 0.5) < 1e-6:
                raise S.Skip()
        first, last = round(n / (long * spd)), round(n / (short * spd))
        per = 24 * 3600 / (2 * math.pi * spd) * n
        for i in range(nk):
            # the transform of exp(i k x) exp(i w t), w > 0, moves west for k > 0
            k = -i if i < nk / 2 else nk - i
            if nk % 2 == 0 and i == nk // 2:
                k = -(nk // 2)
            for j in range(z.shape[1]):
                inside = low <= k <= high and first <= j <= last
                if inside and wave in ('kelvin', 'er', 'mrg', 'ig0', 'ig1', 'ig2'):
                    for h, side in ((shallow, 0), (deep, 1)):
                        if h != -9999:
                            x = self.frequency(wave, k, h) * per
                            if abs(x - round(x)) < 1e-6 and k:
                                raise S.Skip()
                            if side == 0 and j < math.floor(x + 1e-9) or side == 1 and j > max(0, math.ceil(x - 1e-9)):
                                inside = False
                if not inside:
                    z[i, j] = 0
        return plain(np.fft.irfft2(z, s=(nk, nt)).T)


def contracts(prop):
    return [Filter(), Anomaly(True), Anomaly(False), Projection(), Activity(), Skill(), Leading()]


def preload(prop):
    stand_in()
    for m in (ACT, SP):
        C.loader().load(m)
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': 'anomalies proved for at most four times and two points; projections, activity, skill and leading patterns at run time only, on small fields',
            'assumptions': ['xarray is executed, not modelled, on arrays whose elements are symbolic numbers',
                            'the image library imported by the module is replaced by an empty stand-in when it is not installed; plotting is not run',
                            'anomalies from calendar days are asked for when some calendar day comes back',
                            'patterns lie on points of the data grid; leading patterns have distinct singular values']}
