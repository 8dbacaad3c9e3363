"""C27: weather regimes; C28: blocking."""
import contextlib, datetime, io, math, os, shutil, tempfile, types
import numpy as np
from pydv import contract as C, models as M, spec as S, terms as T, values as V
from pydv.loader import Loader
from .shape import Shape, X, Arr, Raises, xs, plain
from .fields import grid, missing
from .columns import at, shape_of, nest
from .zonal import total
from .mjo import ints, floats

PKG = 'metcalcpy.contributed.blocking_weather_regime.'
REGIME, UTIL, BLOCK = PKG + 'WeatherRegime', PKG + 'Blocking_WeatherRegime_util', PKG + 'Blocking'
NAN = math.nan


@contextlib.contextmanager
def settings(**env):
    """Environment variables of the calculation."""
    old = {k: os.environ.get(k) for k in env}
    os.environ.update({k: str(v) for k, v in env.items()})
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def regimes(mod, **env):
    e = {'SCRIPT_OUTPUT_BASE': '/nonexistent'}
    e.update({'T_' + k if not k.startswith('SCRIPT') else k: v for k, v in env.items()})
    with settings(**e):
        return mod.WeatherRegimeCalculation('T')


def lab():
    """pylab: its numpy functions are those of the numpy contract."""
    import pylab
    m = types.ModuleType('pylab')
    for k, v in vars(pylab).items():
        if k.startswith('_'):
            continue
        if k in ('np', 'numpy'):
            v = M.MODELS['numpy']
        elif callable(v) and not isinstance(v, type) and getattr(np, k, None) is v:
            v = getattr(M.MODELS['numpy'], k)
        setattr(m, k, v)
    return m


class Stats:
    """scipy.stats: a correlation is some number that depends on the two samples only"""
    @staticmethod
    def pearsonr(x, y, *a, **k):
        if not M.contains_sym([x, y]):
            import scipy.stats
            return scipy.stats.pearsonr(x, y, *a, **k)
        key = tuple(e.t.id for e in np.asarray(x.view(np.ndarray)).ravel()), tuple(e.t.id for e in np.asarray(y.view(np.ndarray)).ravel())
        return V.SReal(T.var(('corr',) + key), 'np'), V.SReal(T.var(('p',) + key), 'np')

    def __getattr__(self, n):
        import scipy.stats
        return getattr(M.Guard(scipy.stats, 'scipy.stats'), n)


class Scipy:
    stats = Stats()
    signal = M.MODELS['scipy.signal']

    def __getattr__(self, n):
        import scipy
        return getattr(M.Guard(scipy, 'scipy'), n)


_loader = None


def load(name):
    global _loader
    if _loader is None:
        _loader = Loader(C.REPO, extra_models={'pylab': lab(), 'scipy': Scipy(), 'scipy.stats': Scipy.stats})
    return _loader.load(name)


class Regime(Shape):
    prop = 'C27'
    module = REGIME

    def call(self, mod, args):
        if V.cur() is not None:
            mod = load(self.module)
        return self.go(mod, *args)


@contextlib.contextmanager
def clusters(**fitted):
    """K-means that finds the given clusters."""
    from sklearn.cluster import KMeans
    old = KMeans.fit

    def fit(self, x, *a, **k):
        for n, v in fitted.items():
            setattr(self, n, v(self) if callable(v) else v)
        return self
    KMeans.fit = fit
    try:
        yield
    finally:
        KMeans.fit = old


class Order(Regime):
    """args: labels found (year, day), patterns found (cluster, lat, lon)"""
    fn = 'run_K_means'
    functions = [REGIME + ':WeatherRegimeCalculation.run_K_means', REGIME + ':WeatherRegimeCalculation.get_cluster_fraction']
    name = 'regimes ordered by frequency'
    quick_cases, thorough_cases = 150, 1000
    frame = False

    def templates(self):
        yield [[0]], Arr(grid((1, 1, 1)))
        yield [[0, 1, 1, 1]], Arr(grid((2, 1, 2)))
        yield [[0, 1], [0, 0]], Arr(grid((2, 2, 1)))
        yield [[0, 1, 2, 2, 1, 2, 2, 2]], Arr(grid((3, 1, 1)))
        yield [[2, 1, 2, 2], [0, 2, 0, 2]], Arr(grid((3, 1, 2)))
        yield [[0, 0, 1, 1, 0], [2, 1, 0, 1, 0]], Arr(grid((3, 1, 1)))
        yield [[3, 3, 1, 0, 3], [1, 3, 0, 1, 2]], Arr(grid((4, 1, 1)))
        yield [[1, 1]], Arr(grid((2, 1, 1)))

    def gen(self, rng):
        k, y, d = rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 12)
        w = [rng.random() for _ in range(k)]
        return [[rng.choices(range(k), w)[0] for _ in range(d)] for _ in range(y)], Arr(grid((k, rng.randint(1, 2), rng.randint(1, 3))))

    def go(self, mod, labels, centres):
        labels = np.array(labels)
        k, ny, nx = centres.shape
        a1 = np.zeros((labels.size, ny * nx))
        c = centres.view(np.ndarray).reshape(k, ny * nx)
        with clusters(labels_=labels.ravel().astype(np.int32), cluster_centers_=c.view(type(centres)).copy(), inertia_=0.0, n_iter_=1):
            pat, n, perc, wrc = regimes(mod, WR_NUMBER=k).run_K_means(a1, None, labels.shape + (ny, nx))
        if n != k or np.shape(wrc) != labels.shape:
            raise AssertionError('shape of the labels')
        return [plain(pat), plain(perc), plain(wrc)]

    def pre(self, labels, centres):
        n = self.counts(labels, centres)
        return len(set(n)) == len(n)

    def counts(self, labels, centres):
        v = [ints(x)[0] for r in labels for x in r]
        return [v.count(j) for j in range(len(centres))]

    def spec(self, labels, centres):
        n = self.counts(labels, centres)
        size = sum(n)
        order = sorted(range(len(n)), key=lambda j: -n[j])
        new = {j: i + 1 for i, j in enumerate(order)}
        return [[centres[j] for j in order], [T.frac(n[j]) / size if V.cur() is None else T.Rat(T.frac(n[j]) / size) for j in order],
                [[new[ints(x)[0]] for x in r] for r in labels]]


class Anomalies(Regime):
    """args: field (year, day, lat, lon), latitudes"""
    fn = 'weights_detrend'
    functions = [REGIME + ':WeatherRegimeCalculation.weights_detrend']
    name = 'weighted anomalies'
    exact_pi = True
    quick_cases, thorough_cases = 150, 1200
    tol = 1e-8

    def make(self, s, two=False, nan=None):
        f = grid(s)
        if nan:
            at(f, nan[:-1])[nan[-1]] = NAN
        return Arr(f), Arr(grid(s[2:]) if two else xs(s[2], lo=-90, hi=90))

    def templates(self):
        for s in ((1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1), (2, 1, 2, 1), (3, 1, 1, 2), (2, 2, 2, 2)):
            yield self.make(s)
        yield self.make((3, 1, 1, 2), nan=(1, 0, 0, 1))

    def gen(self, rng):
        s = tuple(rng.randint(1, 4) for _ in range(4))
        return self.make(s, nan=tuple(rng.randrange(n) for n in s) if rng.random() < 0.2 else None)

    def go(self, mod, f, lats):
        r = regimes(mod).weights_detrend(lats, np.arange(f.shape[3]), f)
        return [plain(r[0]), plain(r[1])]

    def spec(self, f, lats):
        s = shape_of(f)
        w = [S.cos(x * S.pi() / 180) for x in lats]

        def one(i):
            v = [x for x in (at(f, (y,) + i[1:]) for y in range(s[0])) if not missing(x)]
            x = at(f, i)
            return NAN if missing(x) else (x - total(v) / len(v)) * w[i[2]]
        a = nest(s, one)
        return [a, [[at(a, (y, d, i, j)) for i in range(s[2]) for j in range(s[3])] for y in range(s[0]) for d in range(s[1])]]


class Rebuild(Regime):
    """args: patterns, coefficients"""
    fn = 'reconstruct_heights'
    functions = [REGIME + ':WeatherRegimeCalculation.reconstruct_heights']
    name = 'field from patterns and coefficients'
    quick_cases, thorough_cases = 150, 1200

    def make(self, p, t, ny, nx):
        return Arr(grid((p, ny, nx))), Arr(grid((t, p)))

    def templates(self):
        for a in ((1, 1, 1, 1), (1, 2, 2, 1), (2, 2, 1, 2), (3, 2, 2, 2)):
            yield self.make(*a)

    def gen(self, rng):
        return self.make(*[rng.randint(1, 5) for _ in range(4)])

    def go(self, mod, eof, pc):
        return regimes(mod, NUM_PCS=eof.shape[0]).reconstruct_heights(eof, pc, (1, len(pc)) + eof.shape[1:])

    def spec(self, eof, pc):
        s = shape_of(eof)
        return [[total([c[k] * eof[k][i][j] for k in range(s[0])]) for i in range(s[1]) for j in range(s[2])] for c in pc]


class Frequency(Regime):
    """args: labels (year, day), number of regimes, length of the window"""
    fn = 'compute_wr_freq'
    functions = [REGIME + ':WeatherRegimeCalculation.compute_wr_freq']
    name = 'days of each regime in a moving window'
    quick_cases, thorough_cases = 200, 1500

    def make(self, y, d, k, w):
        return Arr([[X(lo=1, hi=k, kind='int') for _ in range(d)] for _ in range(y)]), k, w

    def templates(self):
        for a in ((1, 1, 1, 1), (1, 3, 2, 2), (1, 3, 2, 3), (2, 2, 2, 1), (1, 4, 2, 2)):
            yield self.make(*a)

    def gen(self, rng):
        w = rng.randint(1, 7)
        return self.make(rng.randint(1, 3), w + rng.randint(0, 8), rng.randint(1, 6), w)

    def go(self, mod, wr, k, w):
        r = regimes(mod, WR_NUMBER=k, WR_FREQ=w).compute_wr_freq(wr)
        return [plain(r[0]), int(r[1]), int(r[2])]

    def spec(self, wr, k, w):
        k, w = ints(k, w)
        n = len(wr[0]) - w + 1

        def count(v, x):
            c = 0
            for e in v:
                if e == x:
                    c = c + 1
            return c
        return [[[[count(r[d:d + w], j + 1) for d in range(n)] for r in wr] for j in range(k)], n, w]


class Reorder(Regime):
    """args: patterns, fractions, labels, order"""
    module, fn = UTIL, 'reorder_fcst_regimes'
    functions = [UTIL + ':reorder_fcst_regimes']
    name = 'forecast regimes in a given order'
    quick_cases, thorough_cases = 150, 1200

    def make(self, order, ny, nx, labels):
        k = len(order)
        return Arr(grid((k, ny, nx))), Arr(xs(k)), Arr(labels), order

    def templates(self):
        yield self.make([1], 1, 1, [[1, 1]])
        yield self.make([2, 1], 1, 2, [[1, 2], [2, 2]])
        yield self.make([2, 3, 1], 2, 1, [[1, 2, 3, 1]])
        yield self.make([3, 1, 2], 1, 1, [[3, 3], [1, 2]])
        yield self.make([4, 1, 3, 2], 1, 1, [[3, 4, 1, 2, 2]])

    def gen(self, rng):
        k = rng.randint(1, 6)
        d = rng.randint(1, 8)
        return self.make(rng.sample(range(1, k + 1), k), rng.randint(1, 2), rng.randint(1, 3), [[rng.randint(1, k) for _ in range(d)] for _ in range(rng.randint(1, 3))])

    def go(self, mod, pat, perc, wrc, order):
        return [plain(x) for x in mod.reorder_fcst_regimes(pat, perc, wrc, len(order), order)]

    def spec(self, pat, perc, wrc, order):
        order = ints(*order)
        return [[pat[j - 1] for j in order], [perc[j - 1] for j in order], [[order.index(ints(x)[0]) + 1 for x in r] for r in wrc]]


class Match(Reorder):
    """args: observed patterns, patterns, fractions, labels; the best correlated forecast regime takes the place of the observed one"""
    fn = 'reorder_fcst_regimes_correlate'
    functions = [UTIL + ':reorder_fcst_regimes_correlate', UTIL + ':reorder_fcst_regimes']
    name = 'forecast regimes in the order of the observed ones'
    quick_cases, thorough_cases = 150, 1200
    assumptions = ('when proved, the correlation of two patterns is any number that depends on the patterns only; its value is judged at run time',)

    def make(self, k, ny, nx, labels):
        return Arr(grid((k, ny, nx))), Arr(grid((k, ny, nx))), Arr(xs(k)), Arr(labels)

    def templates(self):
        yield self.make(1, 1, 2, [[1, 1]])
        yield self.make(2, 1, 2, [[1, 2], [2, 2]])
        yield self.make(2, 2, 2, [[2, 1]])
        yield self.make(3, 1, 2, [[1, 3, 2]])

    def gen(self, rng):
        k = rng.randint(1, 4)
        return self.make(k, rng.randint(1, 2), rng.randint(3, 6), [[rng.randint(1, k) for _ in range(rng.randint(1, 8))]])

    def cases(self, rng, n):
        # forecast patterns are noisy copies of the observed ones, shuffled, so that the match is one to one
        for c in Shape.cases(self, rng, n):
            a = c['args']['__tuple__']
            obs = a[0]['__arr__']
            for o in obs:
                for r in o:
                    r[:] = [rng.uniform(-9, 9) for _ in r]
            order = rng.sample(range(len(obs)), len(obs))
            a[1]['__arr__'] = [[[x * s + rng.uniform(-0.5, 0.5) for x in r] for r in obs[j]] for j in order for s in [rng.choice([0.5, 1, 3])]]
            yield c

    def go(self, mod, obs, pat, perc, wrc):
        return [plain(x) for x in mod.reorder_fcst_regimes_correlate(obs, pat, perc, wrc, len(perc))]

    def order(self, obs, pat):
        out = []
        for o in obs:
            c = [self.corr(flat(o), flat(p)) for p in pat]
            best = 0
            for j in range(1, len(c)):
                if c[j] > c[best]:
                    best = j
            out.append(best + 1)
        if len(set(out)) < len(out):
            raise S.Skip()
        return out

    def corr(self, x, y):
        if V.cur() is not None:
            return V.SReal(T.var(('corr', tuple(e.t.id for e in x), tuple(e.t.id for e in y))), 'py')
        r = np.corrcoef([float(e) for e in x], [float(e) for e in y])[0, 1]
        if r != r:
            raise S.Skip()
        return S.Q(float(r), False)

    def spec(self, obs, pat, perc, wrc):
        return Reorder.spec(self, pat, perc, wrc, self.order(obs, pat))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


class Patterns(Regime):
    """args: field (year, day, lat, lon), number of patterns"""
    fn = 'Calc_EOF'
    functions = [REGIME + ':WeatherRegimeCalculation.Calc_EOF', REGIME + ':WeatherRegimeCalculation.reconstruct_heights']
    name = 'leading patterns of the anomalies'
    proof = False
    frame = False
    quick_cases, thorough_cases = 80, 500
    tol = 1e-6
    bound = 'fields of up to 5 x 4 x 3 x 4'

    def gen(self, rng):
        s = rng.randint(3, 5), rng.randint(1, 4), rng.randint(1, 3), rng.randint(2, 4)
        return Arr(grid(s)), rng.randint(1, min(s[0] * s[1] - 2 * s[1], s[2] * s[3]))

    def go(self, mod, f, k):
        w = regimes(mod, NUM_PCS=k, WR_NUMBER=4)
        eof, pc, n, var = w.Calc_EOF(f)
        if n != 4 or eof.shape != (k,) + f.shape[2:] or pc.shape != (f.shape[0] * f.shape[1], k):
            raise AssertionError('shape of the patterns')
        r = w.reconstruct_heights(eof, pc, f.shape)
        # coefficients have unit variance; the pattern is the covariance with them
        return [plain(r), plain(var), plain(np.abs(pc).sum(axis=0)), plain(np.abs(eof).sum(axis=(1, 2)))]

    def spec(self, f, k):
        k, = ints(k)
        f = floats(f)
        y, d, ny, nx = f.shape
        x = np.arange(y) - (y - 1) / 2
        f = f - f.mean(axis=0)
        f = f - x[:, None, None, None] * (x[:, None, None, None] * f).sum(axis=0) / (x * x).sum()
        a = f.reshape(y * d, ny * nx)
        u, s, v = np.linalg.svd(a, full_matrices=False)
        if s[k - 1] < 1e-3 * s[0] or k < len(s) and s[k - 1] - s[k] < 1e-3 * s[0] or any(s[i] - s[i + 1] < 1e-3 * s[0] for i in range(k - 1)):
            raise S.Skip()
        sd = math.sqrt(len(a) - 1)
        return [plain((u[:, :k] * s[:k]) @ v[:k]), plain(100 * s[:k] ** 2 / (s ** 2).sum()), plain(np.abs(u[:, :k]).sum(axis=0) * sd),
                plain(np.abs(v[:k] * s[:k, None]).sum(axis=1) / sd)]


class Elbow(Regime):
    """args: spread of the clusters for 1, 2, ... clusters"""
    fn = 'run_elbow'
    functions = [REGIME + ':WeatherRegimeCalculation.run_elbow']
    name = 'number of clusters'
    proof = False
    quick_cases, thorough_cases = 80, 500
    tol = 1e-6
    bound = 'up to twelve numbers of clusters'

    def gen(self, rng):
        return (xs(rng.randint(2, 12), lo=0),)

    def value(self, rng, leaf):
        return rng.uniform(1e9, 1e11)

    def go(self, mod, v):
        with clusters(inertia_=lambda self: v[self.n_clusters - 1]):
            k, d, mi, line, curve = regimes(mod, NUM_CLUSTERS=len(v) + 1).run_elbow(np.zeros((40, 1)))
        return [list(k), plain(d), plain(mi), plain(line), plain(curve)]

    def spec(self, v):
        v = [float(x) * 1e-10 for x in v]
        n = len(v)
        b = (v[-1] - v[0]) / (n - 1)
        line = [v[0] + b * j for j in range(n)]
        # distance of the curve from the straight line through its ends, negative below it
        d = [(v[j] - line[j]) / math.sqrt(1 + b * b) for j in range(n)]
        m = min(d)
        if sorted(d)[1] - m < 1e-9:
            raise S.Skip()
        return [list(range(1, n + 1)), d, [d.index(m)], line, v]


# ---- files --------------------------------------------------------------------------------------
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vf_regime_')
    try:
        yield d
    finally:
        shutil.rmtree(d)


def stamps(seed, n, step=24):
    t = datetime.datetime(1999, 1, 1) + datetime.timedelta(hours=12 * (seed % 2000))
    return [(t + datetime.timedelta(hours=step * i)).strftime('%Y%m%d_%H%M%S') for i in range(n)]


class Listing(Regime):
    """args: kind of file, seed of the first day, labels"""
    fn = 'write_K_means_file'
    functions = [REGIME + ':WeatherRegimeCalculation.write_K_means_file']
    name = 'file of the regime of each day'
    proof = False
    quick_cases, thorough_cases = 60, 300
    bound = 'up to three years of eight days'

    def gen(self, rng):
        d = rng.randint(1, 8)
        return rng.choice(['text', 'netcdf']), rng.randrange(2000), Arr([[X(lo=1, hi=6, kind='int') for _ in range(d)] for _ in range(rng.randint(1, 3))])

    def go(self, mod, kind, seed, wrc):
        valid = np.reshape(stamps(seed, wrc.size), wrc.shape)
        with scratch() as d:
            w = regimes(mod, SCRIPT_OUTPUT_BASE=d, WR_OUTPUT_FILE_TYPE=kind, WR_OUTPUT_FILE='regimes')
            for _ in range(2):        # an older file is replaced
                w.write_K_means_file({'valid': valid}, wrc * 1.0)
            if kind == 'text':
                lines = open(os.path.join(d, 'regimes.txt')).read().splitlines()
                if lines[0].split()[1:] != ['Year', 'Month', 'Day', 'WeatherRegime']:
                    raise AssertionError('header %r' % lines[0])
                return [[int(a), int(b), int(c), float(e)] for a, b, c, e in (x.split() for x in lines[1:])]
            import netCDF4
            with netCDF4.Dataset(os.path.join(d, 'regimes.nc')) as nc:
                t = netCDF4.num2date(nc['time'][:], nc['time'].units)
                num, date = list(nc['wrnum'][:]), [int(x) for x in nc['date'][:]]
            if date != [int(x.strftime('%Y%m%d')) for x in t]:
                raise AssertionError('dates %r, times %r' % (date, t))
            return [[x.year, x.month, x.day, float(n)] for x, n in zip(t, num)]

    def spec(self, kind, seed, wrc):
        v = [x for r in wrc for x in r]
        return [[int(s[:4]), int(s[4:6]), int(s[6:8]), x] for s, x in zip(stamps(ints(seed)[0], len(v)), v)]


def grid_file(path, var, f, lats, lons, init, valid):
    import netCDF4
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('lat', len(lats))
        nc.createDimension('lon', len(lons))
        nc.createVariable('lat', 'f8', ('lat',))[:] = lats
        nc.createVariable('lon', 'f8', ('lon',))[:] = lons
        v = nc.createVariable(var, 'f8', ('lat', 'lon'))
        v[:] = f
        v.init_time, v.valid_time = init, valid


class Reading(Shape):
    """args: fields (file, lat, lon), which files are missing, number of seasons, seed of the times, hours of lead time"""
    prop = 'C27'
    module, fn = UTIL, 'read_nc_met'
    functions = [UTIL + ':read_nc_met']
    name = 'daily fields read by season'
    proof = False
    quick_cases, thorough_cases = 40, 200
    bound = 'up to three seasons of four days, 3 x 3 points'

    def gen(self, rng):
        y, d = rng.randint(1, 3), rng.randint(1, 4)
        miss = [rng.random() < 0.3 for _ in range(y * d)]
        return Arr(grid((y * d, rng.randint(1, 3), rng.randint(1, 3)))), miss, y, rng.randrange(2000), [rng.choice([0, 6, 24, 120, 240, 5.5]) for _ in range(y * d)]

    def call(self, mod, args):
        f, miss, y, seed, lead = args
        n, ny, nx = f.shape
        valid = stamps(seed, n)
        with scratch() as d:
            files = []
            for i in range(n):
                if miss[i]:
                    files.append('missing')
                    continue
                files.append(os.path.join(d, 'f%d.nc' % i))
                init = datetime.datetime.strptime(valid[i], '%Y%m%d_%H%M%S') - datetime.timedelta(hours=lead[i])
                grid_file(files[-1], 'Z500', f[i], 80.0 - np.arange(ny), 2.0 * np.arange(nx), init.strftime('%Y%m%d_%H%M%S'), valid[i])
            v, lats, lons, t = mod.read_nc_met(files, 'Z500', y, n // y)
        return [plain(np.asarray(v)), plain(np.asarray(lats)), plain(np.asarray(lons)), plain(t['init']), plain(t['valid']), plain(t['lead'])]

    def spec(self, f, miss, y, seed, lead):
        y, seed = ints(y, seed)
        n, ny, nx = shape_of(f)
        if all(miss):
            raise Raises(Exception)
        valid, rows, texts = stamps(seed, n), [], [[], [], []]
        for i in range(n):
            if miss[i]:
                rows.append([[NAN] * nx for _ in range(ny)])
                texts = [t + [''] for t in texts]
                continue
            rows.append(f[i])
            m = round(float(lead[i]) * 60)
            init = datetime.datetime.strptime(valid[i], '%Y%m%d_%H%M%S') - datetime.timedelta(minutes=m)
            for t, x in zip(texts, (init.strftime('%Y%m%d_%H%M%S'), valid[i], '%02d%02d00' % (m // 60, m % 60))):
                t.append(x)
        d = n // y
        return [[rows[i * d:i * d + d] for i in range(y)], [80 - i for i in range(ny)], [2 * i for i in range(nx)]] + \
            [[t[i * d:i * d + d] for i in range(y)] for t in texts]


class Pairs(Shape):
    """args: observed and forecast values (season, day, point), positions, seed of the times, days without forecast"""
    prop = 'C27'
    module, fn = UTIL, 'write_mpr_file'
    functions = [UTIL + ':write_mpr_file']
    name = 'matched pairs written by day'
    HEAD = ('VERSION MODEL DESC FCST_LEAD FCST_VALID_BEG FCST_VALID_END OBS_LEAD OBS_VALID_BEG OBS_VALID_END FCST_VAR FCST_UNITS FCST_LEV OBS_VAR OBS_UNITS '
            'OBS_LEV OBTYPE VX_MASK INTERP_MTHD INTERP_PNTS FCST_THRESH OBS_THRESH COV_THRESH ALPHA LINE_TYPE').split()
    proof = False
    quick_cases, thorough_cases = 40, 200
    bound = 'up to two seasons of three days, four points'

    def gen(self, rng):
        s = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 4)
        # texts longer than a column and shorter
        texts = [rng.choice(['', 'x' * rng.randint(1, 30)]) for _ in range(9)]
        return Arr(grid(s)), Arr(grid(s)), xs(s[2], lo=-90, hi=90), xs(s[2], lo=0, hi=360), rng.randrange(2000), [rng.random() < 0.2 for _ in range(s[0] * s[1])], texts

    def texts(self, texts):
        return [a + b for a, b in zip(['GFS', 'description', 'Z500', 'm', 'P500', 'HGT', 'gpm', 'L0', 'FULL'], texts)]

    def value(self, rng, leaf):
        return round(rng.uniform(-90, 90), 3)

    def call(self, mod, args):
        obs, fcst, lat, lon, seed, miss, texts = args
        y, d, n = obs.shape
        valid = [x if not m else '' for x, m in zip(stamps(seed, y * d), miss)]
        tf = {'valid': np.reshape(valid, (y, d)), 'lead': np.reshape(['' if m else '%02d0000' % (6 + i) for i, m in enumerate(miss)], (y, d))}
        to = {'valid': np.reshape(stamps(seed + 1, y * d), (y, d)), 'lead': np.reshape(['000000'] * (y * d), (y, d))}
        out = []
        with scratch() as p:
            mod.write_mpr_file(obs, fcst, lat, lon, to, tf, *self.texts(texts), '500', os.path.join(p, 'wr'))
            for f in sorted(os.listdir(p)):
                rows = [x.split() for x in open(os.path.join(p, f)).read().splitlines()]
                head = rows[0]
                if head != self.HEAD:
                    raise AssertionError('names of the columns')
                for r in rows[1:]:
                    c = dict(zip(head, r))
                    out.append([f, c['FCST_LEAD'], c['FCST_VALID_BEG'], c['FCST_VALID_END'], c['OBS_LEAD'], c['OBS_VALID_BEG'], c['OBS_VALID_END'],
                                c['MODEL'], c['DESC'], c['FCST_VAR'], c['FCST_UNITS'], c['FCST_LEV'], c['OBS_VAR'], c['OBS_UNITS'], c['OBS_LEV'],
                                c['VX_MASK'], c['LINE_TYPE'], int(r[24]), int(r[25]), float(r[27]), float(r[28]), r[29], float(r[31]), float(r[32])])
        return out

    def spec(self, obs, fcst, lat, lon, seed, miss, texts):
        y, d, n = shape_of(obs)
        valid, seen = [stamps(ints(seed)[0] + k, y * d) for k in (0, 1)]
        model, desc, *names, mask = self.texts(texts)
        out = []
        for i, (v, m) in enumerate(zip(valid, miss)):
            if m:
                continue
            lead = '%02d0000' % (6 + i)
            for k in range(n):
                out.append(['wr_%sL_%s_%sV.stat' % (lead, v[:8], v[9:]), lead, v, v, '000000', seen[i], seen[i], model, desc, *names,
                            mask, 'MPR', n, k + 1, lat[k], lon[k], '500', fcst[i // d][i % d][k], obs[i // d][i % d][k]])
        return sorted(out, key=lambda r: r[0])


class Steps(Shape):
    """args: texts of the forecast and observed steps (None: not set)"""
    prop = 'C27'
    module, fn = UTIL, 'parse_steps'
    functions = [UTIL + ':parse_steps']
    name = 'steps asked for'
    proof = False
    quick_cases, thorough_cases = 60, 300
    bound = 'up to four steps'

    def gen(self, rng):
        def one():
            return rng.choice([None, [rng.choice(['ELBOW', 'EOF', 'KMEANS', 'TIMEFREQ', 'PLOTELBOW', 'IBL']) for _ in range(rng.randint(1, 4))]])
        return one(), one()

    def call(self, mod, args):
        env = {k: '+'.join(v) for k, v in zip(('FCST_STEPS', 'OBS_STEPS'), args) if v is not None}
        old = {k: os.environ.pop(k, None) for k in ('FCST_STEPS', 'OBS_STEPS')}
        try:
            os.environ.update(env)
            return [list(x) for x in mod.parse_steps()]
        finally:
            for k, v in old.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v

    def spec(self, fcst, obs):
        return [x or [''] for x in (fcst, obs)]


# ---- blocking -----------------------------------------------------------------------------------
def blocking(mod, **env):
    with settings(**{'B_' + k: v for k, v in env.items()}):
        return mod.BlockingCalculation('B')


class Index(Shape):
    """args: heights (day, lat, lon), central latitude of each longitude, latitude shifts, width"""
    prop = 'C28'
    module, fn = BLOCK, 'run_mod_blocking1d'
    functions = [BLOCK + ':BlockingCalculation.run_mod_blocking1d']
    name = 'instantaneously blocked longitudes'
    quick_cases, thorough_cases = 150, 1000
    max_paths = 20000
    frame = False

    def make(self, days, rows, cbl, shifts, width):
        return Arr(grid((days, rows, len(cbl)))), Arr(cbl), shifts, width

    def templates(self):
        yield self.make(1, 5, [88], [0], 2)
        yield self.make(1, 7, [87], [0], 4)
        yield self.make(1, 9, [86, 86], [-1, 1], 4)
        yield self.make(2, 6, [87], [-1, 0], 2)
        yield self.make(1, 8, [87], [-2, 0, 1], 4)

    def gen(self, rng):
        width = rng.choice([2, 4, 10, 30])
        shifts = rng.choice([[-5, 0, 5], [0], [-2, 3], [-4, -1, 0, 2]])
        c = width // 2 + 5
        return self.make(rng.randint(1, 3), 91, [90 - rng.randint(c, 90 - c) for _ in range(rng.randint(1, 3))], shifts, width)

    def value(self, rng, leaf):
        return rng.uniform(5000, 5900)

    def call(self, mod, args):
        f, cbl, shifts, width = args
        if V.cur() is not None:
            mod = load(self.module)
        b = blocking(mod, LAT_DELTA=','.join(map(str, shifts)), NORTH_SOUTH_LIMITS=width)
        r = b.run_mod_blocking1d(f, np.array([float(x) for x in cbl]), 90.0 - np.arange(f.shape[1]), np.arange(len(cbl)), 'PH')
        return [plain(r[0]), plain(r[1])]

    def spec(self, f, cbl, shifts, width):
        cbl, shifts, (width,) = ints(*cbl), ints(*shifts), ints(width)
        blocked, index = [], []
        for day in f:
            blocked.append([])
            index.append([])
            for j, c in enumerate(cbl):
                best = None
                for s in shifts:
                    # row r is latitude 90 - r
                    mid = 90 - (c + s)
                    north = [day[r][j] for r in range(mid - width // 2, mid + 1)]
                    south = [day[r][j] for r in range(mid, mid + width // 2 + 1)]
                    v = total(north) / len(north) - total(south) / len(south)
                    best = v if best is None or v > best else best
                index[-1].append(best)
                blocked[-1].append(1 if best > 0 else 0)
        return [blocked, index]


class Groups(Shape):
    """args: blocked longitudes as runs [first, length], largest distance, smallest extent"""
    prop = 'C28'
    module, fn = BLOCK, 'run_Calc_GIBL'
    functions = [BLOCK + ':BlockingCalculation.run_Calc_GIBL']
    name = 'groups of blocked longitudes'
    proof = False
    quick_cases, thorough_cases = 300, 3000
    bound = 'up to eight runs of blocked longitudes a day'

    def gen(self, rng):
        days = []
        for _ in range(rng.randint(1, 3)):
            runs = []
            p = rng.choice([rng.randrange(360), rng.randint(335, 360)])
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
                n = rng.choice([1, rng.randint(1, 6), rng.randint(5, 35)])
                runs.append([p % 360, n])
                p += n + rng.choice([1, 3, rng.randint(1, 12), rng.randint(1, 80)])
            days.append(runs)
        return days, rng.choice([7, 7, 7, 3, 10, 1]), rng.choice([15, 15, 15, 5, 10, 22])

    def field(self, days):
        a = np.zeros((1, len(days), 360))
        for d, runs in enumerate(days):
            for p, n in runs:
                a[0, d, (p + np.arange(n)) % 360] = 1
        return a

    def call(self, mod, args):
        days, dist, crit = args
        return blocking(mod, IBL_DIST=dist, IBL_IN_GIBL=crit).run_Calc_GIBL(self.field(days), np.arange(360))

    def spec(self, days, dist, crit):
        dist, crit = ints(dist, crit)
        a = self.field([[ints(*r) for r in d] for d in days])
        out = np.zeros(a.shape)
        for d in range(len(days)):
            on = [int(x) for x in np.flatnonzero(a[0, d])]
            if not on:
                continue
            gaps = [(on[(i + 1) % len(on)] - x) % 360 or 360 for i, x in enumerate(on)]
            cuts = [i for i, g in enumerate(gaps) if g > dist]
            if not cuts:
                out[0, d] = 1
                continue
            for c, e in zip(cuts, cuts[1:] + cuts[:1]):
                first, last = on[(c + 1) % len(on)], on[e]
                n = (last - first) % 360 + 1
                if n >= crit:
                    out[0, d, (first + np.arange(n)) % 360] = 1
        return plain(out)


class Tracks(Shape):
    """args: groups [day, first longitude, length] of each season, days, duration, overlap, travel"""
    prop = 'C28'
    module, fn = BLOCK, 'run_Calc_Blocks'
    functions = [BLOCK + ':BlockingCalculation.run_Calc_Blocks']
    name = 'blocks that last'
    proof = False
    quick_cases, thorough_cases = 300, 3000
    bound = 'up to three seasons of 25 days, two tracks of groups at a time'
    least = 15

    def gen(self, rng):
        days, seasons = rng.randint(6, 25), []
        for _ in range(rng.randint(1, 3)):
            groups = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                p, n, v = rng.choice([rng.randrange(360), rng.randint(330, 365)]), rng.randint(15, 40), rng.choice([0, 0, 2, -2, 5, 9])
                for d in range(rng.randint(0, days - 1), rng.randint(1, days)):
                    if rng.random() < 0.9:
                        groups.append([d, p % 360, n])
                    p += v + rng.randint(-2, 2)
                    n = min(60, max(15, n + rng.randint(-3, 3)))
            seasons.append(groups)
        return seasons, days, rng.choice([5, 5, 5, 3, 4, 7]), rng.choice([10, 10, 5, 20]), rng.choice([45, 45, 20, 60])

    def parts(self, seasons):
        """The groups of each day: runs of at least the required extent, apart from each other."""
        out = []
        for groups in seasons:
            kept = {}
            for d, p, n in (ints(*g) for g in groups):
                g = {(p + k) % 360 for k in range(n)}
                if all(not any((x + k) % 360 in h for x in g for k in (-1, 0, 1)) for h, *_ in kept.get(d, [])):
                    kept.setdefault(d, []).append((g, p, n))
            out.append(kept)
        return out

    def field(self, parts, days):
        a = np.zeros((len(parts), days, 360))
        for y, kept in enumerate(parts):
            for d, gs in kept.items():
                for g, *_ in gs:
                    a[y, d, sorted(g)] = 1
        return a

    def call(self, mod, args):
        seasons, days, last, overlap, travel = args
        g = self.field(self.parts(seasons), days)
        b = blocking(mod, BLOCK_TIME=last, GIBL_OVERLAP=overlap, BLOCK_TRAVEL=travel, IBL_IN_GIBL=self.least)
        return b.run_Calc_Blocks(g.copy(), g, np.arange(360), {})

    def spec(self, seasons, days, last, overlap, travel):
        days, last, overlap, travel = ints(days, last, overlap, travel)
        parts = self.parts(seasons)
        out = np.zeros((len(parts), days, 360))
        for y, kept in enumerate(parts):
            # by day, then by the position of the end of the group
            left = [(d, g, p + (n - 1) / 2) for d in sorted(kept) for g, p, n in sorted(kept[d], key=lambda q: (q[1] + q[2] - 1) % 360)]
            while left:
                track = [left.pop(0)]
                for e in list(left):
                    if 1 <= e[0] - track[-1][0] <= 2:
                        if len(e[1] & track[-1][1]) > overlap:
                            track.append(e)
                            left.remove(e)
                # left behind where the centre has gone too far from the first one
                far = [abs((e[2] - track[0][2] + 180) % 360 - 180) for e in track]
                if len(track) >= last and any(abs(f - travel) < 1.5 for f in far):
                    raise S.Skip()
                stay = next((i for i, f in enumerate(far) if f > travel), len(track))
                if len(track) >= last and stay >= last:
                    for d, g, _ in track[:stay]:
                        out[y, d, sorted(g)] += 1
        return plain(out)


class FromFiles(Shape):
    prop = 'C28'
    module = BLOCK
    proof = False
    quick_cases, thorough_cases = 6, 30
    lats = 90.0 - np.arange(91)

    def field(self, seed, y, d):
        r = np.random.RandomState(seed)
        lat = np.radians(self.lats)[:, None]
        f = np.empty((y * d, 91, 360))
        for i in range(y * d):
            k = r.uniform(0.5, 3, 3)
            f[i] = 5500 - 400 * np.sin(lat) + 200 * k[0] * np.sin(2 * k[1] * lat + np.radians(np.arange(360)) * r.randint(1, 6) + r.uniform(0, 6)) + r.uniform(-20, 20, (91, 360))
        return f

    def files(self, f, var, d):
        out = []
        for i, x in enumerate(f):
            out.append(os.path.join(d, 'f%03d.nc' % i))
            grid_file(out[-1], var, x, self.lats, np.arange(360.0), *[stamps(i, 1)[0]] * 2)
        return out


class Central(FromFiles):
    """args: seed of the field, seasons, days, width of the smoothing"""
    fn = 'run_CBL'
    functions = [BLOCK + ':BlockingCalculation.run_CBL', UTIL + ':read_nc_met']
    name = 'central blocking latitude'
    bound = 'fields of 91 x 360 points, at most two seasons of four days'

    def gen(self, rng):
        return rng.randrange(10000), rng.randint(1, 2), rng.randint(2, 4), rng.choice([1, 3, 5, 9, 9, 15])

    def call(self, mod, args):
        seed, y, d, n = args
        with scratch() as p:
            b = blocking(mod, SMOOTHING_PTS=n, BLOCKING_ANOMALY_VAR='ANOM')
            r = b.run_CBL(self.files(self.field(seed, y, d), 'ANOM', p), y, d)
        return [plain(r[0]), plain(np.asarray(r[1])), plain(np.asarray(r[2])), plain(np.asarray(r[3])[:, ::9, ::40])]

    def spec(self, seed, y, d, n):
        seed, y, d, n = ints(seed, y, d, n)
        f = self.field(seed, y, d).reshape(y, d, 91, 360)
        w = f.std(axis=1) * np.sqrt(np.maximum(0, np.cos(np.radians(self.lats))))[:, None]
        top = np.sort(w, axis=1)
        if (top[:, -1] - top[:, -2]).min() < 1e-7:
            raise S.Skip()
        lat = self.lats[w.argmax(axis=1)]
        m = (n - 1) // 2
        s = np.array([[sum(lat[j, (i + k) % 360] for k in range(-m, m + 1)) / n for i in range(360)] for j in range(y)])
        if np.any((np.abs(s - np.round(s)) < 1e-9) & (np.abs(s - np.round(s)) > 0)):
            raise S.Skip()
        return [plain(np.floor(s)), plain(self.lats), list(range(360)), plain(w[:, ::9, ::40])]


class Instant(FromFiles):
    """args: seed of the field, seasons, days, central latitudes of the years"""
    fn = 'run_Calc_IBL'
    functions = [BLOCK + ':BlockingCalculation.run_Calc_IBL', BLOCK + ':BlockingCalculation.run_mod_blocking1d', UTIL + ':read_nc_met']
    name = 'instantaneous blocking of every season'
    bound = 'fields of 91 x 360 points, at most two seasons of three days'

    def gen(self, rng):
        return rng.randrange(10000), rng.randint(1, 2), rng.randint(1, 3), rng.randint(35, 62)

    def cbl(self, seed, y, lat):
        return lat + np.random.RandomState(seed).randint(-3, 4, (y, 360)).astype(float)

    def call(self, mod, args):
        seed, y, d, lat = args
        with scratch() as p:
            r, t = blocking(mod).run_Calc_IBL(self.cbl(seed, y, lat), self.files(self.field(seed, y, d), 'Z500', p), y, d)
        if np.shape(t['valid']) != (y, d):
            raise AssertionError('times')
        return r

    def spec(self, seed, y, d, lat):
        seed, y, d, lat = ints(seed, y, d, lat)
        f = self.field(seed, y, d).reshape(y, d, 91, 360)
        out = np.zeros((y, d, 360))
        mid = (90 - self.cbl(seed, y, lat).mean(axis=0)).astype(int)
        for j in range(360):
            best = np.full((y, d), -np.inf)
            for s in (-5, 0, 5):
                m = mid[j] - s
                best = np.maximum(best, f[:, :, m - 15:m + 1, j].mean(axis=2) - f[:, :, m:m + 16, j].mean(axis=2))
            if np.abs(best).min() < 1e-6:
                raise S.Skip()
            out[:, :, j] = best > 0
        return plain(out)


def contracts(prop):
    if prop == 'C27':
        return [Order(), Anomalies(), Rebuild(), Frequency(), Reorder(), Match(), Patterns(), Elbow(), Listing(), Reading(), Pairs(), Steps()]
    return [Index(), Groups(), Tracks(), Central(), Instant()]


def preload(prop):
    for m in ([REGIME, UTIL] if prop == 'C27' else [BLOCK]):
        load(m)
        with settings(SCRIPT_OUTPUT_BASE='/nonexistent'):
            C.real(m)


def info(prop):
    if prop == 'C27':
        return {'level': 'proof', 'bound': 'up to four regimes, ten days and 2 x 2 points when proved; up to six regimes, 36 days and 3 x 4 points at run time; patterns, number of clusters '
                                           'and files at run time only',
                'assumptions': ['K-means finds arbitrary clusters (a stand-in of the fit); regimes of equal frequency may come in any order',
                                'a correlation is any number that depends on its two samples only when proved; its value is judged at run time',
                                'every forecast regime is the best match of exactly one observed regime',
                                'sklearn, eofs and netCDF4 are executed, not modelled']}
    return {'level': 'proof', 'bound': 'the index is proved for heights of up to nine latitudes, two longitudes and two days; 91 latitudes at run time; groups, blocks in time, central latitude and the reading '
                                       'of files at run time only, on 360 longitudes',
            'assumptions': ['latitudes run from 90 N southwards in steps of one degree and there are 360 longitudes, as the code requires']}
