"""C23: space-time spectra."""
import math
import os
from fractions import Fraction
import os, shutil, tempfile
import numpy as np
from pydv import contract as C, spec as S, values as V, fourier as F
from .shape import Shape, X, Arr, xs, plain
from .fields import grid, missing
from .columns import at, shape_of, nest
from .zonal import unit, total

SP = 'metcalcpy.contributed.spacetime.spacetime'
SU = 'metcalcpy.contributed.spacetime.spacetime_utils'
TU = 'metcalcpy.contributed.tropical_diagnostics.utils'
NAN = math.nan


def whole(n):
    return int(n.v) if isinstance(n, S.Q) else n


class Parts(Shape):
    """args: field (time, lat, lon), latitudes, option, form"""
    prop = 'C23'
    module, fn = SP, 'get_symmasymm'
    functions = [SP + ':get_symmasymm']
    quick_cases, thorough_cases = 150, 1200

    def __init__(self, form):
        self.form = form
        self.name = 'parts about the equator (%s)' % form

    def make(self, lat, opt, nt=1, nl=1):
        return Arr(grid((nt, len(lat), nl))), Arr([float(x) for x in lat]), opt

    def templates(self):
        for opt in ('symm', 'asymm', 'anti-symm'):
            for lat in ([-5, 5], [10, -10], [-10, 0, 10], [10, 0, -10], [-7.5, -2.5, 2.5, 7.5], [20, 10, 0, -10, -20], [0]):
                yield self.make(lat, opt)
            yield self.make([-10, 0, 10], opt, 2, 2)

    def gen(self, rng):
        half = sorted(rng.sample(range(1, 90), rng.randint(1, 5)))
        lat = [-x for x in reversed(half)] + ([0] if rng.random() < 0.5 else []) + half
        if rng.random() < 0.5:
            lat.reverse()
        return self.make(lat, rng.choice(['symm', 'asymm', 'anti-symm']), rng.randint(1, 3), rng.randint(1, 4))

    def call(self, mod, args):
        f, lat, opt = args
        if self.form == 'arrays':
            return mod.get_symmasymm(f, lat, opt)
        import xarray as xr
        lab = xr.DataArray(lat, dims=['lat'], coords={'lat': lat})
        a = xr.DataArray(f.view(np.ndarray), dims=['time', 'lat', 'lon'], coords={'lat': lat})
        r = mod.get_symmasymm(a, lab, opt)
        keep = lat[lat >= 0] if opt == 'symm' else lat[lat > 0]
        if list(r.dims) != ['time', 'lat', 'lon'] or list(r.lat.values) != list(keep):
            raise AssertionError('latitudes of the result')
        return r.values

    def spec(self, f, lat, opt):
        lat = [float(x) for x in lat] if V.cur() is not None else [float(x.v) for x in lat]
        nt, nm, nl = shape_of(f)
        north = [j for j in range(nm) if lat[j] > 0 or lat[j] == 0 and opt == 'symm']
        mirror = {j: lat.index(-lat[j] if lat[j] else lat[j]) for j in north}
        half = Fraction(1, 2) if V.cur() is None else 0.5
        sign = 1 if opt == 'symm' else -1
        return [[[(f[t][j][k] + sign * f[t][mirror[j]][k]) * half for k in range(nl)] for j in north] for t in range(nt)]


class Window(Shape):
    """args: length, fraction to taper"""
    prop = 'C23'
    module, fn = SP, 'window_cosbell'
    functions = [SP + ':window_cosbell']
    name = 'taper weights'
    exact_pi = True
    quick_cases, thorough_cases = 200, 1500

    def templates(self):
        for n in (1, 2, 3, 4, 7, 12, 30):
            for p in (0.0, 0.1, 0.25, 0.5, 1.0):
                yield n, p
        yield 96, 0.1

    def gen(self, rng):
        return rng.randint(1, 200), rng.choice([0.1, 0.1, rng.randint(0, 20) / 20, rng.random()])

    def out(self, r, args):
        if V.cur() is None and not all(0 <= x <= 1 for x in r):
            raise AssertionError('weights outside [0, 1]')
        return plain(r)

    def spec(self, n, p):
        n = whole(n)
        q = (p.v if isinstance(p, S.Q) else Fraction(p)) * n
        q = (q + Fraction(1, 2)) / 2
        if min(q - math.floor(q), math.ceil(q) - q) < 1e-9 and q.denominator > 64:
            raise S.Skip()
        m = max(1, math.floor(q))
        if m > n:
            raise S.Skip()
        out = []
        for j in range(n):
            w = 1
            for d in (j, n - 1 - j):            # distance from either end
                if d < m:
                    c = S.cos(S.pi() * Fraction(2 * d + 1, 2 * m)) if V.cur() is None else S.cos(S.pi() * (2 * d + 1) / (2 * m))
                    w = w * (1 - c) / 2
            out.append(w)
        return out


class Smooth(Shape):
    prop = 'C23'
    module, fn = SP, 'smooth121_1D'
    functions = [SP + ':smooth121_1D']
    name = '1-2-1 smoother'
    quick_cases, thorough_cases = 200, 1500

    def make(self, n, gaps=()):
        return (Arr([NAN if i in gaps else X() for i in range(n)]),)

    def templates(self):
        for n in (1, 2, 3, 4, 6):
            yield self.make(n)
        for n, g in ((2, (0,)), (2, (1,)), (3, (0,)), (3, (1,)), (3, (2,)), (4, (1,)), (4, (0, 3)), (5, (2,)), (5, (1, 3)), (1, (0,))):
            yield self.make(n, g)

    def gen(self, rng):
        n = rng.randint(1, 14)
        return self.make(n, [i for i in range(n) if rng.random() < 0.15])

    def spec(self, x):
        return smoothed(x)


def smoothed(x):
    out = []
    for i, e in enumerate(x):
        if missing(e):
            out.append(NAN)
            continue
        a = x[i - 1] if i > 0 and not missing(x[i - 1]) else e
        b = x[i + 1] if i + 1 < len(x) and not missing(x[i + 1]) else e
        out.append((a + 2 * e + b) / 4)
    return out


class SmoothAll(Shape):
    """args: spectra, frequencies"""
    prop = 'C23'
    module, fn = SP, 'smooth121'
    functions = [SP + ':smooth121', SP + ':smooth121_1D']
    name = 'smoother of the spectra'
    frame = False
    quick_cases, thorough_cases = 60, 500

    def make(self, nf, nw, zero):
        return Arr(grid((8, nf, nw))), Arr([(i - zero) * 0.125 for i in range(nf)])

    def templates(self):
        for nf, nw, z in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 2, 0), (5, 1, 2), (3, 2, 1)):
            yield self.make(nf, nw, z)

    def gen(self, rng):
        nf = rng.randint(1, 8)
        return self.make(nf, rng.randint(1, 4), rng.choice([0, nf // 2]))

    def out(self, r, args):
        if r is not args[0] and plain(r) != plain(args[0]) and V.cur() is None:
            raise AssertionError('the spectra given and returned differ')
        return plain(r)

    def spec(self, s, freq):
        z = [i for i, f in enumerate(freq) if f == 0][0]
        n, nf, nw = shape_of(s)
        out = [[list(row) for row in v] for v in s]
        for v in range(4):
            for w in range(nw):
                for i, e in enumerate(smoothed([s[v][f][w] for f in range(z + 1, nf)])):
                    out[v][z + 1 + i][w] = e
        return out


def coherence(px, py, c, q):
    """power of the second field, coherence squared, phase (a direction at run time), its two components"""
    if any(missing(e) for e in (px, py, c, q)):
        return [py, NAN, phase(c, q), component(q, c, q, -1), component(c, c, q, 1)]
    if py == 0:
        py = coh = NAN
    elif px == 0:
        if not (c == 0 and q == 0):
            raise S.Skip()
        coh = NAN
    else:
        coh = (c * c + q * q) / (px * py)
    return [py, coh, phase(c, q), component(q, c, q, -1), component(c, c, q, 1)]


def phase(c, q):
    if missing(c) or missing(q):
        return NAN
    if V.cur() is not None:
        return S.atan2(q, c)
    r = c * c + q * q
    if r == 0:
        return NAN
    r = S.sqrt(r)
    return [c / r, q / r]


def component(e, c, q, sign):
    if missing(c) or missing(q):
        return NAN
    r = c * c + q * q
    if r == 0:
        return NAN
    return sign * e / S.sqrt(r)


def directions(stc):
    """at run time a phase is compared as a direction, and not at all where there is none"""
    if V.cur() is not None:
        return stc
    for f, row in enumerate(stc[5]):
        for w, p in enumerate(row):
            row[w] = [math.cos(p), math.sin(p)] if p == p and not stc[6][f][w] != stc[6][f][w] else NAN
    return stc


class Coherence(Shape):
    prop = 'C23'
    module, fn = SP, 'mjo_cross_coh2pha'
    functions = [SP + ':mjo_cross_coh2pha']
    name = 'coherence and phase'
    frame = False
    quick_cases, thorough_cases = 100, 800
    tol = 1e-8

    def make(self, nf, nw, gaps=()):
        s = grid((8, nf, nw))
        for v in range(2):
            for f in range(nf):
                for w in range(nw):
                    s[v][f][w] = X(lo=0)
        for f, w in gaps:
            for v in range(4):
                s[v][f][w] = NAN
        return (Arr(s),)

    def templates(self):
        yield self.make(1, 1)
        yield self.make(2, 1, [(0, 0)])
        yield self.make(1, 2, [(0, 1)])

    def gen(self, rng):
        nf, nw = rng.randint(1, 4), rng.randint(1, 4)
        return self.make(nf, nw, [(0, w) for w in range(nw)] if rng.random() < 0.5 else ())

    def cases(self, rng, n):
        for c in Shape.cases(self, rng, n):
            s = c['args']['__tuple__'][0]['__arr__']
            for f in range(len(s[0])):
                for w in range(len(s[0][0])):
                    if s[0][f][w] == 0:
                        s[2][f][w] = s[3][f][w] = 0.0
            yield c

    def out(self, r, args):
        return directions(plain(r))

    def spec(self, s):
        n, nf, nw = shape_of(s)
        out = [[list(row) for row in v] for v in s]
        for f in range(nf):
            for w in range(nw):
                r = coherence(*[s[v][f][w] for v in range(4)])
                for v, e in zip((1, 4, 5, 6, 7), r):
                    out[v][f][w] = e
        return out


def component_of(x, m, k):
    """Fourier component of a (time, lon) table at frequency m and wavenumber k, over the number of points"""
    nt, nl = len(x), len(x[0])
    re = im = 0
    n = nt * nl // math.gcd(nt, nl)
    for t in range(nt):
        for l in range(nl):
            c, s = unit(n, m * t * (n // nt) + k * l * (n // nl))
            re, im = re + x[t][l] * c, im - x[t][l] * s
    return re / (nt * nl), im / (nt * nl)


def spectra(x, y, rows, cols, sign):
    """powers, co- and quadrature spectrum at the given frequencies and wavenumbers"""
    nt, nm, nl = shape_of(x)
    out = [[[0] * len(cols) for _ in rows] for _ in range(8)]
    memo = {}

    def comp(tag, v, j, m, k):
        key = tag, j, m % nt, k % nl
        if key not in memo:
            memo[key] = component_of([[v[t][j][l] for l in range(nl)] for t in range(nt)], m, k)
        return memo[key]
    for a, m in enumerate(rows):
        for b, k in enumerate(cols):
            px = py = c = q = 0
            for j in range(nm):
                (xr, xi), (yr, yi) = comp('x', x, j, m, k), comp('y', y, j, m, k)
                px, py = px + xr * xr + xi * xi, py + yr * yr + yi * yi
                c, q = c + xr * yr + xi * yi, q + sign * (xr * yi - xi * yr)
            for v, e in enumerate((px, py, c, q)):
                out[v][a][b] = e / nm
    return out


class Segment(Shape):
    """args: two fields (time, lat, lon)"""
    prop = 'C23'
    module = SP
    quick_cases, thorough_cases = 40, 300
    tol = 1e-8

    def __init__(self, real):
        self.real = real
        self.fn = 'mjo_cross_segment_realfft' if real else 'mjo_cross_segment'
        self.functions = [SP + ':' + self.fn]
        self.name = 'spectra of a segment' + (', frequencies from zero' if real else ', all frequencies')

    def make(self, *shape):
        return Arr(grid(shape)), Arr(grid(shape))

    def templates(self):
        for s in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1), (1, 1, 3), (2, 1, 2), (3, 1, 2), (2, 2, 3), (1, 1, 4), (3, 1, 3), (6, 1, 1), (4, 1, 4), (6, 2, 2), (8, 1, 3)):
            yield self.make(*s)

    def gen(self, rng):
        return self.make(rng.randint(1, 8), rng.randint(1, 3), rng.randint(1, 6))

    def value(self, rng, leaf):
        return rng.randint(-32, 32) / 4

    def spec(self, x, y):
        nt, nm, nl = shape_of(x)
        cols = [-(c - nl // 2) for c in range(nl + 1 - nl % 2)]
        if self.real:
            return spectra(x, y, list(range(nt // 2 + 1)), cols, 1)
        return spectra(x, y, [f - nt // 2 for f in range(nt + 1 - nt % 2)], cols, -1)


class Cross(Shape):
    """args: two fields (time, lat, lon), segment length, overlap"""
    prop = 'C23'
    module, fn = SP, 'mjo_cross'
    functions = [SP + ':mjo_cross', SP + ':mjo_cross_segment_realfft', SP + ':window_cosbell', SP + ':smooth121', SP + ':smooth121_1D', SP + ':mjo_cross_coh2pha']
    name = 'space-time cross spectra'
    exact_pi = True
    quick_cases, thorough_cases = 25, 200
    tol = 1e-7
    budget = 60

    def make(self, shape, n, over):
        return Arr(grid(shape)), Arr(grid(shape)), n, over

    def templates(self):
        yield self.make((3, 1, 1), 2, 0)
        for shape, n, over in (((4, 1, 1), 3, 0), ((5, 1, 1), 2, 1), ((5, 1, 1), 3, -1), ((3, 1, 2), 2, 0), ((5, 1, 1), 4, 0), ((3, 2, 1), 2, 0), ((4, 1, 3), 2, 0), ((7, 1, 2), 6, 0), ((9, 1, 2), 4, -1), ((5, 2, 4), 4, 0)):
            yield self.make(shape, n, over)

    def gen(self, rng):
        n = rng.randint(2, 9)
        over = rng.randint(-(n // 2), 2)
        return self.make((n + rng.randint(1, 12), rng.randint(1, 2), rng.randint(1, 5)), n, over if n + over - 1 > 0 else 0)

    def value(self, rng, leaf):
        return rng.randint(-32, 32) / 4

    def out(self, r, args):
        if r['nseg'] != len(self.starts(args[0].shape[0], whole(args[2]), whole(args[3]))):
            raise AssertionError('number of segments %r' % r['nseg'])
        if abs(float(r['dof']) - 2.667 * r['nseg']) > 1e-9:
            raise AssertionError('degrees of freedom %r' % r['dof'])
        stc = plain(r['STC'])
        return [directions(stc) if not self.called else stc[:4], plain(r['freq']), plain(r['wave'])]

    called = False

    def call(self, mod, args):
        self.called = False
        whole_fn = getattr(mod, 'mjo_cross_coh2pha', None)
        if V.cur() is None or whole_fn is None or len(list(np.ndindex(args[0].shape))) <= 3:
            return mod.mjo_cross(*args)

        # coherence and phase are replaced by their own contract: they leave the powers and cross spectra alone
        def done(stc, *a, **k):
            self.called = True
            return stc
        mod.mjo_cross_coh2pha = done
        try:
            return mod.mjo_cross(*args)
        finally:
            mod.mjo_cross_coh2pha = whole_fn

    def starts(self, nt, n, over):
        out, s = [], 0
        while s + n <= nt - 1:
            out.append(s)
            s += n + over - 1
        return out

    def spec(self, x, y, n, over):
        n, over = whole(n), whole(over)
        nt, nm, nl = shape_of(x)
        m = max(1, int((n + 5) // 20))
        if m > 1 and V.cur() is not None:
            raise S.Skip()
        w = Window().spec(n, S.Q(0.1) if V.cur() is None else 0.1)
        x, y = detrended(x), detrended(y)
        cols = [-(c - nl // 2) for c in range(nl + 1 - nl % 2)]
        rows = list(range(n // 2 + 1))
        parts = []
        for s in self.starts(nt, n, over):
            a, b = [[[[v[s + t][j][l] * w[t] for l in range(nl)] for j in range(nm)] for t in range(n)] for v in (x, y)]
            parts.append(spectra(a, b, rows, cols, 1))
        out = [[[NAN] * len(cols) for _ in rows] for _ in range(8)]
        for c in range(len(cols)):
            for v in range(4):
                sm = [smoothed([p[v][f][c] for f in rows[1:]]) for p in parts]
                for f in rows[1:]:
                    out[v][f][c] = total([e[f - 1] for e in sm]) / len(parts)
            for f in rows[1:] if not self.called or V.cur() is None else []:
                r = coherence(*[out[v][f][c] for v in range(4)])
                for v, e in zip((1, 4, 5, 6, 7), r):
                    out[v][f][c] = e
        if self.called and V.cur() is not None:
            out = out[:4]
        one = S.Q if V.cur() is None else (lambda e: e)
        return [out, [S.Q(Fraction(f, n), False) if V.cur() is None else f / n for f in rows], [one(-k) for k in cols]]


def detrended(x):
    """without the least-squares line in time"""
    nt, nm, nl = shape_of(x)
    out = [[[None] * nl for _ in range(nm)] for _ in range(nt)]
    mt = Fraction(nt - 1, 2)
    ss = sum((t - mt) ** 2 for t in range(nt))
    k = (lambda f: S.Q(f, False)) if V.cur() is None else (lambda f: F._const(f))
    for j in range(nm):
        for l in range(nl):
            col = [x[t][j][l] for t in range(nt)]
            mean = total(col) / nt
            slope = total([e * k((t - mt) / ss) for t, e in enumerate(col)])
            for t, e in enumerate(col):
                out[t][j][l] = e - mean - slope * k(t - mt)
    return out


class Flip(Shape):
    """args: field (time, lat, lon), longitudes"""
    prop = 'C23'
    fn = 'lonFlip'
    quick_cases, thorough_cases = 200, 1500

    def __init__(self, module):
        self.module = module
        self.functions = [module + ':lonFlip']
        self.name = 'longitude flip' + (' (tropical diagnostics)' if module == TU else '')

    def make(self, lon, nt=1, nm=1):
        return Arr(grid((nt, nm, len(lon)))), Arr(lon)

    def templates(self):
        for lon in ([-180., -90., 0., 90.], [0., 90., 180., 270.], [-120., 0., 120.], [0., 120., 240.], [-170., -160., 10.], [0., 10., 190.], [5.], [-5.], [200.], [-10., -5.],
                    [-90, 0, 90], [0, 179, 180]):
            yield self.make(lon)
        yield self.make([-90., 0., 90.], 2, 2)

    def gen(self, rng):
        n = rng.randint(1, 12)
        lo = rng.choice([-180, 0])
        lon = sorted(rng.sample(range(lo, lo + 360, 5), n))
        if rng.random() < 0.5:
            lon = [float(x) for x in lon]
        return self.make(lon, rng.randint(1, 3), rng.randint(1, 3))

    def call(self, mod, args):
        import xarray as xr
        f, lon = args
        labels = xr.DataArray(lon.copy(), dims=['lon'], coords={'lon': lon.copy()})
        co = {'time': np.arange(f.shape[0]), 'lat': np.arange(f.shape[1]) * 2.5, 'lon': lon}
        a = xr.DataArray(f.view(np.ndarray), dims=['time', 'lat', 'lon'], coords=co)
        r = mod.lonFlip(a, labels)
        if list(labels.values) != list(lon) or list(a.lon.values) != list(lon):
            raise AssertionError('the longitudes of the caller have changed')
        if list(r.dims) != list(a.dims) or list(r.time.values) != list(co['time']) or list(r.lat.values) != list(co['lat']):
            raise AssertionError('coordinates of the result')
        return [r.lon.values.tolist(), r.values]

    def spec(self, f, lon):
        lon = [x.v if isinstance(x, S.Q) else x for x in lon]
        low = min(lon)
        new = [(x + 360 if low < 0 and x < 0 else x - 360 if low >= 0 and x >= 180 else x) for x in lon]
        order = sorted(range(len(lon)), key=lambda i: new[i])
        return [[S.Q(new[i]) if V.cur() is None else new[i] for i in order], [[[row[i] for i in order] for row in lat] for lat in f]]


class Saved(Shape):
    """args: spectra (variable, frequency, wavenumber), frequencies, wavenumbers"""
    prop = 'C23'
    fn = 'save_Spectra'
    proof = False
    quick_cases, thorough_cases = 20, 100
    bound = 'four frequencies and wavenumbers'

    def __init__(self, module):
        self.module = module
        self.functions = [module + ':save_Spectra']
        self.name = 'spectra in the file written' + (' (tropical diagnostics)' if module == TU else '')

    def gen(self, rng):
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        return Arr(grid((rng.choice([8, 16, 3]), n, m))), Arr(xs(n)), Arr(xs(m, kind='int'))

    def call(self, mod, args):
        import netCDF4
        f, freq, wave = args
        d = tempfile.mkdtemp(prefix='spec_')
        try:
            mod.save_Spectra(f, freq, wave, 'out', d + '/')
            with netCDF4.Dataset(os.path.join(d, 'out.nc')) as nc:
                if nc['STC'].dimensions != ('var', 'freq', 'wnum'):
                    raise AssertionError('dimensions in the file')
                return [np.array(nc[v][:]) for v in ('STC', 'freq', 'wnum', 'var')]
        finally:
            shutil.rmtree(d)

    def spec(self, f, freq, wave):
        return [f, freq, wave, list(range(len(f)))]


class Script(Shape):
    """The script of cross spectra, from its files to its files.
    args: rain observed, rain, wind at two levels (time, lat, lon), first and last latitude, first and last time, days a segment, overlap, symmetry"""
    prop = 'C23'
    module, fn = SP, '__main__'
    functions = ['metcalcpy.contributed.spacetime.cross_spectra:__main__']
    name = 'files of the script of cross spectra'
    proof = False
    quick_cases, thorough_cases = 4, 30
    tol = 1e-7
    bound = 'two observations a day, seven latitudes and four longitudes'
    assumptions = ('the spectra of the selected fields are those of the functions under contract',)

    def gen(self, rng):
        n = rng.randint(24, 30)
        return tuple(Arr(grid((n, 7, 4))) for _ in range(4)) + (rng.choice([15, 25]), rng.randrange(3), rng.randint(20, 23), rng.randint(3, 4), rng.choice([0, -1]),
                                                               rng.choice(['symm', 'asymm', 'latband']))

    def call(self, mod, args):
        import sys
        import xarray as xr
        import yaml
        from unittest import mock
        from .fields import run_command
        *f, top, first, last, days, lap, kind = args
        t = np.datetime64('2014-04-01T00', 'ns') + 12 * np.arange(len(f[0])) * np.timedelta64(1, 'h')
        lat, lon = np.arange(-30.0, 31, 10), np.arange(0.0, 360, 90)
        d = tempfile.mkdtemp(prefix='spec_')
        keep = {k: sys.modules.pop(k, None) for k in ('spacetime', 'spacetime_utils')}
        try:
            names = []
            for k, (v, var) in enumerate(zip(f, ('precip', 'prate', 'u', 'u'))):
                a = xr.DataArray(v, dims=('time', 'lat', 'lon'), coords={'time': t, 'lat': lat, 'lon': lon}, name=var)
                if var == 'u':      # winds come from north to south
                    a = a.isel(lat=slice(None, None, -1)).rename(lat='latitude')
                names.append(os.path.join(d, 'in%d.nc' % k))
                a.to_netcdf(names[-1])
            conf = {'pathout': [d + '/out/'], 'model': 'M', 'spd': 2, 'nperseg': int(days), 'segOverLap': int(lap), 'Symmetry': kind, 'latMin': -int(top),
                    'latMax': int(top), 'datestrt': str(t[first])[:19], 'datelast': str(t[last])[:19]}
            path = os.path.join(d, 'conf.yaml')
            with open(path, 'w') as h:
                yaml.safe_dump(conf, h)
            with mock.patch.dict(os.environ, {'COMP_SPECTRA_YAML_CONFIG_NAME': path, 'COMP_SPECTRA_INPUT_FILE_NAMES': ','.join(names)}), \
                    mock.patch.object(sys, 'path', [os.path.join(C.REPO, 'metcalcpy/contributed/spacetime')] + sys.path):
                run_command('metcalcpy/contributed/spacetime/cross_spectra.py', [])
            out = []
            for n in ('M_P_D850', 'M_P_D200', 'ERAI_M_P'):
                with xr.open_dataset(d + '/out/SpaceTimeSpectra_%s_%s_2spd.nc' % (n, kind)) as h:
                    out.append([h[v].values for v in ('STC', 'freq', 'wnum')])
            return out
        finally:
            for k, v in keep.items():
                sys.modules.pop(k, None)
                if v is not None:
                    sys.modules[k] = v
            shutil.rmtree(d)

    def spec(self, z, x, y, w, top, first, last, days, lap, kind):
        mod = C.real(SP)
        top, first, last, days, lap = (int(float(v)) for v in (top, first, last, days, lap))
        lat = np.arange(-30.0, 31, 10)
        inside = np.abs(lat) <= top
        get = lambda v: np.array([[[float(c) for c in b] for b in a] for a in v])[first:last + 1][:, inside]
        part = (lambda v: mod.get_symmasymm(get(v), lat[inside], kind)) if kind != 'latband' else get
        x, y, w, z = (part(v) for v in (x, y, w, z))
        out = []
        for a, b in ((x, y), (x, w), (x, z)):
            r = mod.mjo_cross(a.copy(), b.copy(), 2 * days, 2 * lap)
            out.append([plain(r['STC']), plain(np.asarray(r['freq']) * 2), plain(np.asarray(r['wave']))])
        return out


def contracts(prop):
    return [Parts('arrays'), Parts('labelled'), Window(), Smooth(), SmoothAll(), Coherence(), Segment(True), Segment(False), Cross(), Flip(SU), Flip(TU), Saved(SU), Saved(TU), Script()]


def preload(prop):
    for m in (SP, SU, TU):
        C.loader().load(m)
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': 'fields of at most nine times, five latitudes and four longitudes when proved; at run time at most 21 times, '
                                       'two or three latitudes and six longitudes',
            'assumptions': ['the numpy transforms are their defining sums with exact roots of unity and scipy.signal.detrend is the least-squares line (pydv/fourier.py, pydv/models.py)',
                            'xarray is executed, not modelled, on arrays whose elements are symbolic numbers',
                            'segments follow the rule of the code: a segment is used when at least one time follows it, and the next one starts one step before its end plus the overlap',
                            'the sign of the quadrature spectrum is the one of the code']}
