"""C29: dispersion curves of equatorial waves."""
import itertools
import math
import types
import numpy as np
from pydv import contract as C, spec as S, terms as T, values as V, world as W
from pydv.loader import Loader
from .shape import Shape, X, plain

WAVES = 'metcalcpy.contributed.spacetime.matsuno_plot'
NAN = math.nan
RADIUS, GRAVITY, ROTATION = 6371008, '9.80665', '0.00007292'


def const(x):
    if V.cur() is not None:
        return V.SReal(T.const(T.frac(float(x))), 'py')
    return S.Q(float(x))


class Solver(types.ModuleType):
    """scipy.optimize: some root of every equation (which one is left to the run-time side)."""
    _n = itertools.count()

    @staticmethod
    def fsolve(fn, x0, args=(), **k):
        w = V.cur()
        y = V.SArr(np.shape(x0))
        for i in range(len(y)):
            y[i] = V.SReal(T.var(('root', w.nroots)), 'np')
            w.nroots += 1
        r = fn(y, *args)
        for e in np.asarray(r.view(np.ndarray)):
            w.assume(W.cmp_formula('eq', e.t))
        return y


_loader = None


def module():
    """The module, its constants evaluated with an exact pi."""
    global _loader
    if _loader is None:
        _loader = Loader(C.REPO, extra_models={'scipy.optimize': Solver('scipy.optimize')})
    return _loader.load(WAVES)


class Curve(Shape):
    """args: equivalent depth, meridional mode, latitude (None: default), largest wavenumber, number of wavenumbers"""
    prop = 'C29'
    module = WAVES
    exact_pi = True
    tol = 1e-5                    # the tolerance of the solver is 1.5e-8 of the largest root
    quick_cases, thorough_cases = 120, 1000
    side = 1

    def templates(self):
        for mx, n in ((1, 2), (3, 2), (3, 4), (2, 3), (4, 5)):
            yield X(lo=1, hi=400), 1 if self.modes_ else None, None, mx, n
        yield X(lo=1, hi=400), 2 if self.modes_ else None, X(lo=0, hi=80), 4, 2
        yield X(lo=1, hi=400), 3 if self.modes_ else None, X(lo=-80, hi=0), 4, 2

    def gen(self, rng):
        return X(lo=1, hi=400), rng.randint(1, 5) if self.modes_ else None, rng.choice([None, X(lo=-70, hi=70)]), rng.randint(1, 50), \
            rng.choice([rng.randint(2, 12), rng.randint(2, 40)])

    modes_ = False

    def value(self, rng, leaf):
        if leaf.lo == 1:
            return rng.choice([float(rng.choice([8, 12, 25, 50, 90, 200])), rng.uniform(1, 300)])
        return rng.choice([0.0, rng.uniform(leaf.lo, leaf.hi), float(rng.randint(leaf.lo, leaf.hi))])

    def call(self, mod, args):
        he, n, lat, mx, nw = args
        if V.cur() is not None:
            V.cur().nroots = 0
            mod = module()
        k = {'max_wn': mx, 'n_wn': nw}
        if lat is not None:
            k['latitude'] = lat
        d = getattr(mod, self.fn)(he, *([n] if self.modes_ else []), **k)
        if len(d.columns) != 1:
            raise AssertionError('one curve is expected')
        return [[float(x) for x in d.index], list(d[d.columns[0]])]

    def setting(self, he, lat):
        """square of the wave speed, beta and the radius of the latitude circle"""
        c = 1 if lat is None else S.cos(abs(lat) * S.pi() / 180)
        return const(GRAVITY) * he, 2 * const(ROTATION) * c / RADIUS, RADIUS * c

    def pre(self, he, n, lat, mx, nw):
        return lat is None or bool(S.cos(abs(lat) * S.pi() / 180) > 0)

    def spec(self, he, n, lat, mx, nw):
        if isinstance(mx, S.Q):
            mx, nw, n = int(mx.v), int(nw.v), n and int(n.v)
        c2, beta, r = self.setting(he, lat)
        wn = [T.frac(mx) * (2 * j - nw + 1) / (nw - 1) for j in range(nw)]
        out = []
        if nw % 2 and np.linspace(-mx, mx, nw)[nw // 2] != 0:      # rounding decides on which side it is
            raise S.Skip()
        for w in wn:
            if w * self.side <= 0:
                out.append(NAN)
            else:
                k = const(w) / r if V.cur() is None else V.SReal(T.const(w), 'py') / r
                out.append(self.frequency(c2, beta, k, n))
        return [[float(w) for w in wn], out]

    def daily(self, omega):
        return omega * 86400 / (2 * S.pi())


class Kelvin(Curve):
    name = 'Kelvin wave'
    fn = 'kelvin_mode'
    functions = [WAVES + ':kelvin_mode', WAVES + ':beta_parameters', WAVES + ':wn_array', WAVES + ':wn2k', WAVES + ':afreq2freq']

    def frequency(self, c2, beta, k, n):
        return self.daily(S.sqrt(c2) * k)


class Mixed(Curve):
    """omega^2 - c k omega = beta c: the negative wavenumbers have the mixed Rossby-gravity wave, the positive ones the
    eastward inertio-gravity wave"""
    def __init__(self, side):
        self.side = side
        self.fn = 'eig_n_0' if side > 0 else 'mrg_mode'
        self.name = 'eastward gravity wave of mode zero' if side > 0 else 'mixed Rossby-gravity wave'
        self.functions = [WAVES + ':' + self.fn, WAVES + ':beta_parameters', WAVES + ':wn_array', WAVES + ':wn2k', WAVES + ':afreq2freq']

    def frequency(self, c2, beta, k, n):
        c = S.sqrt(c2)
        k = k * 10 ** 7                # per ten thousand kilometres, so that no divisor is nearly zero
        root = S.sqrt(1 + 4 * 10 ** 14 * beta / (k * k * c))
        k = k / 10 ** 7
        return self.daily(c * k * (1 + self.side * root) / 2)


class Mode(Curve):
    """omega^3 - c^2 (k^2 + (2n+1) beta / c) omega - k beta c^2 = 0; proved: the reported frequency is a root of this
    relation; which of the roots is judged at run time"""
    modes_ = True
    assumptions = ('scipy.optimize.fsolve returns roots; that they are those of the wanted branch is judged at run time',)

    def __init__(self, fn, name, side, branch):
        self.fn, self.name, self.side, self.branch = fn, name, side, branch
        self.functions = [WAVES + ':' + fn, WAVES + ':dispersion', WAVES + ':beta_parameters', WAVES + ':wn_array', WAVES + ':wn2k', WAVES + ':afreq2freq']

    def out(self, r, args):
        if V.cur() is None:
            return r
        he, n, lat, mx, nw = args
        c2, beta, rad = self.setting(he, lat)
        res = []
        for j, f in enumerate(r[1]):
            w = T.frac(mx) * (2 * j - nw + 1) / (nw - 1)
            if w * self.side <= 0:
                res.append(f)
            else:
                k, om = V.SReal(T.const(w), 'py') / rad, f * 2 * S.pi() / 86400
                res.append(om * om * om - c2 * (k * k + (2 * n + 1) * beta / S.sqrt(c2)) * om - k * beta * c2)
        return [r[0], res]

    def frequency(self, c2, beta, k, n):
        if V.cur() is not None:
            return 0
        c2, beta, k = float(c2), float(beta), float(k)
        b, d = c2 * (k * k + beta * (2 * n + 1) / math.sqrt(c2)), -k * beta * c2
        # three real roots: 2 sqrt(b/3) cos(...)
        t = math.acos(max(-1, min(1, -d / 2 / (b / 3) ** 1.5)))
        roots = sorted(2 * math.sqrt(b / 3) * math.cos((t - 2 * math.pi * j) / 3) for j in range(3))
        return roots[self.branch] * 86400 / (2 * math.pi)


class Tables(Shape):
    """All curves in one table; args: equivalent depths, modes, latitude, largest wavenumber, number of wavenumbers"""
    prop = 'C29'
    module = WAVES
    proof = False
    tol = 1e-9
    quick_cases, thorough_cases = 25, 150
    bound = 'up to three depths and three modes, at most 20 wavenumbers'

    def __init__(self, fn):
        self.fn, self.functions = fn, [WAVES + ':' + fn]
        self.name = 'all curves of one depth' if fn == 'matsuno_dataframe' else 'all curves of several depths'

    def gen(self, rng):
        he = [float(rng.choice([8, 12, 25, 50, 90, 33.5, 150])) for _ in range(1 if self.fn == 'matsuno_dataframe' else rng.randint(1, 3))]
        return sorted(set(he)), rng.sample([1, 2, 3, 4], rng.randint(1, 3)), rng.choice([0.0, 15.0, -30.0]), rng.randint(1, 30), rng.randint(2, 20)

    def call(self, mod, args):
        he, n, lat, mx, nw = args
        if self.fn == 'matsuno_dataframe':
            d = {he[0]: mod.matsuno_dataframe(he[0], n, lat, mx, nw)}
        else:
            d = mod.matsuno_modes_wk(he, n, lat, mx, nw)
        return [[float(h), [float(x) for x in t.index], {c: list(t[c]) for c in t.columns}] for h, t in d.items()]

    def spec(self, he, n, lat, mx, nw):
        n, out = [int(x.v) for x in n], []
        for h in he:
            k = str(float(h))
            cols = {'Kelvin(he=%sm)' % k: Kelvin(), 'MRG(he=%sm)' % k: Mixed(-1), 'EIG(n=0,he=%sm)' % k: Mixed(1)}
            cols = {c: m.spec(h, None, lat, mx, nw) for c, m in cols.items()}
            for j in n:
                for m in modes():
                    cols['%s(n=%d,he=%sm)' % ({'er_n': 'ER', 'eig_n': 'EIG', 'wig_n': 'WIG'}[m.fn], j, k)] = m.spec(h, S.Q(j), lat, mx, nw)
            out.append([float(h), list(cols.values())[0][0], {c: v[1] for c, v in cols.items()}])
        return out


Tables.tol = Mode.tol


def modes():
    return [Mode('er_n', 'Rossby wave', -1, 1), Mode('eig_n', 'eastward gravity wave', 1, 2), Mode('wig_n', 'westward gravity wave', -1, 2)]


def contracts(prop):
    return [Kelvin(), Mixed(-1), Mixed(1)] + modes() + [Tables('matsuno_dataframe'), Tables('matsuno_modes_wk')]


def preload(prop):
    C.real(WAVES)


def info(prop):
    return {'level': 'proof', 'bound': 'proved for every equivalent depth, five grids of wavenumbers and every latitude; up to 40 wavenumbers at run time',
            'assumptions': ['scipy.optimize.fsolve returns roots of the equations it is given; which root is judged at run time',
                            'the cosine of a latitude between 80 S and 80 N is positive',
                            'at least two wavenumbers are asked for']}
