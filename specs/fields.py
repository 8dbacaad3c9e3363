"""C20, C21: storm-relative winds, the difficulty index and its piecewise linear taper."""
import argparse
import itertools
import math
from fractions import Fraction
import numpy as np
from pydv import contract as C, spec as S, values as V
from .shape import Shape, X, Arr, Raises, xs

TCRMW = 'metcalcpy.process_tcrmw'
DIFF = 'metcalcpy.calc_difficulty_index'
PLIN = 'metcalcpy.piecewise_linear'
NAN = math.nan


def grid(shape, **k):
    """Nested lists of numbers."""
    return X(**k) if not shape else [grid(shape[1:], **k) for _ in range(shape[0])]


# ---- C20 ---------------------------------------------------------------------------------------
DIMS = ('range', 'azimuth', 'pressure', 'track_point')


class SymVar:
    """A variable of a data set as the code reads it."""
    def __init__(self, values, dims):
        self.values = self.data = values
        self.shape, self.dims, self.ndim = values.shape, dims, len(dims)
        self.sizes = dict(zip(dims, values.shape))

    def to_numpy(self):
        return self.values

    def __len__(self):
        return self.shape[0]

    def __getattr__(self, name):
        if name.startswith('__') or V.cur() is None:
            raise AttributeError(name)
        V.cur().flag('data set variable: %s' % name)


class SymSet(dict):
    def __getattr__(self, name):
        if name in self:
            return self[name]
        if name.startswith('__') or V.cur() is None:
            raise AttributeError(name)
        V.cur().flag('data set: %s' % name)


class Winds(Shape):
    prop = 'C20'
    module, fn = TCRMW, 'compute_wind_components'
    functions = [TCRMW + ':compute_wind_components']
    name = 'radial and tangential wind'
    exact_pi = True
    tol = 2e-4
    quick_cases, thorough_cases = 200, 1500

    def make(self, nr, na, nl, nt):
        return Arr([X(lo=-360, hi=720, pool=None) for _ in range(na)]), Arr(grid((nr, na, nl, nt))), Arr(grid((nr, na, nl, nt)))

    def templates(self):
        for s in ((1, 1, 1, 1), (1, 2, 1, 1), (1, 3, 1, 1), (2, 1, 1, 2), (2, 2, 2, 1), (1, 2, 3, 2)):
            yield self.make(*s)

    def gen(self, rng):
        return self.make(*[rng.randint(1, 4) for _ in range(4)])

    def value(self, rng, leaf):
        if leaf.lo is not None:
            return rng.choice([float(rng.randrange(-360, 721, 15)), rng.uniform(-360, 720), rng.uniform(0, 360)])
        return Shape.value(self, rng, leaf)

    def call(self, mod, args):
        az, u, v = args
        names = argparse.Namespace(T='TMP', u='UGRD', v='VGRD')
        t = np.zeros(u.shape)
        if V.cur() is not None:
            ds = SymSet(TMP=SymVar(t, DIMS), UGRD=SymVar(u, DIMS), VGRD=SymVar(v, DIMS), azimuth=SymVar(az, ('azimuth',)))
        else:
            import xarray as xr
            ds = xr.Dataset({'TMP': (DIMS, t), 'UGRD': (DIMS, u), 'VGRD': (DIMS, v)}, coords={'azimuth': az})
        return mod.compute_wind_components(names, ds)

    def spec(self, az, u, v):
        rad, tan = [], []
        for i in range(len(u)):
            for out, fn in ((rad, lambda c, s, x, y: c * x + s * y), (tan, lambda c, s, x, y: c * y - s * x)):
                out.append([])
                for j in range(len(az)):
                    # the radial axis points 90 degrees further than the azimuth
                    a = (az[j] + 90) * S.pi() / 180
                    c, s = S.cos(a), S.sin(a)
                    out[-1].append([[fn(c, s, u[i][j][k][t], v[i][j][k][t]) for t in range(len(u[i][j][k]))] for k in range(len(u[i][j]))])
        return [rad, tan]


def run_command(path, argv):
    """Runs a script of the working tree in this process, without its plots, and leaves logging as it was."""
    import contextlib
    import io
    import logging
    import os
    import runpy
    import sys
    import matplotlib.pyplot
    from unittest import mock
    root = logging.root
    keep = root.level, list(root.handlers), logging.root.manager.disable
    plots = mock.MagicMock()
    try:
        with contextlib.redirect_stdout(io.StringIO()), mock.patch.object(sys, 'argv', [path] + argv), mock.patch.object(os, 'system', lambda c: 0), \
                mock.patch.dict(sys.modules, {'matplotlib.pyplot': plots}), mock.patch.object(matplotlib, 'pyplot', plots):
            runpy.run_path(os.path.join(C.REPO, path), run_name='__main__')
    except SystemExit as e:
        if e.code:
            raise AssertionError('the command ends with status %s' % e.code)
    finally:
        root.handlers[:] = keep[1]
        root.setLevel(keep[0])
        logging.disable(keep[2])


def as_command(path, call):
    """A stand-in for the class of a program that hands its parameters to the program's command in a file."""
    class Command:
        def __init__(self, p):
            self.p = p

    def go(self):
        import yaml
        keys = [k for k in self.p if k.endswith('_output')]
        conf = self.p[keys[0]] + '.yaml'
        with open(conf, 'w') as f:
            yaml.safe_dump(self.p, f, sort_keys=False)
        run_command(path, [conf])
    setattr(Command, call, go)
    return Command


class FromFile(Winds):
    """args: as Winds, order of the dimensions in the file, names of the winds in the file"""
    functions = [TCRMW + ':read_tcrmw', TCRMW + ':compute_interpolation_weights', TCRMW + ':__main__']
    name = 'winds of a file'
    fn = '__main__'
    proof = False
    exact_pi = False
    quick_cases, thorough_cases = 40, 250
    bound = 'up to four values of each dimension, every order of the dimensions in the file'
    ORDERS = [list(p) for p in itertools.permutations(DIMS)]

    def templates(self):
        return ()

    def gen(self, rng):
        return Winds.gen(self, rng) + (rng.choice(self.ORDERS), rng.choice([('UGRD', 'VGRD', 'TMP'), ('U', 'V', 'T'), ('VGRD', 'UGRD', 'RH')]))

    def call(self, mod, args):
        import os
        import shutil
        import tempfile
        import xarray as xr
        az, u, v, order, names = args
        t = 250 + np.arange(u.size, dtype=float).reshape(u.shape)
        coords = {d: 10.0 * np.arange(1, n + 1) for d, n in zip(DIMS, u.shape)}
        coords['azimuth'] = az
        given = xr.Dataset({k: (DIMS, x) for k, x in zip(names, (u, v, t))}, coords=coords)
        given['RMW'] = ('track_point', np.arange(1.0, u.shape[3] + 1))
        given['TrackLines'] = ('track_line', np.arange(3.0))
        d = tempfile.mkdtemp(prefix='verif-rmw-')
        try:
            given.transpose(*order, 'track_line').to_netcdf(os.path.join(d, 'in.nc'))
            run_command('metcalcpy/process_tcrmw.py', ['--datadir', d, '--input', 'in.nc', '--output', 'out.nc', '--u', names[0], '--v', names[1], '--T', names[2]])
            with xr.open_dataset(os.path.join(d, 'out.nc')) as f:
                r = f.load()
        finally:
            shutil.rmtree(d)
        if not r.drop_vars(['u_radial', 'u_tangential']).transpose(*DIMS, 'track_line').equals(given):
            raise AssertionError('fields of the file changed')
        if r['u_radial'].dims != DIMS or r['u_tangential'].dims != DIMS:
            raise AssertionError('dimensions of the winds')
        return [r['u_radial'].values, r['u_tangential'].values]

    def spec(self, az, u, v, order, names):
        return Winds.spec(self, az, u, v)


# ---- C21 ---------------------------------------------------------------------------------------
def taper(kx, ky, left, right, x):
    """Piecewise linear function through the knots."""
    if isinstance(x, float) and x != x:
        return NAN
    if x < kx[0]:
        return left
    if x > kx[-1]:
        return right
    for a, b, p, q in zip(kx, kx[1:], ky, ky[1:]):
        if x <= b:
            return p + (x - a) * (q - p) / (b - a)
    return ky[-1]


def increasing(kx):
    """Whether the knots are in order; equal knots are left open."""
    for a, b in zip(kx, kx[1:]):
        if a > b:
            return False
    for a, b in zip(kx, kx[1:]):
        if a == b:
            raise S.Skip()
    return True


class Taper(Shape):
    prop = 'C21'
    module = PLIN
    functions = [PLIN + ':PiecewiseLinear.__init__', PLIN + ':PiecewiseLinear.values', PLIN + ':PiecewiseLinear.get_ymax']
    name = 'piecewise linear function'
    quick_cases, thorough_cases = 400, 4000
    edge_raise = True

    def templates(self):
        for n in (2, 3, 4):
            yield xs(n), xs(n), X(), X(), Arr([X()])
        yield xs(2), xs(2), X(), X(), Arr([X(), X()])
        yield xs(2), xs(2), X(), X(), Arr([[X()], [X()]])
        yield xs(2), xs(2), None, None, Arr([X()])
        yield Arr(xs(3)), Arr(xs(3)), X(), X(), [X()]
        for a, b in ((1, 1), (0, 0), (2, 3), (3, 2), (1, 2), (2, 1)):
            yield xs(a), xs(b), X(), X(), Arr([X()])

    def gen(self, rng):
        n = rng.randint(0, 6)
        m = n if rng.random() < 0.85 else rng.randint(0, 6)
        pts = Arr(grid(rng.choice([(1,), (5,), (2, 3)])))
        if rng.random() < 0.6:
            return sorted(rng.sample(range(-8, 24), n)), xs(m), X(), X(), pts
        return xs(n), xs(m), X(), X(), pts

    def call(self, mod, args):
        kx, ky, left, right, pts = args
        f = mod.PiecewiseLinear(kx, ky) if left is None else mod.PiecewiseLinear(kx, ky, left=left, right=right)
        try:
            return [f.values(pts), f.get_ymax()]
        except ValueError as e:
            raise RuntimeError('accepted and then not usable: %s' % e)

    def spec(self, kx, ky, left, right, pts):
        if len(kx) < 2 or len(kx) != len(ky) or not increasing(kx):
            m, r = C.loader().load(PLIN), C.real(PLIN)
            raise Raises(m.IncompatibleLengths, m.UnsortedArray, r.IncompatibleLengths, r.UnsortedArray, ValueError)
        left, right = (NAN, NAN) if left is None else (left, right)

        def at(p):
            return [at(e) for e in p] if isinstance(p, list) else taper(kx, ky, left, right, p)
        top = ky[0]
        for y in ky[1:]:
            top = y if y > top else top
        return [at(pts), top]


EPS = Fraction(1, 2 ** 23)
ENVELOPE = [3, 9, 12, 21], [0, Fraction(3, 2), Fraction(3, 2), 0], 0, 0


def missing(x):
    return isinstance(x, float) and x != x


class Index(Shape):
    """The index at every grid point; given = taper passed in, else the default envelope."""
    prop = 'C21'
    module = DIFF
    quick_cases, thorough_cases = 250, 2500
    max_paths = 6000
    budget = 60
    edge_raise = True

    def __init__(self, kind):
        self.kind = kind
        self.name = 'difficulty index, ' + {'given': 'given taper', 'default': 'default taper', 'factor': 'given taper and weight'}[kind]
        self.functions = [DIFF + (':_difficulty_index' if kind == 'factor' else ':forecast_difficulty'), DIFF + ':_difficulty_index', DIFF + ':_input_check',
                          PLIN + ':PiecewiseLinear.values']

    def make(self, ni, nj, nm, mu='array', ref=True, nan=None):
        sig = grid((ni, nj))
        if nan:
            sig[nan[0]][nan[1]] = NAN
        knots = (xs(2), xs(2), X(), X())
        return (Arr(sig), Arr(grid((ni, nj))) if mu == 'array' else X(), X(), Arr(grid((ni, nj, nm))), knots if self.kind != 'default' else None,
                X() if ref else None, X(lo=0, hi=1) if self.kind == 'factor' else None)

    def templates(self):
        yield self.make(1, 1, 1)
        yield self.make(1, 1, 2, ref=False)
        yield self.make(1, 1, 2, mu='scalar')
        if self.kind == 'given':
            yield self.make(1, 2, 1, ref=False)
            yield self.make(2, 1, 1, mu='scalar', ref=False)
            yield self.make(1, 2, 1, ref=False, nan=(0, 1))

    def gen(self, rng):
        ni, nj = rng.randint(1, 3), rng.randint(1, 4)
        t = self.make(ni, nj, rng.randint(1, 6), rng.choice(['array', 'array', 'scalar']), rng.random() < 0.5,
                      (rng.randrange(ni), rng.randrange(nj)) if rng.random() < 0.15 and ni * nj > 1 else None)
        if t[4] is None:
            return t
        n = rng.randint(2, 5)
        return t[:4] + ((sorted(rng.sample(range(-4, 24), n)), xs(n), X(), X()),) + t[5:]

    def cases(self, rng, n):
        for c in Shape.cases(self, rng, n):
            a = c['args']['__tuple__']
            k = rng.random()
            if k < 0.92:            # mostly valid spreads and references
                a[0]['__arr__'] = [[abs(x) if x else 1.0 for x in r] for r in a[0]['__arr__']]
                if a[5] is not None:
                    a[5] = abs(a[5]) or 0.5
            yield c

    def call(self, mod, args):
        sig, mu, thr, field, knots, ref, factor = args
        k = {} if ref is None else {'sigma_over_mu_ref': ref}
        if knots is None:
            return mod.forecast_difficulty(sig, mu, thr, field, None, **k)
        f = mod.plin(knots[0], knots[1], left=knots[2], right=knots[3])
        if self.kind == 'factor':
            return mod._difficulty_index(sig, mu, thr, field, f, under_factor=factor, **k)
        return mod.forecast_difficulty(sig, mu, thr, field, f, **k)

    def spec(self, sig, mu, thr, field, knots, ref, factor):
        if knots is None:
            knots = ENVELOPE
        elif not increasing(knots[0]):
            raise S.Skip()
        m = mu if isinstance(mu, list) else [[mu] * len(r) for r in sig]
        for r, q in zip(sig, m):
            for s, u in zip(r, q):
                if u == 0:
                    raise S.Skip()
        bad = False
        for r in sig:
            for s in r:
                if missing(s):
                    continue
                if s <= 0:
                    bad = True
                elif s < EPS:
                    raise S.Skip()
        if ref is not None:
            if ref <= 0:
                bad = True
            elif ref < EPS:
                raise S.Skip()
        if bad:
            raise Raises(AssertionError, ValueError)
        ref = EPS if ref is None else ref
        big = ref
        ratio = [[NAN if missing(s) else s / u for s, u in zip(r, q)] for r, q in zip(sig, m)]
        for r in ratio:
            for x in r:
                if not missing(x) and x > big:
                    big = x
        half = Fraction(1, 2)
        w = half if factor is None else factor
        out = []
        for i in range(len(sig)):
            out.append([])
            for j in range(len(sig[i])):
                if missing(ratio[i][j]):
                    out[-1].append(NAN)
                    continue
                n = 0
                for x in field[i][j]:
                    if x < thr:
                        n += 1
                p = Fraction(n, len(field[i][j]))
                d = S.absv(1 - w - p) if not isinstance(w, Fraction) else abs(1 - w - p)
                out[-1].append(half * taper(*knots, m[i][j]) * (ratio[i][j] / big + (1 - d)))
        return out


def contracts(prop):
    if prop == 'C20':
        return [Winds(), FromFile()]
    return [Taper(), Index('given'), Index('default'), Index('factor')]


def preload(prop):
    for m in (TCRMW,) if prop == 'C20' else (DIFF, PLIN):
        C.loader().load(m)
        C.real(m)


def info(prop):
    if prop == 'C20':
        return {'level': 'proof', 'bound': 'grids of at most three azimuths, three levels and two ranges or track points when proved; at most four of each at run time; files at run time only',
                'assumptions': ['the angle is kept in exact arithmetic (the code holds it in single precision; compared at run time to 2e-4)',
                                'sine and cosine are functions with the quarter-turn identities, pi is a symbol',
                                'the data set is any mapping from names to arrays (xarray at run time)']}
    return {'level': 'proof', 'bound': 'at most four knots and fields of at most two points or two members when proved; larger fields at run time',
            'assumptions': ['contract of numpy.interp: linear between neighbouring knots, left/right outside',
                            'equal neighbouring knots, zero means and missing ensemble members are outside the contract']}
