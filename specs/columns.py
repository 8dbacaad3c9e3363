"""C19: vertical interpolation.  xarray itself is executed on arrays of symbolic numbers."""
import copy
import logging
import math
import os
import shutil
import tempfile
import time
from fractions import Fraction
import numpy as np
from pydv import contract as C, spec as S, values as V
from .shape import Shape, X, Arr, xs, plain
from .fields import grid, missing, run_command

VERT = 'metcalcpy.vertical_interp'
NAN = math.nan
UNITS = {'meter': Fraction(1), 'kilometer': Fraction(1000), 'm': Fraction(1), 'km': Fraction(1000), 'centimeter': Fraction(1, 100)}


def labelled(values, dims, coords, units):
    import xarray as xr
    return xr.DataArray(values.view(np.ndarray), dims=dims, coords=coords, attrs={'units': units})


def at(v, idx):
    for i in idx:
        v = v[i]
    return v


class Interp(Shape):
    """args: field, heights (same shape), levels, position of the vertical dimension, units of levels and of heights"""
    prop = 'C19'
    module, fn = VERT, 'vertical_interp'
    functions = [VERT + ':vertical_interp']
    quick_cases, thorough_cases = 60, 600
    tol = 1e-8
    max_paths = 3000
    budget = 60

    def __init__(self, part):
        self.part = part
        self.name = 'vertical interpolation, ' + part

    def make(self, shape, pos, nl, ul='meter', uz='meter', nan=None):
        f = grid(shape)
        if nan is not None:
            at(f, nan[:-1])[nan[-1]] = NAN
        return Arr(f), Arr(grid(shape)), xs(nl), pos, ul, uz

    def templates(self):
        if self.part == 'one column':
            for n in (1, 2, 3, 4):
                yield self.make((n, 1), 0, 1)
            yield self.make((3, 1), 0, 2)
            yield self.make((3, 1), 0, 1, nan=(1, 0))
        elif self.part == 'several columns':
            yield self.make((2, 2), 0, 1)
            yield self.make((2, 2), 1, 1)
            yield self.make((1, 2, 2), 1, 1)
            yield self.make((2, 1, 3), 2, 1)
        else:
            for ul, uz in (('kilometer', 'meter'), ('m', 'km'), ('centimeter', 'm'), ('km', 'kilometer'), ('m', 'meter')):
                yield self.make((2, 1), 0, 1, ul, uz)

    def gen(self, rng):
        d = rng.randint(1, 3)
        pos = rng.randrange(d)
        shape = [rng.randint(1, 3) for _ in range(d)]
        shape[pos] = rng.randint(1, 6)
        ul, uz = (rng.choice(list(UNITS)), rng.choice(list(UNITS))) if self.part == 'units' else ('meter', 'meter')
        return self.make(tuple(shape), pos, rng.randint(1, 4), ul, uz)

    def cases(self, rng, n):
        for c in Shape.cases(self, rng, n):
            a = c['args']['__tuple__']
            z = np.array(a[1]['__arr__'], dtype=float)
            if z.shape[a[3]] > 1:
                # strictly increasing columns
                step = np.where(rng.random() < 0.5, np.round(np.abs(z) + 1), np.abs(z) + 0.125)
                z = np.cumsum(step, axis=a[3]) - rng.choice([0, 4.0, 20.5])
            a[1]['__arr__'] = z.tolist()
            conv = float(UNITS[a[5]] / UNITS[a[4]])
            flat = z.ravel().tolist()
            a[2] = [conv * (rng.choice([rng.choice(flat), rng.uniform(min(flat) - 1, max(flat) + 1), rng.uniform(min(flat), max(flat))])) for _ in a[2]]
            yield c

    def pre(self, f, z, levels, pos, ul, uz):
        for col in self.cols(z, pos):
            for a, b in zip(col, col[1:]):
                if not a < b:
                    return False
        return True

    def cols(self, z, pos):
        pos = int(pos.v) if isinstance(pos, S.Q) else pos
        a = np.empty(shape_of(z), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = at(z, i)
        a = np.moveaxis(a, pos, -1)
        return a.reshape(-1, a.shape[-1]).tolist()

    def call(self, mod, args):
        f, z, levels, pos, ul, uz = args
        dims = ['lat', 'lon', 'time'][:f.ndim]
        dims[pos] = 'hybrid'
        coords = {d: 100 + 5 * np.arange(n) for d, n in zip(dims, f.shape)}
        field = labelled(f, dims, coords, 'K')
        surf = labelled(z, dims, coords, uz)
        conf = {'vertical_dim_name': 'hybrid', 'vertical_levels': levels, 'vertical_level_units': ul}
        keep = copy.deepcopy({k: v for k, v in conf.items() if k != 'vertical_levels'})
        old = logging.root.level
        if old <= logging.DEBUG:
            logging.root.setLevel(logging.WARNING)
        try:
            r, _ = mod.vertical_interp('t', conf, surf, field)
        finally:
            logging.root.setLevel(old)
        if any(conf[k] != v for k, v in keep.items()) or field.attrs != {'units': 'K'} or surf.attrs != {'units': uz}:
            raise AssertionError('configuration or attributes changed')
        want = [d if d != 'hybrid' else 'lev' for d in dims]
        if list(r.dims) != want or any(list(r[d].values) != list(coords[d]) for d in want if d != 'lev'):
            raise AssertionError('dimensions or coordinates of the result')
        return [r.values, r['lev'].values]

    def spec(self, f, z, levels, pos, ul, uz):
        pos = int(pos.v) if isinstance(pos, S.Q) else pos
        conv = UNITS[uz] / UNITS[ul]
        shape = list(shape_of(f))
        n = shape[pos]
        shape[pos] = len(levels)
        memo = {}

        def place(rest):
            """heights of one column in the units of the levels"""
            if rest not in memo:
                memo[rest] = [at(z, rest[:pos] + (k,) + rest[pos:]) * conv for k in range(n)]
            return memo[rest]

        def value(idx):
            eta = levels[idx[pos]]
            rest = idx[:pos] + idx[pos + 1:]
            h = place(rest)
            v = lambda k: at(f, rest[:pos] + (k,) + rest[pos:])
            if eta < h[0]:
                return v(0)
            for k in range(n - 1):
                if eta < h[k + 1]:
                    if eta == h[k]:
                        return v(k)
                    if missing(v(k)) or missing(v(k + 1)):
                        return NAN
                    w = (eta - h[k]) / (h[k + 1] - h[k])
                    return (1 - w) * v(k) + w * v(k + 1)
            return v(n - 1)
        return [nest(tuple(shape), value), list(levels)]


def shape_of(v):
    return (len(v),) + (shape_of(v[0]) if len(v) else ()) if isinstance(v, list) else ()


def nest(shape, fn, idx=()):
    return fn(idx) if len(idx) == len(shape) else [nest(shape, fn, idx + (i,)) for i in range(shape[len(idx)])]


class Heights(Shape):
    """args: pressures of the levels, surface pressure (lat, lon), temperature and humidity (lev, lat, lon), surface geopotential, position of the levels,
    units of surface pressure and of the levels"""
    prop = 'C19'
    module, fn = VERT, 'height_from_pressure'
    functions = [VERT + ':height_from_pressure']
    name = 'heights of pressure levels'
    proof = False
    quick_cases, thorough_cases = 40, 300
    tol = 1e-7
    bound = 'columns of up to six levels, 2 x 2 points'
    assumptions = ('virtual temperature is computed by metpy, in code and specification',)
    PRESSURES = {'Pa': 1.0, 'hPa': 100.0, 'mbar': 100.0, 'kPa': 1000.0}

    def gen(self, rng):
        n, s = rng.randint(1, 6), (rng.randint(1, 2), rng.randint(1, 2))
        return Arr(xs(n, lo=30, hi=1050, strict=True)), Arr(grid(s)), Arr(grid((n,) + s)), Arr(grid((n,) + s)), Arr(grid(s)), rng.randrange(3), \
            rng.choice(list(self.PRESSURES)), rng.choice(list(self.PRESSURES))

    def cases(self, rng, n):
        for c in Shape.cases(self, rng, n):
            a = c['args']['__tuple__']
            levels = sorted({round(rng.uniform(30, 1050)) for _ in a[0]['__arr__']}, reverse=True)
            k, shape = len(levels), np.shape(a[1]['__arr__'])
            put = lambda i, s, f: a[i].__setitem__('__arr__', np.array([f() for _ in range(int(np.prod(s)))]).reshape(s).tolist())
            a[0]['__arr__'] = [float(x) for x in levels]
            put(1, shape, lambda: float(rng.choice([rng.uniform(500, 1060), rng.uniform(500, 1060), rng.choice(levels)])))
            put(2, (k,) + shape, lambda: rng.uniform(210, 310))
            put(3, (k,) + shape, lambda: rng.choice([0.0, 100.0, rng.uniform(0, 100)]))
            put(4, shape, lambda: rng.choice([0.0, rng.uniform(-100, 20000)]))
            yield c

    def call(self, mod, args):
        import xarray as xr
        p, ps, t, rh, phi, pos, us, ul = args
        order = ['lat', 'lon']
        order.insert(pos, 'lev')
        coords = {'lev': p * 100 / self.PRESSURES[ul], 'lat': np.arange(ps.shape[0]), 'lon': np.arange(ps.shape[1])}

        def array(v, dims, units):
            r = xr.DataArray(v, dims=dims, coords={d: coords[d] for d in dims}, attrs={'units': units})
            if 'lev' in dims:
                r = r.transpose(*order)
                r.coords['lev'].attrs['units'] = ul
            return r
        full, flat = ('lev', 'lat', 'lon'), ('lat', 'lon')
        given = array(phi, flat, 'm**2/s**2'), array(ps * 100 / self.PRESSURES[us], flat, us), array(t, full, 'K'), array(rh, full, 'percent')
        keep = [x.copy(deep=True) for x in given]
        r = mod.height_from_pressure({'vertical_dim_name': 'lev'}, *given)
        if any(not a.identical(b) for a, b in zip(given, keep)):
            raise AssertionError('input modified')
        if list(r.dims) != order or r.attrs.get('units') not in ('meter', 'm'):
            raise AssertionError('dimensions or units of the result')
        return r.transpose('lev', 'lat', 'lon').values

    def spec(self, p, ps, t, rh, phi, pos, us, ul):
        from metpy import calc, constants
        from metpy.units import units
        p = [float(x) for x in p]
        g = float(constants.earth_gravity.to_base_units().magnitude)
        scale = float(constants.dry_air_gas_constant.to_base_units().magnitude) / g
        out = np.full((len(p),) + shape_of(ps), NAN)
        for i in np.ndindex(*shape_of(ps)):
            base, h = float(at(ps, i)), float(at(phi, i)) / g
            for k, x in enumerate(p):
                # conversion of units may round either way
                if x == base and us != ul:
                    raise S.Skip()
                if x > base:
                    continue
                q = units.Quantity(x, 'hPa')
                tk = units.Quantity(float(at(t, (k,) + i)), 'K')
                mix = calc.mixing_ratio_from_relative_humidity(q, tk, units.Quantity(float(at(rh, (k,) + i)), 'percent'))
                tv = float(calc.virtual_temperature(tk, mix).to('K').magnitude)
                below = p[k - 1] if k else base
                h += scale * tv * math.log(min(below, base) / x)
                out[(k,) + i] = h
        return plain(out)


class Command(Interp):
    """args: as Interp (levels second), hours of start and of validity, whether the valid time is a dimension, whether the file name gives the
    reference time, local time zone"""
    functions = [VERT + ':' + f for f in ('read_required_fields', 'write_dataset', '__main__')]
    fn = '__main__'
    proof = False
    quick_cases, thorough_cases = 25, 250
    bound = 'columns of up to six levels, up to four requested levels, 3 x 3 points'
    ZONES = ['UTC', 'UTC+7', 'UTC-5:30']

    def templates(self):
        return ()

    def __init__(self, part):
        self.part = part
        self.name = 'command, ' + part

    def gen(self, rng):
        shape = (rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 3))
        return self.make(shape, 0, rng.randint(1, 4), rng.choice(list(UNITS)), rng.choice(list(UNITS))) \
            + (rng.randrange(400000), rng.randrange(400), rng.random() < 0.5, rng.random() < 0.5, rng.choice(self.ZONES))

    def call(self, mod, args):
        import xarray as xr
        import yaml
        f, z, levels, pos, ul, uz, start, lead, dimension, named, zone = args
        coords = {'hybrid': 100 + 5 * np.arange(f.shape[0]), 'lat': 10.5 * np.arange(f.shape[1]), 'lon': 2.0 * np.arange(f.shape[2])}
        init = np.datetime64('1990-01-01T00', 'ns') + np.timedelta64(start, 'h')
        valid = init + np.timedelta64(lead, 'h')
        dims = ('hybrid', 'lat', 'lon')
        ds = xr.Dataset({'T': (dims, f, {'units': 'K', 'note': 'first'}), 'Z': (dims, z, {'units': uz}), 'Q': (dims, f * 2)}, coords=coords,
                        attrs={'source': 'model', 'run': 3})
        ds['time'], ds['valid_time'] = init, valid
        stamp = str(init)[:13].replace('-', '').replace('T', '')
        conf = {'vertical_dim_name': 'hybrid', 'vertical_levels': [float(x) for x in levels], 'vertical_level_units': ul, 'height_from_pressure': False,
                'vertical_coord_type_in': 'pressure', 'vertical_coord_type_out': 'height', 'geopotential_height_name': 'Z', 'fields': ['T', 'Q']}
        extra = ['--create_time_dim'] * dimension + ['--ref_time_from_filename'] * named
        old = os.environ.get('TZ')
        d = tempfile.mkdtemp(prefix='verif-vert-')
        try:
            ds.to_netcdf(os.path.join(d, 'in.nc'))
            with open(os.path.join(d, 'conf.yaml'), 'w') as h:
                yaml.safe_dump(conf, h)
            out = 'out.%s.nc' % stamp
            os.environ['TZ'] = zone
            time.tzset()
            run_command('metcalcpy/vertical_interp.py',
                        ['--datadir', d, '--input', 'in.nc', '--config', os.path.join(d, 'conf.yaml'), '--output', out] + extra)
            with xr.open_dataset(os.path.join(d, out), decode_times=False) as h:
                r = h.load()
            with xr.open_dataset(os.path.join(d, out)) as h:
                dates = h.load()
        finally:
            if old is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = old
            time.tzset()
            shutil.rmtree(d)
        lead_dims = ('valid_time',) if dimension else ()
        for n in ('T', 'Q'):
            if r[n].dims != lead_dims + ('lev', 'lat', 'lon'):
                raise AssertionError('dimensions of a field in the output')
        if r['T'].attrs != {'units': 'K', 'note': 'first'} or r['Q'].attrs or r.attrs != {'source': 'model', 'run': 3}:
            raise AssertionError('attributes in the output')
        if any(list(r[c].values) != list(coords[c]) for c in ('lat', 'lon')):
            raise AssertionError('coordinates in the output')
        if dimension and dates['valid_time'].values.tolist() != np.array([valid]).tolist():
            raise AssertionError('valid time in the output')
        if named and dates['forecast_reference_time'].values.tolist() != np.array([init]).tolist():
            raise AssertionError('reference time in the output')
        pick = (lambda n: r[n].values[0]) if dimension else (lambda n: r[n].values)
        return [pick('T'), pick('Q'), r['lev'].values]

    def spec(self, f, z, levels, pos, ul, uz, *rest):
        one, lev = Interp.spec(self, f, z, levels, pos, ul, uz)
        two = nest(shape_of(one), lambda i: 2 * at(one, i))
        return [one, two, lev]

    def pre(self, f, z, levels, pos, *rest):
        return Interp.pre(self, f, z, levels, pos, *rest[:2])


class Pressures(Heights):
    """args: as Heights, levels asked for, whether the surface geopotential is taken as zero"""
    functions = [VERT + ':read_required_fields', VERT + ':__main__']
    fn = '__main__'
    name = 'command, heights from pressure'
    quick_cases, thorough_cases = 15, 200
    bound = 'columns of up to six levels, all above the surface, 2 x 2 points'

    def gen(self, rng):
        return Heights.gen(self, rng) + (xs(rng.randint(1, 3)), rng.random() < 0.5)

    def cases(self, rng, n):
        for c in Heights.cases(self, rng, n):
            a = c['args']['__tuple__']
            base = max(a[0]['__arr__']) + 1
            a[1]['__arr__'] = (base + np.abs(np.array(a[1]['__arr__']) - 780)).tolist()
            a[8] = [rng.uniform(-100, 12000) for _ in a[8]]
            yield c

    def call(self, mod, args):
        import xarray as xr
        import yaml
        p, ps, t, rh, phi, pos, us, ul, levels, zero = args
        order = ['lat', 'lon']
        order.insert(pos, 'lev')
        full, flat = ('lev', 'lat', 'lon'), ('lat', 'lon')
        ds = xr.Dataset({'T': (full, t, {'units': 'K'}), 'RH': (full, rh, {'units': 'percent'}), 'PS': (flat, ps * 100 / self.PRESSURES[us], {'units': us}),
                         'HGT': (flat, phi, {'units': 'm**2/s**2'})},
                        coords={'lev': p * 100 / self.PRESSURES[ul], 'lat': np.arange(ps.shape[0]), 'lon': np.arange(ps.shape[1])}).transpose(*order)
        if zero:
            ds = ds.rename(HGT='other')
        ds['lev'].attrs['units'] = ul
        conf = {'vertical_dim_name': 'lev', 'vertical_levels': [float(x) for x in levels], 'vertical_level_units': 'meter', 'height_from_pressure': True,
                'vertical_coord_type_in': 'pressure', 'vertical_coord_type_out': 'height', 'zero_surface_geopotential': bool(zero),
                'surface_geopotential_name': 'HGT', 'surface_pressure_name': 'PS', 'temperature_name': 'T', 'relative_humidity_name': 'RH', 'fields': ['RH']}
        d = tempfile.mkdtemp(prefix='verif-vert-')
        try:
            ds.to_netcdf(os.path.join(d, 'in.nc'))
            with open(os.path.join(d, 'conf.yaml'), 'w') as h:
                yaml.safe_dump(conf, h)
            run_command('metcalcpy/vertical_interp.py',
                        ['--datadir', d, '--input', 'in.nc', '--config', os.path.join(d, 'conf.yaml'), '--output', 'out.nc'])
            with xr.open_dataset(os.path.join(d, 'out.nc')) as h:
                r = h.load()
        finally:
            shutil.rmtree(d)
        if list(r['RH'].dims) != order:
            raise AssertionError('dimensions of the result')
        return [r['RH'].transpose(*full).values, r['lev'].values]

    def spec(self, p, ps, t, rh, phi, pos, us, ul, levels, zero):
        z = Heights.spec(self, p, ps, t, rh, nest(shape_of(ps), lambda i: 0.0) if zero else phi, pos, us, ul)
        return Interp('one column').spec(rh, z, levels, 0, 'meter', 'meter')


def contracts(prop):
    return [Interp('one column'), Interp('several columns'), Interp('units'), Heights(), Command('heights given'), Pressures()]


def preload(prop):
    C.loader().load(VERT)
    C.real(VERT)


def info(prop):
    return {'level': 'proof', 'bound': 'columns of at most four levels, at most three columns and two requested levels when proved; at most six levels, nine columns and four '
                                       'requested levels at run time; heights of pressure levels and the command at run time only',
            'assumptions': ['xarray and pint are executed, not modelled, on arrays whose elements are symbolic numbers',
                            'level heights strictly increasing along the vertical dimension; floating point fields; units known to pint',
                            'the debug dump written at logging level DEBUG is not run']}
