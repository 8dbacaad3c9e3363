"""C10: every output row of the aggregation program is computed from exactly the rows of its combination."""
import itertools
import random
import re
from pydv import contract as C, prove as P, spec as S, values as V, frames
from pydv.values import STable, Root
from . import aggregate as A
from . import scores, modes
from .curves import SIGN

KEYS = A.KEYS + ['fcst_thresh', 'obtype', 'interp_pnts']
STATS = {}
for _s in scores.ALL:
    if _s.name.startswith('calculate_'):
        STATS[_s.name[len('calculate_'):].upper()] = _s
VAR = 'TMP'


def members(v):
    """The field values a configured value stands for."""
    if ':' in v:
        vals = re.findall(r'\d{4}-\d{2}-\d{2}\s\d{2}:\d{2}:\d{2}', v) or v.split(':')
    else:
        vals = v.split(';')
    out = []
    for x in vals:
        if re.fullmatch(r'[+-]?\d+', x):
            out.append(int(x))
        elif re.fullmatch(r'[+-]?\d*\.\d+|[+-]?\d+\.\d*', x):
            out.append(float(x))
        else:
            out.append(x)
    return out


def config(series, indy_var, indy_vals, stats, lt, series2=None, stats2=None, derived=None, derived2=None):
    return {'series': series, 'indy_var': indy_var, 'indy_vals': indy_vals, 'stats': stats, 'lt': lt, 'series2': series2 or {}, 'stats2': stats2 or [],
            'derived': derived or [], 'derived2': derived2 or []}


def to_params(c):
    p = A.params(c['lt'], c['stats'], series_val_1=c['series'], series_val_2=c['series2'], list_stat_1=c['stats'], list_stat_2=c['stats2'],
                    fcst_var_val_1={VAR: c['stats']}, fcst_var_val_2={VAR: c['stats2']} if c['series2'] else {}, indy_var=c['indy_var'], indy_vals=c['indy_vals'],
                    derived_series_1=c['derived'], derived_series_2=c['derived2'])
    return {k: v for k, v in p.items() if k not in c.get('without', ())}


def combinations(c, axis):
    """[(fields, texts, filters)] in the order of the output."""
    series, stats = (c['series'], c['stats']) if axis == 1 else (c['series2'], c['stats2'])
    fields = list(series) + ([c['indy_var']] if c['indy_vals'] else []) + ['stat_name']
    vals = list(series.values()) + ([c['indy_vals']] if c['indy_vals'] else []) + [stats]
    for p in itertools.product(*vals):
        yield fields, list(p), [(f, members(v)) for f, v in zip(fields, p)] + [('fcst_var', [VAR])]


def names_in(c):
    f = list(c['series']) + ([c['indy_var']] if c['indy_vals'] else []) + ['stat_name']
    for n in c['series2']:
        if n not in f:
            f.append(n)
    return f


def derived_rows(c, axis, values):
    """Rows of the derived curves: the operation on the values of the two named curves at the same independent value."""
    series, der = (c['series'], c['derived']) if axis == 1 else (c['series2'], c['derived2'])
    for d in der:
        a, b = d[0].split(' '), d[1].split(' ')
        var = [k for k, vs in series.items() if any(x != y and x in vs and y in vs for x, y in zip(a, b))]
        var = var[0] if var else list(series)[-1]
        name = '%s(%s%s%s)' % (d[2], d[0], SIGN[d[2]], d[1])
        stat = a[-1] if a[-1] == b[-1] else a[-1] + ',' + b[-1]
        for iv in c['indy_vals'] or [None]:
            texts = []
            for k in series:
                texts.append(name if k == var else [x for x in series[k] if x in a][0])
            ka = tuple(x for x in a if x != VAR)
            kb = tuple(x for x in b if x != VAR)
            va, vb = values.get((frozenset(ka), iv)), values.get((frozenset(kb), iv))
            yield texts + ([iv] if iv is not None else []) + [stat], va, vb, d[2]


class Points(C.Contract):
    prop = 'C10'
    quick_cases, thorough_cases = 10, 60
    budget = 60
    functions = ['metcalcpy.agg_stat:AggStat.calculate_stats_and_ci', 'metcalcpy.agg_stat:AggStat._proceed_with_axis', 'metcalcpy.agg_stat:AggStat._init_out_frame',
                 'metcalcpy.agg_stat:AggStat._get_bootstrapped_stats', 'metcalcpy.agg_stat:AggStat._calc_stats', 'metcalcpy.util.utils:sort_data']

    def __init__(self, name, conf):
        self.name, self.conf = 'rows.' + name, conf
        if conf['derived'] or conf['derived2']:
            self.functions = self.functions + ['metcalcpy.agg_stat:AggStat._get_derived_points', 'metcalcpy.agg_stat:AggStat._get_bootstrapped_stats_for_derived']
            self.assumptions = ['a derived curve is asked for only where each component has one row per valid time and lead']

    def root(self):
        lt = self.conf['lt']
        return Root('d', columns=frozenset(A.LINE[lt] + KEYS), nonneg=lambda c: c in A.COUNTS)

    def prove(self):
        frames.install()
        mod = C.loader().load('metcalcpy.agg_stat')
        c = self.conf

        class Agg(mod.AggStat):
            def _validate_series_cases_for_derived_operation(self, *a, **k):
                pass

        def run(w):
            w.inputs['in.data'] = lambda: frames.SFrame(STable(self.root(), complete=True))
            Agg(A.copy_params(to_params(c))).calculate_stats_and_ci()
            if len(w.outputs) != 1:
                return 'frames written: %d' % len(w.outputs)
            f = w.outputs[0][1]
            if not len(f):
                return []
            cols = names_in(c) + ['fcst_var', 'stat_value', 'nstats']
            return [[clean(f[n].iloc[i]) if n in f.columns else None for n in cols] for i in range(len(f))]

        def spec(w):
            t = STable(self.root(), complete=True)
            if t.nrows() == 0:
                return []

            def rows(flt):
                s = t.filtered(V.RowMask(t, [atom(f, m) for f, m in flt]))
                n = s.nrows()
                return (None, 0) if n == 0 else (S.evaluate(lambda: A.value(STATS[self.stat], A.SymRows(s), c['lt'])), n)
            return self.table(rows)
        return P.check_contract(self.name, run, spec, modes=('default',), budget=self.budget, max_paths=6000)

    def table(self, rows):
        c, out = self.conf, []
        names = names_in(c)
        for axis in (1, 2):
            if axis == 2 and not c['series2']:
                continue
            values = {}
            for fields, texts, flt in combinations(c, axis):
                self.stat = texts[fields.index('stat_name')]
                v, n = rows(flt)
                d = dict(zip(fields, texts))
                iv = d[c['indy_var']] if c['indy_vals'] else None
                values[frozenset(d[f] for f in fields if not (c['indy_vals'] and f == c['indy_var'])), iv] = v if n is not None and not isinstance(n, int) or n else None
                out.append([d.get(f) for f in names] + [VAR, v, n])
            for texts, va, vb, op in derived_rows(c, axis, values):
                d = dict(zip(fields, texts))
                out.append([d.get(f) for f in names] + [VAR, derive(va, vb, op), 0])
        return out

    def cases(self, rng, n):
        for i in range(n):
            yield {'config': self.conf, 'rows': self.data(rng)}

    def data(self, rng):
        c = self.conf
        pools = {'model': ['A', 'B', 'C'], 'fcst_var': [VAR, VAR, VAR, 'RH'], 'fcst_lead': [120000, 240000, 360000], 'vx_mask': ['E', 'W', 'NE'],
                 'fcst_thresh': ['>0', '>=5', '<1'], 'obtype': ['X', 'Y'], 'interp_pnts': [1, 9, 25],
                 'fcst_valid_beg': ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-02 12:00:00']}
        pools['stat_name'] = sorted(set(c['stats'] + c['stats2'])) + ['OTHER']
        for ser in (c['series'], c['series2'], {c['indy_var']: c['indy_vals']}):
            for f, vs in ser.items():
                m = [x for v in vs for x in members(v)]
                if m and f != 'fcst_valid_beg' and all(isinstance(x, type(m[0])) for x in m):
                    pools[f] = sorted(set(m)) + ([m[0] + 1] if not isinstance(m[0], str) else ['ZZ', m[0] + '0'])
        keys = lambda g: {f: g.choice(pools[f]) for f in KEYS}
        rows = A.rows_of(rng, c['lt'], rng.choice([1, 6, 20, 40]), keys)
        if c['derived'] or c['derived2']:
            seen, out = set(), []
            for r in rows:
                k = tuple(str(r[f]) for f in sorted(set(list(c['series']) + list(c['series2']) + ['fcst_valid_beg', 'fcst_lead', 'stat_name', 'fcst_var'])))
                if k not in seen:
                    seen.add(k)
                    out.append(r)
            rows = out
        return rows

    def concretise(self, env, benv, extra):
        return self.cases(random.Random(5), 15)

    def judge(self, case):
        conf, data = case['config'], case['rows']
        keep, self.conf = self.conf, conf
        try:
            border = [False]

            def rows(flt):
                sel = [r for r in data if all(r[f] in m for f, m in flt)]
                if not sel:
                    return None, 0
                if sum(r['total'] for r in sel) == 0 and conf['lt'] in ('vcnt',):
                    raise C.SkipCase('no pairs')
                try:
                    v, b = S.conc(lambda: A.value(STATS[self.stat], A.ConcRows(sel), conf['lt']))
                except S.Skip:
                    raise C.SkipCase('outside the precondition')
                border[0] = border[0] or b
                return v, len(sel)
            want = self.table(rows)
        finally:
            self.conf = keep
        if border[0]:
            raise C.SkipCase('too close to call')
        try:
            head, out = A.run_file(C.real('metcalcpy.agg_stat').AggStat, to_params(conf), KEYS + A.LINE[conf['lt']], data)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if len(out) != len(want):
            return '%d output rows instead of %d' % (len(out), len(want))
        names = names_in(conf)
        for i, (o, w) in enumerate(zip(out, want)):
            got = [o.get(f) for f in names]
            texts = [str(x) if x is not None else 'NA' for x in w[:len(names)]]
            if got != texts:
                return 'row %d is %s instead of %s' % (i, got, texts)
            if o.get('nstats') != str(int(w[-1])):
                return 'row %s reports %s rows instead of %d' % (texts, o.get('nstats'), w[-1])
            bad = A.same_number(o['stat_value'], w[-2])
            if bad:
                return 'row %s: %s' % (texts, bad)


def derive(a, b, op):
    if a is None or b is None:
        return None
    if op == 'SINGLE':
        return S.rnd(a, 5)
    if op == 'DIFF':
        return S.rnd(a - b, 5)
    if bool((b if op == 'RATIO' else a) == 0):
        return None
    return S.rnd(a / b if op == 'RATIO' else (a - b) / a, 5)


def atom(f, m):
    m = tuple(sorted({frames.plain(x) for x in m}, key=repr))
    return ('eq', f, m[0]) if len(m) == 1 else ('in', f, m)


def clean(x):
    return None if isinstance(x, float) and x != x else x


class AnyConfig(Points):
    """Generated configurations."""
    proof = False
    quick_cases, thorough_cases = 60, 600
    bound = 'generated configurations of at most three series variables, both axes, derived curves, up to 40 rows'

    def __init__(self):
        self.name = 'rows.generated configurations'
        self.conf = CONFIGS['plain']

    def cases(self, rng, n):
        for i in range(n):
            self.conf = generated(rng)
            yield {'config': self.conf, 'rows': self.data(rng)}


def generated(rng):
    lt = rng.choice(['sl1l2', 'ctc', 'vl1l2', 'grad', 'ecnt', 'nbr_ctc', 'sal1l2'])
    known = [g.stat for g in A.contracts('C07') if isinstance(g, A.Group) and g.lt == lt]
    pool = {'model': ['A', 'B', 'C', 'A:B', 'A:B:C'], 'vx_mask': ['E', 'W', 'NE', 'E:W', 'W:NE'], 'fcst_thresh': ['>0', '>=5', '>0:>=5'], 'obtype': ['X', 'Y', 'X:Y'],
            'interp_pnts': ['1', '9', '25', '1:9']}

    def series():
        out = {}
        for v in rng.sample(sorted(pool), rng.choice([1, 1, 2, 3])):
            out[v] = rng.sample(pool[v], rng.choice([1, 2, 2, 3]) if len(pool[v]) > 2 else 1)
        return out
    iv = rng.choice(['fcst_lead', 'fcst_lead', 'fcst_valid_beg', 'none'])
    vals = {'fcst_lead': ['120000', '240000', '360000', '120000:240000'], 'fcst_valid_beg': ['2020-01-01 00:00:00', '2020-01-02 00:00:00',
            '2020-01-01 00:00:00:2020-01-02 12:00:00'], 'none': []}[iv]
    stats = rng.sample(known, rng.choice([1, 1, 2]))
    c = config(series(), 'fcst_lead' if iv == 'none' else iv, rng.sample(vals, min(len(vals), rng.choice([1, 2, 3]))), stats, lt)
    if rng.random() < 0.3:
        c['series2'] = series()
        c['stats2'] = rng.sample(known, 1)
    elif rng.random() < 0.4:
        c['series'] = {'model': ['A', 'B']}
        if rng.random() < 0.5:
            c['series']['vx_mask'] = rng.choice([['E'], ['E', 'W']])
        c['indy_vals'] = [v for v in c['indy_vals'] if len(members(v)) == 1]
        tail = ' E' if 'vx_mask' in c['series'] else ''
        b = rng.choice(['B', 'B', 'A'] if len(stats) > 1 else ['B'])
        c['derived'] = [['A%s %s %s' % (tail, VAR, stats[0]), '%s%s %s %s' % (b, tail, VAR, stats[-1]), rng.choice(['DIFF', 'RATIO', 'SS', 'SINGLE'])]]
    if rng.random() < 0.2:
        c['without'] = ['method', 'alpha']          # needed for intervals only
    return c


CONFIGS = {
    'plain': config({'model': ['A', 'B']}, 'fcst_lead', ['120000', '240000'], ['FBAR'], 'sl1l2'),
    'no independent values': config({'model': ['A', 'B', 'C']}, 'fcst_lead', [], ['OBAR'], 'sl1l2'),
    'grouped series value': config({'model': ['A:B', 'C']}, 'fcst_lead', ['120000'], ['FBAR'], 'sl1l2'),
    'grouped independent value': config({'model': ['A']}, 'fcst_lead', ['120000:240000', '360000'], ['FBAR'], 'sl1l2'),
    'dates': config({'model': ['A']}, 'fcst_valid_beg', ['2020-01-01 00:00:00', '2020-01-01 00:00:00:2020-01-02 00:00:00'], ['ME'], 'sl1l2'),
    'two series variables': config({'model': ['A', 'B'], 'vx_mask': ['E', 'W']}, 'fcst_lead', ['120000'], ['CTC_TOTAL'], 'ctc'),
    'three series variables': config({'model': ['A', 'B'], 'vx_mask': ['E', 'W:NE'], 'fcst_thresh': ['>0']}, 'fcst_lead', ['120000'], ['CTC_TOTAL'], 'ctc'),
    'numeric series values': config({'interp_pnts': ['1', '9:25'], 'model': ['A']}, 'fcst_lead', ['120000'], ['CTC_TOTAL'], 'ctc'),
    'fractional series values': config({'fcst_thresh': ['0.5', '1.5:2.5']}, 'fcst_lead', ['120000'], ['CTC_TOTAL'], 'ctc'),
    'two statistics': config({'model': ['A', 'B']}, 'fcst_lead', ['120000'], ['FBAR', 'OBAR'], 'sl1l2'),
    'both axes': config({'model': ['A', 'B']}, 'fcst_lead', ['120000'], ['FBAR'], 'sl1l2', {'model': ['B'], 'vx_mask': ['E']}, ['OBAR']),
    'difference curve': config({'model': ['A', 'B']}, 'fcst_lead', ['120000'], ['FBAR'], 'sl1l2', derived=[['A TMP FBAR', 'B TMP FBAR', 'DIFF']]),
    'ratio curve': config({'model': ['A', 'B']}, 'fcst_lead', ['120000'], ['FBAR'], 'sl1l2', derived=[['A TMP FBAR', 'B TMP FBAR', 'RATIO']]),
    'derived of two variables': config({'model': ['A', 'B'], 'vx_mask': ['E']}, 'fcst_lead', ['120000', '240000'], ['SL1L2_TOTAL'], 'sl1l2',
                                       derived=[['A E TMP SL1L2_TOTAL', 'B E TMP SL1L2_TOTAL', 'SS']]),
    'many combinations': config({'model': ['A', 'B'], 'vx_mask': ['E', 'W']}, 'fcst_lead', ['120000', '240000'], ['SL1L2_TOTAL'], 'sl1l2'),
}


# ---- the object program -----------------------------------------------------------------------------
OBJECT_COLS = ['model', 'fcst_var', 'vx_mask', 'fcst_rad', 'fcst_lead', 'fcst_valid', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume']


def object_rows(rng, n):
    return [{'model': rng.choice('ABC'), 'fcst_var': rng.choice([VAR, VAR, VAR, 'RH']), 'vx_mask': rng.choice('EW'), 'fcst_rad': rng.choice([2, 5]),
             'fcst_lead': rng.choice([0, 120000]), 'fcst_valid': rng.choice(['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-02 12:00:00']),
             'object_type': rng.choice(['2d', '3d']), 'fcst_flag': rng.choice([0, 1]), 'simple_flag': rng.choice([0, 1]), 'matched_flag': rng.choice([0, 1]),
             'area': rng.randint(1, 64), 'volume': rng.randint(1, 64)} for _ in range(n)]


def object_params(series, indy, stats, series2=None, stats2=(), **k):
    p = {'agg_stat_input': 'in.data', 'agg_stat_output': 'out.data', 'indy_var': 'fcst_lead', 'indy_vals': list(indy), 'series_val_1': A.copy_params(series),
         'series_val_2': A.copy_params(series2 or {}), 'list_stat_1': list(stats), 'list_stat_2': list(stats2), 'fcst_var_val_1': {VAR: list(stats)},
         'fcst_var_val_2': {VAR: list(stats2)} if series2 else {}, 'num_iterations': 1, 'num_threads': 1, 'method': 'perc', 'alpha': 0.05, 'random_seed': None,
         'event_equal': 'False'}
    p.update(k)
    return p


class ObjectRows(C.Contract):
    prop = 'C10'
    proof = False
    name = 'rows.objects'
    functions = ['metcalcpy.agg_stat_bootstrap:AggStatBootstrap.calculate_values', 'metcalcpy.agg_stat_bootstrap:AggStatBootstrap._proceed_with_axis']
    quick_cases, thorough_cases = 40, 300
    bound = 'files of at most 60 objects, generated series, independent values and statistics'

    def cases(self, rng, n):
        every = sorted(fn[len('calculate_'):].upper() for _m, fn, _d, _s, _f in modes.functions())
        pool = {'model': ['A', 'B', 'A:B', 'B:C'], 'vx_mask': ['E', 'W', 'E:W'], 'fcst_rad': ['2', '5', '2:5']}
        for i in range(n):
            ser = lambda: {f: rng.sample(pool[f], rng.choice([1, 2])) for f in rng.sample(sorted(pool), rng.choice([1, 1, 2]))}
            two = rng.random() < 0.3
            defs = [s for s in every if s.startswith('3D') == (i % 2 == 0)]
            yield {'rows': object_rows(rng, rng.choice([1, 8, 30, 60])), 'series': ser(), 'series2': ser() if two else {}, 'indy': rng.choice([['0'], ['0', '120000'],
                   ['120000', '240000']]), 'stats': rng.sample(defs, rng.choice([1, 2, 3])), 'stats2': rng.sample(defs, 1) if two else []}

    def judge(self, case):
        import numpy as np
        # a file of three-dimensional objects has volumes, any other areas
        cols = [x for x in OBJECT_COLS if x != ('area' if case['stats'][0].startswith('3D') else 'volume')]
        c = config(case['series'], 'fcst_lead', case['indy'], case['stats'], None, case['series2'], case['stats2'])
        contract = {k.fn[len('calculate_'):].upper(): k for k in modes.contracts('C06')}
        want = []
        for axis in (1, 2):
            if axis == 2 and not case['series2']:
                continue
            for fields, texts, flt in combinations(c, axis):
                d = dict(zip(fields, texts))
                flt = [f for f in flt if f[0] != 'stat_name']
                sel = [r for r in case['rows'] if all(r[f] in m for f, m in flt)]
                arr = np.empty((len(sel), len(cols)), dtype=object)
                for i, r in enumerate(sel):
                    arr[i] = [r[x] for x in cols]
                v, border = S.conc(contract[d['stat_name']].spec, S.ConcTable(arr, cols))
                if border:
                    raise C.SkipCase('too close to call')
                want.append((d, v, len(sel)))
        try:
            head, out = A.run_file(C.real('metcalcpy.agg_stat_bootstrap').AggStatBootstrap, object_params(case['series'], case['indy'], case['stats'], case['series2'],
                                   case['stats2']), cols, case['rows'], call='calculate_values')
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if len(out) != len(want):
            return '%d output rows instead of %d' % (len(out), len(want))
        for i, (o, (d, v, n)) in enumerate(zip(out, want)):
            if any(o.get(f) != t for f, t in d.items()):
                return 'row %d is %s instead of %s' % (i, o, d)
            if o['fcst_var'] != VAR or o['nstats'] != str(n):
                return 'row %s reports %s rows of %s instead of %d' % (d, o['nstats'], o['fcst_var'], n)
            bad = A.same_number(o['stat_value'], v)
            if bad:
                return 'row %s: %s' % (d, bad)


def contracts(prop):
    from . import programs
    return [Points(n, c) for n, c in CONFIGS.items()] + [AnyConfig(), ObjectRows()] + programs.contracts()


def preload(prop):
    C.loader().load('metcalcpy.agg_stat')
    C.real('metcalcpy.agg_stat')
    C.real('metcalcpy.agg_stat_bootstrap')


def info(prop):
    return {'level': 'proof', 'bound': 'files of at most 40 rows', 'assumptions': [
        'a key column holds either numbers or texts that do not read as numbers',
        'the listed configurations are proved for any data; other configurations are run on generated files']}
