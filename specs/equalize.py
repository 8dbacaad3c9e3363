"""C11: event equalization keeps exactly the rows whose case occurs in every combination."""
import itertools
import math
import os
import random
import re
import shutil
import tempfile
from pydv import contract as C, prove as P, values as V, frames
from pydv.values import STable, Root
from pydv.world import cur
from . import aggregate as A
from .fields import as_command

TIME = ('fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD')
COLS = ['model', 'fcst_var', 'stat_name', 'fcst_lead', 'fcst_valid_beg', 'vx_mask', 'interp_pnts', 'fcst_thresh', 'level', 'n']
DATE = r'\d{4}-\d{2}-\d{2}\s\d{2}:\d{2}:\d{2}'


def members(v):
    """The texts a configured value stands for."""
    if not isinstance(v, str):
        return [v]
    return re.findall(DATE, v) or v.split(':')


def stored(x):
    """A configured value as the data holds it; 'NA' stands for a missing cell."""
    if isinstance(x, str):
        if x == 'NA':
            return None
        if re.fullmatch(r'[+-]?\d+', x):
            return int(x)
        if re.fullmatch(r'[+-]?(\d+\.\d*|\.\d+)', x):
            return float(x)
    return x


def combinations(series, fixed):
    """Every combination of series and fixed values, as {field: value}; time fields are part of the case."""
    names, vals = [], []
    for f, vs in list(series.items()):
        if f not in TIME:
            names.append(f)
            vals.append([stored(m) for v in ([vs] if isinstance(vs, str) else vs) for m in members(v)])
    for f, vs in fixed.items():
        if f not in TIME:
            vs = [stored(v) for v in ([vs] if isinstance(vs, str) else vs)]
            if f in names:
                vals[names.index(f)] = vs
            else:
                names.append(f)
                vals.append(vs)
    return [dict(zip(names, p)) for p in itertools.product(*vals)]


def text(x):
    return 'nan' if x is None else str(x)


def case_of(r, valid, indep):
    k = text(r[valid]) + ' ' + text(r['fcst_lead'])
    return k + ' ' + text(r[indep]) if indep else k


def match(r, comb):
    return all((r[f] is None) if v is None else r[f] == v for f, v in comb.items())


def common(rows, combs, key):
    """The cases occurring in every combination."""
    out = None
    for c in combs:
        s = {key(r) for r in rows if match(r, c)}
        out = s if out is None else out & s
    return out or set()


# ---- selections of symbolic frames ------------------------------------------------------------------
def atom(f, v):
    return ('null', f, True) if v is None else ('eq', f, frames.plain(v))


def norm(preds):
    """Selection predicates without those implied by others."""
    eq = {p[1]: p[2] for p in preds if p[0] == 'eq'}
    out = set()
    for p in preds:
        if p[0] == 'in' and p[1] in eq and eq[p[1]] in p[2]:
            continue
        if p[0] == 'has':
            p = ('has', p[1], (p[2][0], tuple(sorted(V.pred_key(q) for q in norm(unkey(p[2][1])))), p[2][2]))
        out.add(p)
    return frozenset(out)


_KEYS = {}


def unkey(keys):
    return [_KEYS[k] for k in keys]


def learn(preds):
    for p in preds:
        _KEYS[V.pred_key(p)] = p


def wanted(root, base, combs, parts):
    """Base selection, and for every combination: some row of it has the same case."""
    out = set(base)
    for c in combs:
        ps = norm(frozenset(base) | {atom(f, v) for f, v in c.items()})
        learn(ps)
        out.add(('has', parts, (root.name, tuple(sorted(V.pred_key(p) for p in ps)), parts)))
    return frozenset(out)


def key_parts(valid, indep):
    p = [('col', valid), ('lit', ' '), ('col', 'fcst_lead')]
    if indep:
        p += [('lit', ' '), ('col', indep)]
    return tuple(p)


def drop_series(preds, series):
    """Rows outside the configured series do not matter: predicates restricting to them are left out, at every level."""
    def keep(p):
        if p[0] in ('in', 'eq') and p[1] in series:
            v = set(p[2]) if p[0] == 'in' else {p[2]}
            full = {frames.plain(stored(m)) for x in series[p[1]] for m in members(x)}
            return not (full <= v)
        return True
    out = set()
    for p in preds:
        if p[0] == 'has':
            ks = [q for q in unkey(p[2][1])]
            eqs = {q[1] for q in ks if q[0] == 'eq'}
            p = ('has', p[1], (p[2][0], tuple(sorted(V.pred_key(q) for q in ks if not (q[0] == 'in' and not keep(q)))), p[2][2]))
            out.add(p)
        elif keep(p):
            out.add(p)
    return frozenset(out)


class Rows(frames.SFrame):
    pass


class Base(C.Contract):
    prop = 'C11'
    quick_cases, thorough_cases = 40, 400
    budget = 40

    def root(self):
        return Root('d', columns=frozenset(self.cols), nonneg=lambda c: False)

    def frame(self):
        t = STable(self.root(), complete=True, names=list(self.cols))
        return frames.SFrame(t)

    def same(self, got, want, parts, extra=True, series=None):
        """The resulting selection is the wanted one and no cell was changed."""
        if not isinstance(got, frames.SFrame):
            cur().flag('result is not a selection of the input')
        g, w = norm(got.tab.filters), norm(want)
        if series is not None:
            g, w = drop_series(g, series), drop_series(w, series)
        if g != w:
            cur().flag('selection is not syntactically the specified one')
        if any(v is not None for v in got.tab.over.values()) or set(got.text) - {'equalize'}:
            cur().flag('a column was replaced')
        missing = [c for c in self.cols if not got.has(c)]
        return 'rows' if not missing else 'columns lost: %s' % missing


def learn_all(tab):
    """Remember the predicates behind the keys of nested selections."""
    for p in tab.filters:
        learn([p])


class Hook:
    """Every predicate built while a path runs is remembered, so that nested selections can be compared."""
    installed = False

    @classmethod
    def install(cls):
        if cls.installed:
            return
        cls.installed = True
        init = V.RowMask.__init__

        def f(self, tab, preds):
            init(self, tab, preds)
            learn(self.preds)
        V.RowMask.__init__ = f


class Equalize(Base):
    cols = COLS
    functions = ['metcalcpy.event_equalize:event_equalize', 'metcalcpy.event_equalize:is_string_integer']

    def __init__(self, name, series, fixed, indy, by, valid='fcst_valid_beg'):
        self.name = 'event_equalize.' + name
        self.conf = {'series': series, 'fixed': fixed, 'indy': indy, 'by': by, 'valid': valid}
        self.cols = [valid if c == 'fcst_valid_beg' else c for c in COLS]

    def prove(self):
        Hook.install()
        mod = C.loader().load('metcalcpy.event_equalize')
        c = self.conf
        indep = c['indy'] if c['by'] and c['indy'] not in TIME else None
        parts = key_parts(c['valid'], indep)
        want = wanted(self.root(), (), combinations(c['series'], c['fixed']), parts)

        def run(w):
            f = self.frame()
            r = mod.event_equalize(f, c['indy'], copy(c['series']), list(c['fixed']), copy(list(c['fixed'].values())), c['by'], False)
            return self.same(r, want, parts)
        return P.check_contract(self.name, run, lambda w: 'rows', modes=('default',), budget=self.budget, max_paths=2000)

    def concretise(self, env, benv, extra):
        return self.cases(random.Random(5), 20)

    def cases(self, rng, n):
        for i in range(n):
            yield {'conf': self.conf, 'rows': data(rng, self.conf, self.cols), 'multi': rng.random() < 0.5}

    def judge(self, case):
        return judge_equalize(case)


def copy(x):
    import copy as c
    return c.deepcopy(x)


def pools(conf):
    p = {'model': ['A', 'B', 'C'], 'fcst_var': ['TMP', 'RH'], 'stat_name': ['ME', 'RMSE'], 'fcst_lead': [0, 120000], 'vx_mask': ['E', 'W'],
         'interp_pnts': [1, 9], 'fcst_thresh': ['>0', '>=5'], 'level': ['P100', 'P500'], 'n': [1.5, 2.5],
         'fcst_valid_beg': ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-02 12:00:00'], 'fcst_valid': ['2020-01-01 00:00:00', '2020-01-03 00:00:00'],
         'equalize': ['x']}
    for c in combinations(conf['series'], conf['fixed']):
        for f, v in c.items():
            if v not in p[f]:
                if all(isinstance(x, str) for x in p[f]) != isinstance(v, str) and v is not None:
                    p[f] = []
                p[f] = p[f] + [v]
    return p


def data(rng, conf, cols):
    """Rows that share most cases, with some absent here and there; a number identifies the row."""
    p = pools(conf)
    valid = conf.get('valid', 'fcst_valid_beg')
    rows = []
    drop = rng.choice([0.0, 0.05, 0.2, 0.5])
    keys = [c for c in cols if c in conf['series'] or c in conf['fixed'] or c in (valid, 'fcst_lead') or c == conf['indy']]
    if conf.get('all_stats'):
        keys += [c for c in ('fcst_var', 'stat_name') if c not in keys]
    while math.prod(len(p[k]) for k in keys) > 150:
        k = rng.choice([k for k in keys if len(p[k]) > 1])
        p[k] = rng.sample(p[k], len(p[k]) - 1)
    for vals in itertools.product(*[p[k] for k in keys]):
        if rng.random() < drop:
            continue
        r = dict(zip(keys, vals))
        for c in cols:
            if c not in r:
                r[c] = rng.choice(p[c]) if rng.random() < 0.9 else p[c][0]
        rows.append(r)
        if rng.random() < 0.05:
            rows.append(dict(r))
    if rng.random() < 0.4:
        rng.shuffle(rows)
    rows = rows[:rng.choice([1, 5, 200, 200, 200])]
    for i, r in enumerate(rows):
        r['n'] = i + 0.5
    return rows


def to_frame(rows, cols):
    import numpy as np
    import pandas as pd
    d = {}
    for c in cols:
        v = [r[c] for r in rows]
        if any(x is None for x in v):
            v = [np.nan if x is None else x for x in v]
        d[c] = v
    return pd.DataFrame(d, columns=cols)


def numbers(x):
    return [v.item() if hasattr(v, 'item') else v for v in x]


def key_texts(rows, cols, valid, indep):
    """The case of every row, with numbers written as the column holds them (a column with missing cells holds fractions)."""
    fr = [c for c in cols if any(r[c] is None for r in rows) and any(isinstance(r[c], (int, float)) for r in rows)]
    out = []
    for r in rows:
        q = {c: float(r[c]) if c in fr and r[c] is not None else r[c] for c in (valid, 'fcst_lead') + ((indep,) if indep else ())}
        out.append(case_of(q, valid, indep))
    return out


def judge_equalize(case):
    c, rows = case['conf'], case['rows']
    cols = list(rows[0]) if rows else COLS
    indep = c['indy'] if c['by'] and c['indy'] not in TIME else None
    keys = key_texts(rows, cols, c['valid'], indep)
    for r, k in zip(rows, keys):
        r['__case__'] = k
    ok = common(rows, combinations(c['series'], c['fixed']), lambda r: r['__case__'])
    want = [r['n'] for r in rows if r['__case__'] in ok]
    for r in rows:
        del r['__case__']
    df = to_frame(rows, cols)
    before = df.copy()
    with C.entry_filter('default'):
        try:
            got = C.real('metcalcpy.event_equalize').event_equalize(df, c['indy'], copy(c['series']), list(c['fixed']), copy(list(c['fixed'].values())),
                                                                    c['by'], case['multi'])
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return compare(got, before, want, cols)


def compare(got, before, want, cols):
    if not len(got):
        return None if not want else 'no rows instead of %d' % len(want)
    have = numbers(got['n'])
    if have != want:
        a, b = set(have), set(want)
        return 'rows numbered %s instead of %s' % (sorted(a - b)[:5] or have[:8], sorted(b - a)[:5] or want[:8])
    left = before[before['n'].isin(want)]
    for c in cols:
        if c not in got.columns:
            return 'column %s lost' % c
        if not left[c].reset_index(drop=True).equals(got[c].reset_index(drop=True)):
            return 'column %s changed' % c
    return None


SER = {'model': ['A', 'B']}
CONFIGS = [
    ('two models', SER, {}, 'fcst_lead', True),
    ('three models', {'model': ['A', 'B', 'C']}, {}, 'fcst_lead', True),
    ('one model', {'model': ['A']}, {}, 'fcst_lead', True),
    ('by a field', SER, {}, 'fcst_thresh', True),
    ('not by the field', SER, {}, 'fcst_thresh', False),
    ('group', {'model': ['A:B', 'C']}, {}, 'fcst_lead', True),
    ('two variables', {'model': ['A', 'B'], 'vx_mask': ['E', 'W']}, {}, 'fcst_lead', True),
    ('numbers', {'model': ['A', 'B'], 'interp_pnts': ['1', '9']}, {}, 'fcst_lead', True),
    ('fractions', {'fcst_thresh': ['0.5', '2.5']}, {}, 'fcst_lead', True),
    ('fixed', SER, {'level': ['P100']}, 'fcst_lead', True),
    ('fixed values', SER, {'level': ['P100', 'P500'], 'interp_pnts': ['1']}, 'fcst_lead', True),
    ('fixed text', SER, {'level': 'P100'}, 'fcst_lead', True),
    ('fixed missing', SER, {'level': ['NA']}, 'fcst_lead', True),
    ('fixed number', SER, {'interp_pnts': [9]}, 'fcst_lead', True),
    ('dates as series', {'model': ['A', 'B'], 'fcst_valid_beg': ['2020-01-01 00:00:00:2020-01-02 00:00:00']}, {}, 'fcst_lead', True),
    ('fixed time', SER, {'fcst_init_beg': ['2020-01-01 00:00:00']}, 'fcst_lead', True),
    ('no series', {}, {'level': ['P100']}, 'fcst_lead', True),
    ('nothing', {}, {}, 'fcst_thresh', True),
    ('valid column', SER, {}, 'fcst_lead', True, 'fcst_valid'),
]


class AnyEqualize(Base):
    """Generated configurations."""
    proof = False
    name = 'event_equalize.generated configurations'
    functions = Equalize.functions
    quick_cases, thorough_cases = 120, 1500
    bound = 'generated configurations and tables of at most 200 rows'

    def cases(self, rng, n):
        for i in range(n):
            c = generated(rng)
            cols = [c['valid'] if x == 'fcst_valid_beg' else x for x in COLS]
            yield {'conf': c, 'rows': data(rng, c, cols), 'multi': rng.random() < 0.5}

    def judge(self, case):
        return judge_equalize(case) if case['rows'] else None


VALUES = {'model': ['A', 'B', 'C', 'A:B', 'B:C'], 'vx_mask': ['E', 'W', 'E:W'], 'interp_pnts': ['1', '9', '25', '1:9'], 'fcst_thresh': ['>0', '>=5', '>0:>=5'],
          'level': ['P100', 'P500', 'NA']}


def generated(rng):
    fs = rng.sample(sorted(VALUES), rng.choice([1, 2, 2, 3]))
    k = rng.choice([1, 1, 2]) if len(fs) > 1 else 1
    series = {f: rng.sample([v for v in VALUES[f] if v != 'NA'], rng.choice([1, 2, 2])) for f in fs[:k]}
    fixed = {f: rng.sample([v for v in VALUES[f] if ':' not in v], rng.choice([1, 1, 2])) for f in fs[k:]}
    return {'series': series, 'fixed': fixed, 'indy': rng.choice(['fcst_lead', 'fcst_lead', 'fcst_valid_beg', 'fcst_thresh', 'interp_pnts']),
            'by': rng.random() < 0.8, 'valid': rng.choice(['fcst_valid_beg', 'fcst_valid_beg', 'fcst_valid'])}


# ---- against a list of cases ------------------------------------------------------------------------
class Listed(frames.Sym):
    """Any list of cases."""


class Against(Base):
    name = 'event_equalize_against_values'
    functions = ['metcalcpy.event_equalize_against_values:event_equalize_against_values']
    cols = ['fcst_valid' if c == 'fcst_valid_beg' else c for c in COLS]

    def prove(self):
        Hook.install()
        mod = C.loader().load('metcalcpy.event_equalize_against_values')
        parts = key_parts('fcst_valid', None)
        any_list = frames.KeySet([('any list', (), parts)])
        want = frozenset([('has', parts, ('any list', (), parts))])

        def run(w):
            f = self.frame()
            f.arg = True
            r = mod.event_equalize_against_values(f, any_list)
            if hasattr(r, 'columns') and not isinstance(r, frames.Sym):
                return 'none' if not len(r) else 'a frame of its own'
            return self.same(r, want, parts)

        def spec(w):
            t = STable(self.root(), want, complete=True)
            return 'none' if t.nrows() == 0 else 'rows'
        return P.check_contract(self.name, run, spec, modes=('default',), budget=self.budget)

    def concretise(self, env, benv, extra):
        return self.cases(random.Random(5), 20)

    def cases(self, rng, n):
        conf = {'series': SER, 'fixed': {}, 'indy': 'fcst_lead', 'valid': 'fcst_valid'}
        for i in range(n):
            rows = data(rng, conf, self.cols)
            ks = sorted({case_of(r, 'fcst_valid', None) for r in rows})
            pick = [k for k in ks if rng.random() < rng.choice([0.0, 0.3, 0.8, 1.0])] + rng.choice([[], ['2020-01-01 00:00:00'], ['other 5']])
            yield {'rows': rows, 'list': pick}

    def judge(self, case):
        rows = case['rows']
        if not rows:
            return None
        cols = list(rows[0])
        want = [r['n'] for r in rows if case_of(r, 'fcst_valid', None) in case['list']]
        df = to_frame(rows, cols)
        before = df.copy()
        with C.entry_filter('default'):
            import numpy as np
            f = C.real('metcalcpy.event_equalize_against_values').event_equalize_against_values
            for form in (list, np.array, set):
                if form is set and not case['list']:
                    continue
                try:
                    got = f(df, form(case['list']))
                except Exception as e:
                    return 'raises %s: %s' % (type(e).__name__, e)
                bad = compare(got, before, want, cols)
                if bad:
                    return bad
                if len(got) and list(got.columns) != cols:
                    return 'columns %s' % list(got.columns)
                if list(df.columns) != cols:
                    return 'the given frame was changed'


# ---- through the aggregation parameters -------------------------------------------------------------
def axis_rows(rows, var, stat, series):
    return [r for r in rows if r['fcst_var'] == var and r['stat_name'] == stat]


def listed(r, series):
    return all(any(r[f] == stored(m) or r[f] == m for v in vs for m in members(v)) for f, vs in series.items())


def equalized(rows, series, fixed, indep, keys):
    ok = common(rows, combinations(series, fixed), lambda r: keys[r['n']])
    return [r for r in rows if keys[r['n']] in ok]


class Program(Base):
    """perform_event_equalization for one axis: any data, listed parameters."""
    functions = ['metcalcpy.util.utils:perform_event_equalization', 'metcalcpy.util.utils:equalize_axis_data', 'metcalcpy.event_equalize:event_equalize']
    cols = COLS

    def __init__(self, name, conf):
        self.name, self.conf = 'perform_event_equalization.' + name, conf
        self.proof = not conf['series2'] and len(conf['stats']) == 1
        if not self.proof:
            self.bound = 'generated tables of at most 200 rows'

    def params(self, c):
        p = {'indy_var': c['indy'], 'line_type': c['lt'], 'series_val_1': copy(c['series']), 'series_val_2': copy(c['series2']),
             'fcst_var_val_1': {'TMP': list(c['stats'])}, 'fcst_var_val_2': {'RH': list(c['stats2'])} if c['series2'] else {}}
        if c['fixed'] is not None:
            p['fixed_vars_vals_input'] = {f: ({f + '_%d' % i: list(vs)} if i % 2 == 0 else list(vs)) for i, (f, vs) in enumerate(c['fixed'].items())}
        return p

    def prove(self):
        Hook.install()
        frames.install()
        mod = C.loader().load('metcalcpy.util.utils')
        c = self.conf
        indep = c['indy'] if c['indy'] not in TIME else None
        parts = key_parts('fcst_valid_beg', indep)
        base = [('eq', 'fcst_var', 'TMP'), ('eq', 'stat_name', c['stats'][0])]
        learn(base)
        want = wanted(self.root(), base, combinations(c['series'], c['fixed'] or {}), parts)

        def run(w):
            r = mod.perform_event_equalization(self.params(c), self.frame())
            if isinstance(r, frames.SFrame) and r.has('equalize'):
                return 'helper column left'
            return self.same(r, want, parts, series=c['series'])
        return P.check_contract(self.name, run, lambda w: 'rows', modes=('default',), budget=self.budget)

    def concretise(self, env, benv, extra):
        return self.cases(random.Random(5), 20)

    def cases(self, rng, n):
        for i in range(n):
            c = self.conf
            d = dict(c, fixed=c['fixed'] or {}, all_stats=True)
            if c['series2']:
                d['series'] = {f: list(c['series'].get(f, [])) + list(c['series2'].get(f, [])) for f in list(c['series']) + [f for f in c['series2'] if f not in c['series']]}
            yield {'conf': c, 'rows': data(rng, d, COLS)}

    def judge(self, case):
        c, rows = case['conf'], case['rows']
        if not rows:
            return None
        want = program(c, rows)
        df = to_frame(rows, COLS)
        before = df.copy()
        with C.entry_filter('default'):
            try:
                got = C.real('metcalcpy.util.utils').perform_event_equalization(self.params(c), df)
            except Exception as e:
                return 'raises %s: %s' % (type(e).__name__, e)
            return judged(got, before, rows, want, c)


def program(c, rows):
    """Numbers of the wanted rows of the listed series, per (variable, statistic, axis)."""
    indep = c['indy'] if c['indy'] not in TIME else None
    keys = dict(zip([r['n'] for r in rows], key_texts(rows, COLS, 'fcst_valid_beg', indep)))
    fixed = c['fixed'] or {}
    out = []
    for axis, series, var, stats in ((1, c['series'], 'TMP', c['stats']), (2, c['series2'], 'RH', c['stats2'])):
        if axis == 2 and not series:
            continue
        for s in stats:
            out.append((axis, equalized(axis_rows(rows, var, s, series), series, fixed, indep, keys)))
    sel = [(a, [r for r in g if listed(r, c['series'] if a == 1 else c['series2'])]) for a, g in out]
    if c['series2']:
        everything = [r for a, g in sel for r in g]
        for series in (c['series'], c['series2']):
            ok = common(everything, combinations(series, fixed), lambda r: keys[r['n']])
            everything = [r for r in everything if keys[r['n']] in ok]
        left = {r['n'] for r in everything}
        sel = [(a, [r for r in g if r['n'] in left]) for a, g in sel]
    return [r['n'] for a, g in sel for r in g]


def judged(got, before, rows, want, c):
    import collections
    if not len(got):
        return None if not want else 'no rows instead of %d' % len(want)
    have = numbers(got['n'])
    dup = [x for x, k in collections.Counter(have).items() if k > 1]
    if dup:
        return 'row %s given %d times' % (dup[0], have.count(dup[0]))
    by = {r['n']: r for r in rows}
    if any(x not in by for x in have):
        return 'invented rows'
    sel = [x for x in have if listed(by[x], c['series']) and by[x]['fcst_var'] == 'TMP' or c['series2'] and listed(by[x], c['series2']) and by[x]['fcst_var'] == 'RH']
    if sorted(sel) != sorted(want):
        a, b = set(sel), set(want)
        return 'rows numbered %s should not be there, %s are missing' % (sorted(a - b)[:5], sorted(b - a)[:5])
    if sel != want:
        return 'order of the rows changed'
    left = before.set_index('n')
    g = got.set_index('n')
    for col in COLS:
        if col == 'n':
            continue
        if col not in g.columns:
            return 'column %s lost' % col
        if not left.loc[g.index, col].equals(g[col]):
            return 'column %s changed' % col
    return None


def pconf(series, fixed, indy, stats=('ME',), series2=None, stats2=(), lt='sl1l2'):
    return {'series': series, 'fixed': fixed, 'indy': indy, 'stats': list(stats), 'series2': series2 or {}, 'stats2': list(stats2), 'lt': lt}


PROGRAMS = {
    'two models': pconf(SER, {}, 'fcst_lead'),
    'no fixed variables': pconf(SER, None, 'fcst_lead'),
    'fixed': pconf(SER, {'level': ['P100']}, 'fcst_lead'),
    'two fixed variables': pconf(SER, {'level': ['P100', 'P500'], 'interp_pnts': ['1']}, 'fcst_lead', lt='ssvar'),
    'two series variables': pconf({'model': ['A', 'B'], 'vx_mask': ['E', 'W']}, {}, 'fcst_lead'),
    'numeric series': pconf({'interp_pnts': ['1', '9']}, {}, 'fcst_lead'),
    'group': pconf({'model': ['A:B', 'C']}, {}, 'fcst_thresh'),
    'two statistics': pconf(SER, {}, 'fcst_lead', ('ME', 'RMSE')),
    'both axes': pconf({'model': ['A', 'B']}, {}, 'fcst_lead', ('ME',), {'model': ['C']}, ('RMSE',)),
    'both axes, two variables': pconf({'model': ['A'], 'vx_mask': ['E']}, {'level': ['P100']}, 'fcst_lead', ('ME',), {'model': ['B'], 'vx_mask': ['W']}, ('RMSE',)),
}


class AnyProgram(Program):
    proof = False
    bound = 'generated parameters and tables of at most 200 rows'
    quick_cases, thorough_cases = 60, 600

    def __init__(self):
        self.name = 'perform_event_equalization.generated parameters'

    def cases(self, rng, n):
        for i in range(n):
            g = generated(rng)
            two = rng.random() < 0.4
            c = pconf(g['series'], g['fixed'], g['indy'], rng.choice([('ME',), ('ME', 'RMSE')]),
                      {f: rng.sample([v for v in VALUES[f] if v != 'NA'], rng.choice([1, 2])) for f in g['series']} if two else None, ('RMSE',) if two else ())
            self.conf = c
            yield from Program.cases(self, rng, 1)


# ---- the programs for objects -----------------------------------------------------------------------
def write(path, cols, rows):
    with open(path, 'w') as f:
        f.write('\t'.join(cols) + '\n')
        for r in rows:
            f.write('\t'.join('NA' if r[c] is None else str(r[c]) for c in cols) + '\n')


class Objects(Base):
    """The program that equalizes object attributes, from file to file."""
    proof = False
    name = 'objects'
    bound = 'generated parameters and files of at most 200 rows'
    functions = ['metcalcpy.agg_stat_event_equalize:AggStatEventEqualize.calculate_values', 'metcalcpy.agg_stat_event_equalize:AggStatEventEqualize.run_ee_on_axis',
                 'metcalcpy.agg_stat_event_equalize:__main__']
    quick_cases, thorough_cases = 40, 400

    def cases(self, rng, n):
        for i in range(n):
            g = generated(rng)
            two = rng.random() < 0.4
            var = lambda f, k: rng.sample([v for v in VALUES[f] if v != 'NA'], k)
            s2 = {f: var(f, rng.choice([1, 2])) for f in g['series']} if two else {}
            c = pconf(g['series'], {f: [v for v in vs if v != 'NA'] or ['P100'] for f, vs in g['fixed'].items()}, g['indy'], ('ME',), s2, ('ME',) if two else ())
            d = dict(c)
            d['series'] = {f: list(c['series'].get(f, [])) + list(s2.get(f, [])) for f in c['series']}
            yield {'conf': c, 'rows': data(rng, d, COLS)}

    def judge(self, case):
        c, rows = case['conf'], case['rows']
        if not rows:
            return None
        indep = c['indy'] if c['indy'] not in TIME else None
        keys = dict(zip([r['n'] for r in rows], key_texts(rows, COLS, 'fcst_valid_beg', indep)))
        parts = []
        for series in (c['series'], c['series2']):
            if series:
                parts.append(equalized([r for r in rows if listed(r, series)], series, c['fixed'], indep, keys))
        if len(parts) == 2:
            both = parts[0] + parts[1]
            for series in (c['series'], c['series2']):
                ok = common(both, combinations(series, c['fixed']), lambda r: keys[r['n']])
                both = [r for r in both if keys[r['n']] in ok]
            # a row of both axes may be listed once or once per axis
            want = sorted({r['n'] for r in both})
        else:
            want = [r['n'] for r in parts[0]]
        d = tempfile.mkdtemp(prefix='verif-ee-')
        try:
            p = {'agg_stat_input': os.path.join(d, 'in.data'), 'agg_stat_output': os.path.join(d, 'out.data'), 'indy_var': c['indy'],
                 'series_val_1': copy(c['series']), 'series_val_2': copy(c['series2']),
                 'fixed_vars_vals_input': {f: {f + '_0': list(vs)} for f, vs in c['fixed'].items()}}
            write(p['agg_stat_input'], COLS, rows)
            with C.entry_filter('default'):
                try:
                    (as_command('metcalcpy/agg_stat_event_equalize.py', 'calculate_values') if len(rows) % 3 == 0 else C.real('metcalcpy.agg_stat_event_equalize').AggStatEventEqualize)(p).calculate_values()
                    out = read(p['agg_stat_output'])
                except Exception as e:
                    return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            shutil.rmtree(d)
        have = [float(r['n']) for r in out]
        if len(parts) == 2:
            if sorted(set(have)) != want or max([have.count(x) for x in set(have)] or [0]) > 2:
                return 'rows %s instead of %s' % (have[:10], want[:10])
        elif have != want:
            return 'rows %s instead of %s' % (have[:10], want[:10])
        return unaltered(out, rows)


def unaltered(out, rows):
    by = {r['n']: r for r in rows}
    for o in out:
        r = by[float(o['n'])]
        for k in COLS:
            if k not in o:
                return 'column %s lost' % k
            a, b = o[k], 'NA' if r[k] is None else str(r[k])
            if a != b and not (isinstance(r[k], (int, float)) and float(a) == r[k]):
                return 'row %s: %s is %s instead of %s' % (o['n'], k, a, b)
    return None


def read(path):
    t = open(path).read().splitlines()
    head = t[0].split('\t') if t else []
    return [dict(zip(head, l.split('\t'))) for l in t[1:]]


class Previous(Base):
    """The program that equalizes against previously found cases, from file to file."""
    proof = False
    name = 'previous cases'
    bound = 'generated parameters and files of at most 200 rows'
    functions = ['metcalcpy.agg_stat_eqz:AggStatEventEqz.calculate_values', 'metcalcpy.agg_stat_eqz:AggStatEventEqz.perform_ee_on_axis',
                 'metcalcpy.agg_stat_eqz:__main__']
    quick_cases, thorough_cases = 40, 400
    cols = ['fcst_valid' if c == 'fcst_valid_beg' else c for c in COLS]

    def cases(self, rng, n):
        for i in range(n):
            g = generated(rng)
            two = rng.random() < 0.3
            s2 = {f: rng.sample([v for v in VALUES[f] if v != 'NA'], 1) for f in g['series']} if two else {}
            c = {'series': g['series'], 'series2': s2, 'vars': rng.choice([['TMP'], ['TMP', 'RH']]), 'on': rng.random() < 0.9}
            d = {'series': {f: list(g['series'][f]) + list(s2.get(f, [])) for f in g['series']}, 'fixed': {}, 'indy': 'fcst_lead', 'valid': 'fcst_valid',
                 'all_stats': True}
            rows = data(rng, d, self.cols)
            prev = [dict(r, equalize=case_of(r, 'fcst_valid', None)) for r in data(rng, d, self.cols) if rng.random() < 0.5]
            yield {'conf': c, 'rows': rows, 'prev': prev}

    def judge(self, case):
        c, rows, prev = case['conf'], case['rows'], case['prev']
        if not rows or not prev:
            return None
        want = []
        for series, vs in ((c['series'], c['vars']), (c['series2'], ['TMP'])):
            if series:
                for v in vs:
                    ok = {p['equalize'] for p in prev if p['fcst_var'] == v and listed(p, series)}
                    want += [r['n'] for r in rows if r['fcst_var'] == v and listed(r, series) and case_of(r, 'fcst_valid', None) in ok]
        if not c['on']:
            want = [r['n'] for r in rows]
        d = tempfile.mkdtemp(prefix='verif-ee-')
        try:
            p = {'agg_stat_input': os.path.join(d, 'in.data'), 'agg_stat_output': os.path.join(d, 'out.data'), 'agg_stat_input_ee': os.path.join(d, 'ee.data'),
                 'series_val_1': copy(c['series']), 'series_val_2': copy(c['series2']), 'event_equal': str(c['on']),
                 'fcst_var_val_1': {v: ['ME'] for v in c['vars']}, 'fcst_var_val_2': {'TMP': ['ME']} if c['series2'] else {}}
            write(p['agg_stat_input'], self.cols, rows)
            write(p['agg_stat_input_ee'], self.cols + ['equalize'], prev)
            with C.entry_filter('default'):
                try:
                    (as_command('metcalcpy/agg_stat_eqz.py', 'calculate_values') if len(rows) % 3 == 0 else C.real('metcalcpy.agg_stat_eqz').AggStatEventEqz)(p).calculate_values()
                    out = read(p['agg_stat_output'])
                except Exception as e:
                    return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            shutil.rmtree(d)
        have = [float(r['n']) for r in out if r.get('n') not in (None, '')]
        return None if have == want else 'rows %s instead of %s' % (have[:10], want[:10])


def contracts(prop):
    return [Equalize(*c) for c in CONFIGS] + [AnyEqualize(), Against()] + [Program(n, c) for n, c in PROGRAMS.items()] + [AnyProgram(), Objects(), Previous()]


def preload(prop):
    for m in ('metcalcpy.event_equalize', 'metcalcpy.event_equalize_against_values', 'metcalcpy.util.utils'):
        C.loader().load(m)
        C.real(m)
    C.real('metcalcpy.agg_stat_event_equalize')
    C.real('metcalcpy.agg_stat_eqz')


def info(prop):
    return {'level': 'proof', 'bound': 'tables of at most 200 rows', 'assumptions': [
        'a key column holds either numbers or texts that do not read as numbers; every listed variable has at least one value',
        'the input has a valid-time and a lead column; statistics are told apart by a column of their own',
        'row order is not represented in the proofs (it is compared at run time)',
        'rows outside the configured series may or may not be kept by the program',
        'the listed configurations are proved for any data; other configurations are run on generated files']}
