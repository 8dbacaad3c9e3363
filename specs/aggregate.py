"""C07: a group's aggregated statistic is the statistic of the pooled pairs.  C10: every output row
is computed from exactly the input rows of its combination."""
import io
import math
import os
import shutil
import tempfile
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V, frames
from pydv.values import STable, Root, SReal
from . import scores
from .util import describe, consistent

KEYS = ['model', 'fcst_var', 'stat_name', 'fcst_valid_beg', 'fcst_lead', 'vx_mask']
LINE = {
    'ctc': 'total fy_oy fy_on fn_oy fn_on', 'nbr_ctc': 'total fy_oy fy_on fn_oy fn_on',
    'sl1l2': 'total fbar obar fobar ffbar oobar mae', 'sal1l2': 'total fabar oabar foabar ffabar ooabar mae',
    'grad': 'total fgbar ogbar mgbar egbar', 'vl1l2': 'total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar',
    'val1l2': 'total ufabar vfabar uoabar voabar uvfoabar uvffabar uvooabar',
    'vcnt': 'total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar fa_speed_bar oa_speed_bar uvffabar uvfoabar uvooabar',
    'ecnt': 'total n_ens crps crpss ign me rmse spread me_oerr rmse_oerr spread_oerr spread_plus_oerr crpscl crps_emp crpscl_emp crpss_emp '
            'crps_emp_fair spread_md mae mae_oerr n_ge_obs me_ge_obs n_lt_obs me_lt_obs',
    'rps': 'total rps rps_rel rps_res rps_unc rpss rpss_smpl rps_comp',
    'ssvar': 'total bin_n bin_i var_min var_max var_mean fbar obar fobar ffbar oobar',
    'nbr_cnt': 'total fbs fss afss ufss f_rate o_rate'}
LINE = {k: v.split() for k, v in LINE.items()}
MODULE = {'ctc_statistics': 'ctc', 'nbrctc_statistics': 'nbr_ctc', 'sl1l2_statistics': 'sl1l2', 'sal1l2_statistics': 'sal1l2', 'grad_statistics': 'grad',
          'vl1l2_statistics': 'vl1l2', 'val1l2_statistics': 'val1l2', 'vcnt_statistics': 'vcnt', 'ecnt_statistics': 'ecnt', 'rps_statistics': 'rps',
          'ssvar_statistics': 'ssvar', 'nbrcnt_statistics': 'nbr_cnt'}
COUNTS = {'total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'n_ge_obs', 'n_lt_obs', 'bin_n', 'n_ens'}


# ---- the pooled row -------------------------------------------------------------------------------
class SymRows:
    def __init__(self, tab):
        self.tab = tab

    def total(self, fn):
        """Sum over the rows of fn(row); row(col) is the cell."""
        v = fn(lambda c: self.tab.column(c))
        return SReal(self.tab.sum_term(v.t, v.miss), 'py')

    def number(self):
        return SReal(self.tab.nrows().t, 'py')


class ConcRows:
    def __init__(self, rows):
        self.rows = rows          # dicts

    def total(self, fn):
        s = S.Q(0)
        for r in self.rows:
            s = s + fn(lambda c: S.Q(r[c]))
        return s

    def number(self):
        return S.Q(len(self.rows))


class Pooled:
    """The single row that pools the pairs of all rows: counts add up, a mean is the pair-weighted mean."""
    SQUARE = {'mse': 'rmse', 'mse_oerr': 'rmse_oerr', 'variance': 'spread', 'variance_oerr': 'spread_oerr', 'variance_plus_oerr': 'spread_plus_oerr'}

    def __init__(self, rows, lt):
        self.rows, self.lt = rows, lt
        self.w = 'bin_n' if lt == 'ssvar' else 'total'

    def has(self, col):
        return True

    def c(self, col):
        t, w = self.rows.total, self.w
        if col == 'total':
            return t(lambda r: r(w))
        if col == 'total_orig':
            return t(lambda r: r('total'))
        if col in COUNTS:
            return t(lambda r: r(col))
        if col in ('me_ge_obs', 'me_lt_obs') and self.lt == 'ecnt':
            return t(lambda r: r(col) * r('n' + col[2:]))          # total over the pairs of that kind
        n = t(lambda r: r(w))
        if self.lt == 'ecnt' and col in self.SQUARE:
            return t(lambda r: r(w) * r(self.SQUARE[col]) * r(self.SQUARE[col])) / n
        if self.lt == 'rps' and col == 'rps_climo':                # reference score of the row: rpss = 1 - rps / reference
            return t(lambda r: r(w) * r('rps') / (1 - r('rpss'))) / n
        if self.lt == 'nbr_cnt' and col == 'fss':                  # fss = 1 - fbs / reference
            return t(lambda r: r(w) * r('fbs') / (1 - r('fss'))) / n
        return t(lambda r: r(w) * r(col)) / n


def value(st, rows, lt):
    p = Pooled(rows, lt)
    return st.fn(p, False) if st.agg else st.fn(p)


# ---- input and output of the real program ---------------------------------------------------------
def params(lt, stats, **k):
    p = {'agg_stat_input': 'in.data', 'agg_stat_output': 'out.data', 'alpha': 0.05, 'append_to_file': None, 'derived_series_1': [],
         'derived_series_2': [], 'event_equal': 'False', 'fcst_var_val_1': {'TMP': list(stats)}, 'fcst_var_val_2': {}, 'fixed_vars_vals_input': {},
         'indy_vals': ['120000'], 'indy_var': 'fcst_lead', 'line_type': lt, 'list_stat_1': list(stats), 'list_stat_2': [], 'method': 'perc',
         'num_iterations': 1, 'num_threads': 1, 'random_seed': None, 'series_val_1': {'model': ['A']}, 'series_val_2': {}}
    p.update(k)
    return p


def copy_params(p):
    import copy
    return copy.deepcopy(p)


def run_file(cls, p, cols, rows, key_in='agg_stat_input', key_out='agg_stat_output', call='calculate_stats_and_ci'):
    """Run the real program on a file; the output as (header, list of dicts of text)."""
    d = tempfile.mkdtemp(prefix='verif-agg-')
    try:
        p = copy_params(p)
        p[key_in], p[key_out] = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        with open(p[key_in], 'w') as f:
            f.write('\t'.join(cols) + '\n')
            for r in rows:
                f.write('\t'.join('NA' if r[c] is None else repr(r[c]) if isinstance(r[c], float) else str(r[c]) for c in cols) + '\n')
        with C.entry_filter('default'):
            getattr(cls(p), call)()
        text = open(p[key_out]).read().splitlines()
        head = text[0].split('\t')
        return head, [dict(zip(head, l.split('\t'))) for l in text[1:]]
    finally:
        shutil.rmtree(d)


def cell(rng, col):
    if col in COUNTS:
        return rng.choice([0, 1, 2, 3, 5, 8, 20, 64])
    big = any(x in col for x in ('ff', 'oo', 'var', 'spread', 'rmse', 'speed', 'crps', 'rate', 'fbs')) and 'ss' not in col
    if col in ('fss', 'rpss', 'crpss', 'crpss_emp', 'afss', 'ufss'):
        return rng.choice([0.5, -1.0, 0.75, -0.25, 0.0])
    v = rng.choice([rng.randint(-16, 40) / 8, round(rng.uniform(-3, 4), 3)])
    return abs(v) * 2 + 1 if big else v


def rows_of(rng, lt, n, keys):
    out = []
    for _ in range(n):
        r = {c: cell(rng, c) for c in LINE[lt]}
        if lt in ('ctc', 'nbr_ctc'):
            r['total'] = r['fy_oy'] + r['fy_on'] + r['fn_oy'] + r['fn_on']
        elif r['total'] == 0 and rng.random() < 0.8:
            r['total'] = rng.randint(1, 9)
        if lt == 'ssvar' and r['bin_n'] == 0:
            r['bin_n'] = 4
        r.update(keys(rng))
        out.append(r)
    return out


class Group(C.Contract):
    """One statistic of one series through the aggregation program."""
    prop = 'C07'
    quick_cases, thorough_cases = 10, 60
    budget = 40

    def __init__(self, st, lt):
        self.st, self.lt = st, lt
        self.stat = st.name[len('calculate_'):].upper()
        self.name = 'aggregate.%s.%s' % (lt, self.stat)
        self.functions = ['metcalcpy.agg_stat:AggStat.calculate_stats_and_ci', 'metcalcpy.agg_stat:AggStat._prepare_%s_data' % lt,
                          'metcalcpy.agg_stat:AggStat._calc_stats', '%s:%s' % (st.module, st.name)]

    def root(self):
        return Root('d', columns=frozenset(LINE[self.lt] + KEYS), nonneg=lambda c: c in COUNTS)

    def prove(self):
        frames.install()
        mod = C.loader().load('metcalcpy.agg_stat')
        st, lt = self.st, self.lt

        def run(w):
            w.inputs['in.data'] = lambda: frames.SFrame(STable(self.root(), complete=True))
            mod.AggStat(params(lt, [self.stat])).calculate_stats_and_ci()
            return output(w)

        def spec(w):
            t = STable(self.root(), complete=True)
            t = t.filtered(V.RowMask(t, [('eq', 'model', 'A'), ('eq', 'fcst_lead', 120000), ('eq', 'stat_name', self.stat), ('eq', 'fcst_var', 'TMP')]))
            if STable(self.root(), complete=True).nrows() == 0:
                return []
            if t.nrows() == 0:
                return [(None, 0)]
            if lt == 'vcnt' and Pooled(SymRows(t), lt).c('total') == 0:
                raise S.Skip()              # no pairs, so no weighted sums either
            return [(S.evaluate(lambda: value(st, SymRows(t), lt)), t.nrows())]
        return P.check_contract(self.name, run, spec, modes=('default',), budget=self.budget)

    def cases(self, rng, n):
        for i in range(n):
            k = rng.choice([1, 2, 2, 3, 5])
            own = lambda g: {'model': 'A', 'fcst_var': 'TMP', 'stat_name': self.stat, 'fcst_lead': 120000, 'vx_mask': g.choice(['E', 'W']),
                             'fcst_valid_beg': '2020-01-%02d 00:00:00' % g.randint(1, 28)}
            yield {'rows': rows_of(rng, self.lt, k, own)}

    def concretise(self, env, benv, extra):
        import random
        rng = random.Random(1)
        return self.cases(rng, 12)

    def judge(self, case):
        st = self.st
        if sum(r['bin_n' if self.lt == 'ssvar' else 'total'] for r in case['rows']) == 0:
            raise C.SkipCase('no pairs')
        try:
            want, border = S.conc(lambda: value(st, ConcRows(case['rows']), self.lt))
        except S.Skip:
            raise C.SkipCase('outside the precondition')
        if border:
            raise C.SkipCase('too close to call')
        try:
            _h, out = run_file(C.real('metcalcpy.agg_stat').AggStat, params(self.lt, [self.stat]), KEYS + LINE[self.lt], case['rows'])
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if len(out) != 1:
            return '%d output rows instead of 1' % len(out)
        return same_number(out[0]['stat_value'], want)


def output(w):
    if len(w.outputs) != 1:
        return 'frames written: %d' % len(w.outputs)
    f = w.outputs[0][1]
    if f.empty and not len(f.columns):
        return []
    return [(f['stat_value'].iloc[i], f['nstats'].iloc[i]) for i in range(len(f))]


def same_number(text, want):
    if text == 'no result':
        return text
    if want is None:
        return None if text in ('NA', '') else 'result %s, specified missing' % text
    if text in ('NA', ''):
        return 'result missing, specified %s' % describe(want)
    w = float(want)
    return None if abs(float(text) - w) <= 1.01e-7 + 1e-9 * abs(w) else 'result %s, specified %s' % (text, describe(want))


# ---- pooled rows of grouped values ----------------------------------------------------------------
SUM_LINE = {'ctc': 'ctc', 'nbrctc': 'nbr_ctc', 'nbr_ctc': 'nbr_ctc', 'sl1l2': 'sl1l2', 'sal1l2': 'sal1l2', 'vl1l2': 'vl1l2', 'val1l2': 'val1l2',
            'grad': 'grad', 'nbrcnt': 'nbr_cnt', 'nbr_cnt': 'nbr_cnt', 'ecnt': 'ecnt', 'rps': 'rps'}
SUMMED = {'sl1l2': 'fbar obar fobar ffbar oobar', 'sal1l2': 'fabar oabar foabar ffabar ooabar', 'ecnt': 'me crps ign me_oerr spread spread_oerr '
          'spread_plus_oerr mse mse_oerr rmse rmse_oerr', 'rps': 'rps rps_comp rpss', 'nbr_cnt': 'fbs fss afss ufss f_rate o_rate'}


def summed(lt):
    return ['total'] + [c for c in SUMMED.get(lt, ' '.join(LINE[lt])).split() if c != 'total']


def pooled_cell(rows, lt, col):
    """The cell of the row that pools the rows."""
    p = Pooled(rows, lt)
    if lt == 'ecnt' and col in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
        return S.sqrt(p.c({v: k for k, v in Pooled.SQUARE.items()}[col]))
    if lt == 'nbr_cnt' and col == 'fss':
        return 1 - p.c('fbs') / p.c('fss')
    if lt == 'nbr_cnt' and col == 'afss':
        f, o = p.c('f_rate'), p.c('o_rate')
        return 2 * f * o / (f * f + o * o)
    if lt == 'nbr_cnt' and col == 'ufss':
        return 0.5 + p.c('o_rate') / 2
    if lt == 'rps' and col == 'rpss':
        return 1 - p.c('rps') / p.c('rps_climo')
    return p.c(col)


class Sums(C.Contract):
    """The row that stands for a group of rows."""
    prop = 'C07'
    quick_cases, thorough_cases = 20, 100

    def __init__(self, name, lt):
        self.lt_name, self.lt = name, lt
        self.name = 'pooled_row.%s' % name
        self.functions = ['metcalcpy.util.utils:calc_series_sums', 'metcalcpy.util.utils:sum_column_data_by_name']

    def root(self):
        return Root('d', columns=frozenset(LINE[self.lt] + KEYS), nonneg=lambda c: c in COUNTS)

    def prove(self):
        mod = C.loader().load('metcalcpy.util.utils')

        def frame():
            t = STable(self.root(), complete=True)
            if t.nrows() == 0 or SymRows(t).total(lambda r: r('total')) == 0:
                raise S.Skip()
            return t

        def want(f):
            try:
                return S.evaluate(f)
            except S.Missing:
                return None

        def run(w):
            t = frame()
            if self.lt == 'nbr_cnt' and (Pooled(SymRows(t), self.lt).c('fss') == 0 or Pooled(SymRows(t), self.lt).c('f_rate') == 0 and
                                         Pooled(SymRows(t), self.lt).c('o_rate') == 0):
                raise S.Skip()
            if self.lt == 'rps' and Pooled(SymRows(t), self.lt).c('rps_climo') == 0:
                raise S.Skip()
            if self.lt == 'ecnt' and SymRows(t).total(lambda r: r('total') * r('crps') / (1 - r('crpss'))) == 0:
                raise S.Skip()
            f = mod.calc_series_sums(frames.SFrame(t), self.lt_name)
            if len(f) != 1:
                return 'rows: %d' % len(f)
            return [f[c].iloc[0] if c in f.columns else 'column %s absent' % c for c in summed(self.lt)]

        def spec(w):
            t = STable(self.root(), complete=True)
            return [want(lambda: pooled_cell(SymRows(t), self.lt, c)) for c in summed(self.lt)]
        return P.check_contract(self.name, run, spec, modes=('default',), budget=self.budget)

    def cases(self, rng, n):
        for i in range(n):
            yield {'rows': rows_of(rng, self.lt, rng.choice([1, 2, 2, 3, 5, 9]), lambda g: {})}

    def concretise(self, env, benv, extra):
        import random
        return self.cases(random.Random(1), 12)

    def judge(self, case):
        import pandas as pd
        rows = ConcRows(case['rows'])
        if sum(r['total'] for r in case['rows']) == 0:
            raise C.SkipCase('no pairs')
        with C.entry_filter('ignore'):
            try:
                f = C.real('metcalcpy.util.utils').calc_series_sums(pd.DataFrame(case['rows']), self.lt_name)
            except Exception as e:
                return 'raises %s: %s' % (type(e).__name__, e)
        if len(f) != 1:
            return '%d rows' % len(f)
        for c in summed(self.lt):
            want, border = exact(lambda: pooled_cell(rows, self.lt, c))
            if want is None or border:
                continue
            if c not in f.columns:
                return 'no column %s' % c
            if not close(f[c].iloc[0], want):
                return '%s is %s, the pooled pairs give %s' % (c, f[c].iloc[0], describe(want))


def exact(fn):
    try:
        v, border = S.conc(fn)
        return v, border
    except (S.Skip, ZeroDivisionError):
        return None, True


def close(x, want):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return False
    w = float(want)
    return abs(x - w) <= 1e-9 * max(1.0, abs(w))


class Grouped(C.Contract):
    """Rows of a value such as 'EAST;NMT' are replaced by one pooled row per valid and lead time."""
    prop = 'C07'
    proof = False
    name = 'grouped_values'
    functions = ['metcalcpy.util.utils:aggregate_field_values']
    quick_cases, thorough_cases = 60, 600
    bound = 'frames of at most 14 rows, two valid times, two leads, up to two grouped variables'

    def cases(self, rng, n):
        for i in range(n):
            name = rng.choice(sorted(SUM_LINE))
            lt = SUM_LINE[name]
            rows = rows_of(rng, lt, rng.randint(1, 14), lambda g: {
                'model': g.choice(['A', 'B', 'C']), 'vx_mask': g.choice(['E', 'W', 'N', 'S']), 'fcst_lead': g.choice([120000, 240000]),
                'fcst_valid_beg': g.choice(['2020-01-01 00:00:00', '2020-01-02 00:00:00'])})
            svv = rng.choice([{'vx_mask': ['E;W']}, {'vx_mask': ['E;W', 'N;S']}, {'model': ['A;B'], 'vx_mask': ['E;W']}, {'model': ['A', 'B;C']},
                              {'fcst_lead': ['120000;240000']}, {'model': ['A;C'], 'fcst_lead': ['120000;240000']}, {'model': ['A']}])
            for r in rows:
                if r['total'] == 0:
                    r['total'] = 3
                for c in LINE[lt]:
                    if c not in COUNTS:
                        r[c] = float(r[c])
            yield {'line_type': name, 'series': svv, 'rows': rows}

    def judge(self, case):
        import pandas as pd
        lt = SUM_LINE[case['line_type']]
        cols = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid_beg'] + LINE[lt]
        df = pd.DataFrame(case['rows'], columns=cols)
        before = df.copy()
        with C.entry_filter('ignore'):
            try:
                f = C.real('metcalcpy.util.utils').aggregate_field_values({k: list(v) for k, v in case['series'].items()}, df, case['line_type'])
            except Exception as e:
                return 'raises %s: %s' % (type(e).__name__, e)
        if not df.equals(before):
            return 'the data frame given was changed'
        rows = [dict(r) for r in case['rows']]
        key = [c for c in summed(lt) if c in LINE[lt]]
        try:
            for var, vals in case['series'].items():
                for val in vals:
                    if ';' not in val:
                        continue
                    single = val.split(';')
                    if var == 'fcst_lead':
                        single = [int(x) for x in single]
                    groups, rest = {}, []
                    for r in rows:
                        if r[var] in single:
                            groups.setdefault((r['fcst_valid_beg'],) + (() if var == 'fcst_lead' else (r['fcst_lead'],)), []).append(r)
                        else:
                            rest.append(r)
                    for k, g in groups.items():
                        new = dict(g[0])
                        for c in key:
                            v, border = exact(lambda: pooled_cell(ConcRows(g), lt, c))
                            if v is None or border:
                                raise C.SkipCase('undefined')
                            new[c] = float(v)
                        new[var] = single[0] if var == 'fcst_lead' else val
                        new['members'] = len(g)
                        rest.append(new)
                    rows = rest
        except ZeroDivisionError:
            raise C.SkipCase('undefined')
        if len(f) != len(rows):
            return '%d rows instead of %d' % (len(f), len(rows))
        k4 = ['model', 'vx_mask', 'fcst_lead', 'fcst_valid_beg']
        if 'model' not in case['series']:
            k4 = k4[1:]                     # of a pooled row, only the grouped fields and times are determined
        if 'vx_mask' not in case['series']:
            k4 = [c for c in k4 if c != 'vx_mask']
        a = sorted([tuple(str(r[c]) for c in k4) + tuple(round(float(r[c]), 7) for c in key) for r in rows])
        b = sorted([tuple(str(r[c]) for c in k4) + tuple(round(float(r[c]), 7) for c in key) for r in f.to_dict('records')])
        for x, y in zip(a, b):
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q and (isinstance(p, str) or abs(p - q) > 1e-6 * max(1.0, abs(p))):
                    return '%s is %s, the pooled pairs give %s' % ((k4 + key)[i], q, p)


class Summary(C.Contract):
    """The summary program: the statistic of every row."""
    prop = 'C07'
    proof = False
    name = 'summary_rows'
    functions = ['metcalcpy.sum_stat:SumStat.calculate_stats', 'metcalcpy.sum_stat:SumStat.process_rows', 'metcalcpy.sum_stat:calculate_statistic']
    quick_cases, thorough_cases = 60, 500
    bound = 'files of at most 6 rows'
    NAMES = {'nbr_ctc': 'nbrctc', 'nbr_cnt': 'nbrcnt'}
    LTS = ['ctc', 'sl1l2', 'sal1l2', 'grad', 'vl1l2', 'val1l2', 'nbr_ctc']

    def cases(self, rng, n):
        by = {}
        for g in contracts('C07'):
            if isinstance(g, Group) and g.lt in self.LTS:
                by.setdefault(g.lt, []).append(g.stat)
        for i in range(n):
            lt = rng.choice(self.LTS)
            rows = rows_of(rng, lt, rng.randint(1, 6), lambda g: {'model': g.choice(['A', 'B']), 'fcst_var': 'TMP', 'stat_name': g.choice(by[lt]), 'fcst_lead': 120000,
                                                                 'vx_mask': g.choice(['E', 'W']), 'fcst_valid_beg': '2020-01-%02d 00:00:00' % g.randint(1, 28)})
            yield {'line_type': lt, 'rows': rows}

    def judge(self, case):
        lt = case['line_type']
        by = {g.stat: g for g in contracts('C07') if isinstance(g, Group) and g.lt == lt}
        want = []
        for r in case['rows']:
            try:
                g = by[r['stat_name']]
                one = dict(r)
                want.append(S.conc(lambda: g.st.fn(Row(one), False) if g.st.agg else g.st.fn(Row(one))))
            except S.Skip:
                want.append((None, True))
        p = {'event_equal': 'False', 'indy_vals': ['120000'], 'indy_var': 'fcst_lead', 'line_type': self.NAMES.get(lt, lt), 'series_val_1': {'model': ['A', 'B']},
             'series_val_2': {}}
        try:
            _h, out = run_file(C.real('metcalcpy.sum_stat').SumStat, p, KEYS + LINE[lt], case['rows'], 'sum_stat_input', 'sum_stat_output', 'calculate_stats')
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if len(out) != len(case['rows']):
            return '%d rows instead of %d' % (len(out), len(case['rows']))
        for r, o, (w, border) in zip(case['rows'], out, want):
            if border:
                continue
            bad = same_number(o.get('stat_value', 'no result'), w)
            if bad:
                return '%s of %s: %s' % (r['stat_name'], {c: r[c] for c in LINE[lt]}, bad)


class Row:
    """One row as it is."""
    def __init__(self, r):
        self.r = r

    def has(self, col):
        return col in self.r

    def c(self, col):
        return S.Q(self.r[col])


def contracts(prop):
    out = []
    for st in scores.ALL:
        m = st.module.split('.')[-1]
        lt = MODULE[m]
        if st.name == 'calculate_sal1l2_total':
            lt = 'sal1l2'
        if st.name.endswith('_eclv') or not st.name.startswith('calculate_'):
            continue
        out.append(Group(st, lt))
    out += [Sums(n, lt) for n, lt in SUM_LINE.items()]
    out += [Grouped(), Summary()]
    return out


def preload(prop):
    C.loader().load('metcalcpy.agg_stat')
    C.real('metcalcpy.agg_stat')
    C.real('metcalcpy.sum_stat')


def info(prop):
    return {'level': 'proof', 'bound': 'groups of 1 to 5 rows through the aggregation program on files', 'assumptions': [
        'cells are present numbers; pair counts are non-negative',
        'a row whose reference score cannot be recovered (skill score exactly 1) is outside the precondition']}
