"""Bounded contracts of the aggregation program (C10) for the options the proved configurations leave out: probability and multi-category rows,
appended output, equalized input, derived curves of grouped values."""
import numpy as np
from pydv import contract as C, spec as S
from . import aggregate as A, points, prob
from .fields import as_command
from .points import VAR, members

BASE = ['model', 'fcst_var', 'stat_name', 'fcst_lead', 'vx_mask', 'fcst_valid_beg']
DATES = ['2020-01-%02d 00:00:00' % d for d in range(1, 9)]
AGG = 'metcalcpy.agg_stat:AggStat.'


def pick(rows, flt):
    return [r for r in rows if all(r[f] in m for f, m in flt)]


def table(rows, cols):
    arr = np.empty((len(rows), len(cols)), dtype=object)
    for i, r in enumerate(rows):
        arr[i] = [r[c] for c in cols]
    return S.ConcTable(arr, cols)


def conc(fn, *a):
    try:
        v, border = S.conc(fn, *a)
    except S.Skip:
        raise C.SkipCase('outside the precondition')
    if border:
        raise C.SkipCase('too close to call')
    return v


def run(p, cols, rows):
    return A.run_file(C.real('metcalcpy.agg_stat').AggStat, p, cols, rows)


def judged(out, want, names):
    """want: [(texts, value, row count)]"""
    if len(out) != len(want):
        return '%d output rows instead of %d' % (len(out), len(want))
    for o, (texts, v, n) in zip(out, want):
        if [o.get(f) for f in names] != texts:
            return 'row %s instead of %s' % ([o.get(f) for f in names], texts)
        if o.get('nstats') != str(n):
            return 'row %s reports %s rows instead of %d' % (texts, o.get('nstats'), n)
        bad = A.same_number(o['stat_value'], v)
        if bad:
            return 'row %s: %s' % (texts, bad)


class Bounded(C.Contract):
    prop = 'C10'
    proof = False
    functions = [AGG + f for f in ('calculate_stats_and_ci', '_proceed_with_axis', '_get_bootstrapped_stats', '_calc_stats')]


class Probability(Bounded):
    """Probability scores through the program: the climatology of a row is the base rate of its series over all independent values."""
    name = 'rows.probability bins'
    functions = Bounded.functions + [AGG + '_prepare_pct_data']
    quick_cases, thorough_cases = 25, 200
    bound = 'two or three probability bins, at most 30 rows of one variable'

    def cases(self, rng, n):
        for i in range(n):
            ids = ['_%d' % k for k in range(rng.choice([2, 3]))]
            th = sorted(rng.sample([0.05, 0.1, 0.25, 0.5, 0.75, 0.9], len(ids)))
            stats = rng.sample(['BRIER', 'BASER', 'RELIABILITY', 'RESOLUTION', 'UNCERTAINTY', 'ROC_AUC', 'BSS_SMPL'], rng.choice([1, 2]))
            rows = []
            for _ in range(rng.choice([1, 4, 10, 15])):
                r = {'model': rng.choice('ABC'), 'fcst_var': VAR, 'fcst_lead': rng.choice([120000, 240000]), 'vx_mask': rng.choice('EW'), 'fcst_valid_beg': rng.choice(DATES)}
                for k, a in zip(ids, th):
                    r['thresh_i' + k], r['oy_i' + k], r['on_i' + k] = a, rng.choice([0, 1, 3, 8, 20]), rng.choice([0, 1, 2, 9, 16])
                r['total'] = sum(r[c + k] for c in ('oy_i', 'on_i') for k in ids)
                rows += [dict(r, stat_name='PSTD_' + s) for s in stats]
            yield {'ids': ids, 'rows': rows, 'stats': ['PSTD_' + s for s in stats], 'series': rng.choice([{'model': ['A', 'B']}, {'model': ['A', 'B:C']},
                   {'model': ['A'], 'vx_mask': ['E', 'W']}, {'vx_mask': ['E:W']}]), 'indy': rng.choice([['120000'], ['240000', '120000'], ['120000:240000']])}

    def judge(self, case):
        ids, rows = case['ids'], case['rows']
        c = points.config(case['series'], 'fcst_lead', case['indy'], case['stats'], 'pct')
        cols = BASE + ['total'] + [x + k for k in ids for x in ('thresh_i', 'oy_i', 'on_i')]
        want = []
        for fields, texts, flt in points.combinations(c, 1):
            sel = pick(rows, flt)
            every = pick(rows, [f for f in flt if f[0] in case['series']])
            v = None
            if sel:
                oy = sum(r['oy_i' + k] for r in every for k in ids)
                n = oy + sum(r['on_i' + k] for r in every for k in ids)
                if n == 0:
                    raise C.SkipCase('no pairs')
                v = conc(prob.DEFS['calculate_' + texts[-1].lower()], table([dict(r, o_bar=oy / n) for r in sel], cols + ['o_bar']), ids)
            want.append((texts, v, len(sel)))
        try:
            _h, out = run(points.to_params(c), cols, rows)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return judged(out, want, points.names_in(c))


class Reliability(Bounded):
    """Reliability diagrams: the independent values are the thresholds of the data."""
    name = 'rows.thresholds of the data'
    quick_cases, thorough_cases = 20, 150
    bound = 'at most 40 rows of one bin each'

    def cases(self, rng, n):
        for i in range(n):
            th = rng.sample([0.05, 0.1, 0.25, 0.5, 0.75, 0.9], rng.choice([1, 2, 4]))
            stats = rng.choice([['PSTD_CALIBRATION'], ['PSTD_NI'], ['PSTD_CALIBRATION', 'PSTD_NI'], ['PSTD_NI', 'PSTD_CALIBRATION']])
            rows = []
            for _ in range(rng.choice([1, 5, 20])):
                r = {'model': rng.choice('ABC'), 'fcst_var': VAR, 'fcst_lead': 120000, 'vx_mask': rng.choice('EW'), 'fcst_valid_beg': rng.choice(DATES),
                     'thresh_i': rng.choice(th), 'oy_i': rng.choice([0, 1, 3, 8, 20]), 'on_i': rng.choice([0, 1, 2, 9, 16])}
                rows += [dict(r, stat_name=s, total=r['oy_i'] + r['on_i']) for s in stats]
            yield {'rows': rows, 'stats': stats, 'series': rng.choice([{'model': ['A', 'B']}, {'vx_mask': ['W', 'E'], 'model': ['A']}, {'model': ['A:B']}]),
                   'indy': rng.choice([['0.5'], ['0.05', '0.1'], ['7']])}

    def judge(self, case):
        rows = case['rows']
        th = sorted({r['thresh_i'] for r in rows})
        c = points.config(case['series'], 'thresh_i', [str(t) for t in th], case['stats'], 'pct')
        cols = BASE + ['total', 'thresh_i', 'oy_i', 'on_i']
        spec = {'PSTD_NI': lambda t: S.rnd(t.c('oy_i') + t.c('on_i')),
                'PSTD_CALIBRATION': lambda t: S.rnd(t.c('oy_i') / S.rnd(t.c('oy_i') + t.c('on_i')))}
        want = []
        for fields, texts, flt in points.combinations(c, 1):
            sel = pick(rows, flt)
            want.append((texts, conc(spec[texts[-1]], table(sel, cols)) if sel else None, len(sel)))
        try:
            _h, out = run(dict(points.to_params(c), indy_vals=list(case['indy'])), cols, rows)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return judged(out, want, points.names_in(c))


class Categories(Bounded):
    """The multi-category Heidke score through the program; one expected-correct value per series."""
    name = 'rows.categories'
    functions = Bounded.functions + [AGG + '_prepare_mctc_data', AGG + '_prepare_ctc_data', AGG + '_prepare_cts_data']
    quick_cases, thorough_cases = 25, 200
    bound = 'two or three categories, at most 20 rows'

    def cases(self, rng, n):
        for i in range(n):
            k = rng.choice([2, 3])
            rows = []
            ec = {m: rng.choice([0.25, 0.5, 0.125]) for m in 'ABC'}
            for _ in range(rng.choice([1, 6, 20])):
                m = rng.choice('ABC')
                rows.append({'model': m, 'fcst_var': rng.choice([VAR, VAR, 'RH']), 'stat_name': rng.choice(['MCTS_HSS_EC'] * 3 + ['OTHER']), 'fcst_lead':
                             rng.choice([120000, 240000]), 'vx_mask': rng.choice('EW'), 'fcst_valid_beg': rng.choice(DATES), 'ec_value': ec[m],
                             'cells': [rng.choice([0, 1, 2, 5, 9, 30]) for _ in range(k * k)]})
            if i % 4 == 3:
                rows.append(dict(rows[0], model='A', fcst_var=VAR, stat_name='MCTS_HSS_EC', fcst_lead=120000, ec_value=0.375))
                rows.append(dict(rows[0], model='A', fcst_var=VAR, stat_name='MCTS_HSS_EC', fcst_lead=120000, ec_value=0.25))
                rng.shuffle(rows)
            yield {'k': k, 'rows': rows, 'series': rng.choice([{'model': ['A', 'B']}, {'model': ['A'], 'vx_mask': ['E:W']}]), 'indy': ['120000', '240000'],
                   'line': ['mctc', 'ctc', 'cts'][i % 3]}

    def judge(self, case):
        k = case['k']
        order = [(i, j) for i in range(1, k + 1) for j in range(1, k + 1)]
        cols = BASE + ['total', 'n_cat', 'ec_value'] + [x % n for n in range(k * k) for x in ('i_value_%d', 'j_value_%d', 'fi_oj_%d')]
        rows = []
        for r in case['rows']:
            d = dict(r, total=sum(r['cells']), n_cat=k)
            for n, (i, j) in enumerate(order):
                d['i_value_%d' % n], d['j_value_%d' % n], d['fi_oj_%d' % n] = i, j, r['cells'][n]
            rows.append(d)
        c = points.config(case['series'], 'fcst_lead', case['indy'], ['MCTS_HSS_EC'], case['line'])
        want, mixed = [], False
        for fields, texts, flt in points.combinations(c, 1):
            sel = pick(rows, flt)
            mixed = mixed or len({r['ec_value'] for r in sel}) > 1
            want.append((texts, conc(prob.Mcts(k, order).spec, table(sel, cols)) if sel else None, len(sel)))
        try:
            _h, out = run(points.to_params(c), cols, rows)
        except ValueError as e:
            return None if mixed else 'raises ValueError: %s' % e
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if mixed:
            return 'rows of different expected-correct values are combined'
        return judged(out, want, points.names_in(c))


class Append(Bounded):
    """Appended output follows what the file holds, without a header; otherwise the file is replaced."""
    name = 'rows.appended output'
    quick_cases, thorough_cases = 12, 60
    bound = 'two runs on files of at most 40 rows'

    def cases(self, rng, n):
        for i in range(n):
            out = []
            conf = points.CONFIGS[rng.choice(['plain', 'both axes', 'two statistics', 'grouped series value'])]
            for _ in range(2):
                p = points.Points('x', conf)
                out.append(p.data(rng))
            yield {'config': conf, 'first': out[0], 'second': out[1], 'append': [None, 'True', 'False', 'absent'][i % 4]}

    def judge(self, case):
        import os
        import shutil
        import tempfile
        conf = case['config']
        cols = points.KEYS + A.LINE[conf['lt']]
        Agg = C.real('metcalcpy.agg_stat').AggStat
        d = tempfile.mkdtemp(prefix='verif-agg-')
        try:
            texts = []
            for rows, append, name in ((case['first'], None, 'one'), (case['second'], None, 'two'), (case['first'], None, 'both'), (case['second'], case['append'], 'both')):
                p = A.copy_params(points.to_params(conf))
                p['agg_stat_input'], p['agg_stat_output'] = os.path.join(d, 'in.data'), os.path.join(d, name)
                p['append_to_file'] = append
                if append == 'absent':
                    del p['append_to_file']
                with open(p['agg_stat_input'], 'w') as f:
                    f.write('\t'.join(cols) + '\n')
                    for r in rows:
                        f.write('\t'.join('NA' if r[c] is None else repr(r[c]) if isinstance(r[c], float) else str(r[c]) for c in cols) + '\n')
                try:
                    with C.entry_filter('default'):
                        Agg(p).calculate_stats_and_ci()
                except Exception as e:
                    return 'raises %s: %s' % (type(e).__name__, e)
            one, two, both = [open(os.path.join(d, n)).read().splitlines() for n in ('one', 'two', 'both')]
        finally:
            shutil.rmtree(d)
        want = one + two[1:] if case['append'] == 'True' else two
        if both != want:
            return 'output %s instead of %s' % (both[:6], want[:6])


class Equalized(Bounded):
    """With event equalization the rows are those of the equalized table."""
    name = 'rows.equalized input'
    functions = Bounded.functions + ['metcalcpy.util.utils:perform_event_equalization']
    quick_cases, thorough_cases = 16, 100
    bound = 'two or three models, at most eight dates'

    def cases(self, rng, n):
        for i in range(n):
            models = rng.choice([['A', 'B'], ['A', 'B', 'C']])
            rows = []
            for day in DATES:
                for lead in (120000, 240000):
                    for m in models:
                        if rng.random() < 0.75:
                            rows += A.rows_of(rng, 'sl1l2', 1, lambda g: {'model': m, 'fcst_var': VAR, 'stat_name': 'FBAR', 'fcst_lead': lead, 'vx_mask': 'E', 'fcst_valid_beg': day})
            rng.shuffle(rows)
            yield {'rows': rows, 'models': models, 'equal': ['True', 'False'][i % 4 == 3], 'indy': rng.choice([['120000'], ['240000', '120000']])}

    def judge(self, case):
        rows = case['rows']
        c = points.config({'model': case['models']}, 'fcst_lead', case['indy'], ['FBAR'], 'sl1l2')
        seen = {}
        for r in rows:
            seen.setdefault((r['fcst_valid_beg'], r['fcst_lead']), set()).add(r['model'])
        kept = [r for r in rows if case['equal'] == 'False' or seen[r['fcst_valid_beg'], r['fcst_lead']] == set(case['models'])]
        if not kept:
            raise C.SkipCase('nothing in common')
        want = []
        for fields, texts, flt in points.combinations(c, 1):
            sel = pick(kept, flt)
            if sel and sum(r['total'] for r in sel) == 0:
                raise C.SkipCase('no pairs')
            want.append((texts, conc(lambda: A.value(points.STATS['FBAR'], A.ConcRows(sel), 'sl1l2')) if sel else None, len(sel)))
        try:
            _h, out = run(dict(points.to_params(c), event_equal=case['equal']), BASE + A.LINE['sl1l2'], rows)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return judged(out, want, points.names_in(c))


class GroupCurves(Bounded):
    """Derived curves of grouped series values, named by their group."""
    name = 'rows.derived curves of groups'
    functions = Bounded.functions + [AGG + '_get_derived_points', AGG + '_get_bootstrapped_stats_for_derived', AGG + '_validate_series_cases_for_derived_operation']
    quick_cases, thorough_cases = 24, 150
    bound = 'groups of two or three models, at most six dates; each model has at most one row per date and lead'

    def cases(self, rng, n):
        for i in range(n):
            vals = rng.choice([['A:B', 'C'], ['C', 'A:B'], ['A:B', 'C:D'], ['A:B:C', 'D'], ['A', 'B']])
            rows = []
            for day in rng.sample(DATES, rng.choice([1, 3, 6])):
                for lead in (120000, 240000):
                    for m in 'ABCD':
                        rows += A.rows_of(rng, 'sl1l2', 1, lambda g: {'model': m, 'fcst_var': VAR, 'stat_name': 'FBAR', 'fcst_lead': lead, 'vx_mask': 'E', 'fcst_valid_beg': day})
            if i % 6 == 5:                          # one model reports a case twice
                r = rng.choice([r for r in rows if r['model'] == members(vals[0])[0] and r['fcst_lead'] == 120000])
                rows.append(dict(r, fbar=1.25))
            rng.shuffle(rows)
            yield {'rows': rows, 'values': vals, 'op': ['DIFF', 'RATIO', 'SS', 'SINGLE'][i // 6 % 4], 'indy': ['120000', '240000'], 'axis': 1 + i % 2,
                   'twice': i % 6 == 5}

    def judge(self, case):
        vals, rows, axis = case['values'], case['rows'], case['axis']
        names, k = [], 0
        for v in vals:
            if ':' in v:
                k += 1
                names.append('Group_y%d_%d' % (axis, k))
            else:
                names.append(v)
        der = [['%s %s FBAR' % (names[0], VAR), '%s %s FBAR' % (names[1], VAR), case['op']]]
        title = '%s(%s%s%s)' % (case['op'], der[0][0], points.SIGN[case['op']], der[0][1])
        one = {'model': vals}
        c = points.config(one, 'fcst_lead', case['indy'], ['FBAR'], 'sl1l2', derived=der) if axis == 1 else \
            points.config({'vx_mask': ['E']}, 'fcst_lead', case['indy'], ['FBAR'], 'sl1l2', one, ['FBAR'], derived2=der)
        plain = dict(c, derived=[], derived2=[])
        names_out = points.names_in(c)
        want, by = [], {}
        for ax in (1, 2):
            if ax == 2 and axis == 1:
                continue
            for fields, texts, flt in points.combinations(plain, ax):
                sel = pick(rows, flt)
                if sum(r['total'] for r in sel) == 0:
                    raise C.SkipCase('no pairs')
                v = conc(lambda: A.value(points.STATS['FBAR'], A.ConcRows(sel), 'sl1l2'))
                d = dict(zip(fields, texts))
                if ax == axis:
                    by[d['model'], d['fcst_lead']] = v
                want.append(([d.get(f, 'NA') for f in names_out], v, len(sel)))
            if ax == axis:
                for iv in case['indy']:
                    d = {'model': title, 'fcst_lead': iv, 'stat_name': 'FBAR'}
                    want.append(([d.get(f, 'NA') for f in names_out], points.derive(by[vals[0], iv], by[vals[1], iv], case['op']), 0))
        refused = case['twice'] and case['op'] != 'SINGLE'
        try:
            _h, out = run(points.to_params(c), BASE + A.LINE['sl1l2'], rows)
        except Exception as e:
            return None if refused else 'raises %s: %s' % (type(e).__name__, e)
        if refused:
            return 'a derived curve of a model with two rows of the same case is calculated'
        return judged(out, want, names_out)


class Equivalence(Bounded):
    """Equivalence curves: the paired test of the statistics of the single rows of the two curves, case by case."""
    name = 'rows.equivalence curves'
    functions = Bounded.functions + [AGG + '_get_bootstrapped_stats_for_derived', 'metcalcpy.util.utils:calc_derived_curve_value']
    quick_cases, thorough_cases = 16, 100
    bound = 'two models, four to eight dates, partial sums'

    def cases(self, rng, n):
        for i in range(n):
            rows, stat = [], ['FBAR', 'ME', 'OBAR'][i % 3]
            dates = rng.sample(DATES, rng.randint(4, 8))
            for day in dates:
                for lead in (120000, 240000):
                    for m in 'AB':
                        rows += A.rows_of(rng, 'sl1l2', 1, lambda g: {'model': m, 'fcst_var': VAR, 'stat_name': stat, 'fcst_lead': lead, 'vx_mask': 'E', 'fcst_valid_beg': day, 'stat_value': 1.5})
                        rows[-1]['total'] = rows[-1]['total'] or 3
            rng.shuffle(rows)
            yield {'rows': rows, 'stat': stat, 'order': rng.choice(['AB', 'BA']), 'column': i % 4 != 3, 'iterations': [1, 1, 12][i % 3]}

    def judge(self, case):
        from . import tost
        import statistics
        rows, stat, (m1, m2) = case['rows'], case['stat'], case['order']
        names = ['%s %s %s' % (m, VAR, stat) for m in (m1, m2)]
        c = points.config({'model': ['A', 'B']}, 'fcst_lead', ['120000', '240000'], [stat], 'sl1l2', derived=[names + ['ETB']])
        want = []
        for lead in (120000, 240000):
            a, b = [[float(conc(lambda: A.value(points.STATS[stat], A.ConcRows([r]), 'sl1l2'))) for r in
                     sorted((r for r in rows if r['model'] == m and r['fcst_lead'] == lead), key=lambda r: r['fcst_valid_beg'])] for m in (m1, m2)]
            ma, mb, sa, sb = statistics.fmean(a), statistics.fmean(b), statistics.stdev(a), statistics.stdev(b)
            if not sa or not sb:
                raise C.SkipCase('constant series')
            r = sum((x - ma) * (y - mb) for x, y in zip(a, b)) / (len(a) - 1) / sa / sb
            t = tost.Tost(tost.UTILS, False)
            args = [S.Q(len(a))] + [S.Q(v, False) for v in (ma, mb, sa, sb, r)] + [S.Q.of(-0.001), S.Q.of(0.001)]
            if not t.pre(*args):
                raise C.SkipCase('constant differences')
            w = t.spec(*args)
            want.append([w[0]] + w[tost.KEYS.index('ci_tost')])
        try:
            _h, out = run(dict(points.to_params(c), num_iterations=case['iterations']), BASE + A.LINE['sl1l2'] + ['stat_value'] * case['column'], rows)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        title = 'ETB(%s and %s)' % tuple(names)
        if [(o['model'], o['fcst_lead']) for o in out] != [(m, l) for m in ('A', 'B', title) for l in ('120000', '240000')]:
            return 'rows %s' % [(o['model'], o['fcst_lead']) for o in out]
        for o, w in zip(out[4:], want):
            got = [o[k] for k in ('stat_value', 'stat_btcl', 'stat_btcu')]
            if 'NA' in got or any(abs(float(g) - float(v)) > 2e-5 * max(1, abs(float(v))) for g, v in zip(got, w)):
                return '%s at %s: value and interval %s instead of %s' % (title, o['fcst_lead'], got, [float(v) for v in w])


class Commands(C.Contract):
    """The commands of the programs give what the programs give."""
    prop = 'C10'
    proof = False
    name = 'commands of the programs'
    functions = ['metcalcpy.%s:__main__' % m for m in ('agg_stat', 'agg_stat_bootstrap', 'sum_stat')]
    quick_cases, thorough_cases = 9, 60
    bound = 'files of at most 30 rows'

    def cases(self, rng, n):
        objects, sums = points.ObjectRows().cases(rng, n), A.Summary().cases(rng, n)
        for i in range(n):
            if i % 3 == 0:
                lt = rng.choice(['ctc', 'sl1l2'])
                stats = {'ctc': ['PODY', 'GSS'], 'sl1l2': ['ME', 'RMSE']}[lt]
                yield {'program': 'agg_stat', 'lt': lt, 'stats': stats, 'rows': A.rows_of(rng, lt, rng.randint(1, 9), lambda g: {
                    'model': g.choice(['A', 'B']), 'fcst_var': 'TMP', 'stat_name': g.choice(stats), 'fcst_lead': 120000, 'vx_mask': 'E',
                    'fcst_valid_beg': g.choice(DATES)})}
            else:
                yield dict(next(objects if i % 3 == 1 else sums), program='agg_stat_bootstrap' if i % 3 == 1 else 'sum_stat')

    def judge(self, case):
        name, rows = case['program'], case['rows']
        keys = 'agg_stat_input', 'agg_stat_output'
        if name == 'agg_stat':
            cls, call, cols = 'AggStat', 'calculate_stats_and_ci', A.KEYS + A.LINE[case['lt']]
            p = A.params(case['lt'], case['stats'], series_val_1={'model': ['A', 'B']})
        elif name == 'sum_stat':
            cls, call, cols, keys = 'SumStat', 'calculate_stats', A.KEYS + A.LINE[case['line_type']], ('sum_stat_input', 'sum_stat_output')
            lt = A.Summary.NAMES.get(case['line_type'], case['line_type'])
            p = {'event_equal': 'False', 'indy_vals': ['120000'], 'indy_var': 'fcst_lead', 'line_type': lt, 'series_val_1': {'model': ['A', 'B']}, 'series_val_2': {}}
        else:
            cls, call = 'AggStatBootstrap', 'calculate_values'
            cols = [x for x in points.OBJECT_COLS if x != ('area' if case['stats'][0].startswith('3D') else 'volume')]
            p = points.object_params(case['series'], case['indy'], case['stats'], case['series2'], case['stats2'])
        try:
            want = A.run_file(getattr(C.real('metcalcpy.' + name), cls), p, cols, rows, *keys, call=call)
            got = A.run_file(as_command('metcalcpy/%s.py' % name, call), p, cols, rows, *keys, call=call)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if got != want:
            return 'the command gives %r, the program %r' % (got, want)


def contracts():
    return [Probability(), Reliability(), Categories(), Append(), Equalized(), GroupCurves(), Equivalence(), Commands()]
