"""C12: bootstrap resamples and percentile intervals."""
import contextlib
import io
import math
import os
import random
import subprocess
import sys
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V, world as W, terms as T, models
from pydv.values import SReal
from . import shape, aggregate, points
from .shape import Shape, X, xs

ALPHAS = [0.05, 0.1, 0.5, 0.01, 1.0]


def percentile(v, p):
    """Linear interpolation between order statistics; p in [0, 1]."""
    out = []
    for e in v:
        k = 0
        while k < len(out) and bool(out[k] < e):
            k += 1
        out.insert(k, e)
    pos = T.frac(p) * (len(out) - 1)
    k = int(pos)
    if k >= len(out) - 1:
        return out[-1]
    f = pos - k
    return out[k] + (out[k + 1] - out[k]) * f if f else out[k]


def interval(reps, val, alpha):
    if val is None:
        return [None, None, None]
    r = [x for x in reps if x is not None]
    if all(bool(x == r[0]) for x in r):
        return [None, val, None]
    a = T.frac(alpha)
    return [percentile(r, a / 2), val, percentile(r, 1 - a / 2)]


class Interval(Shape):
    """Value and percentile interval for any statistic values of the sample and of its replicates."""
    prop = 'C12'
    module = 'metcalcpy.bootstrap'
    quick_cases, thorough_cases = 60, 600
    frame = False
    budget = 60

    method = 'perc'

    def __init__(self, mode):
        self.mode = mode
        self.fn = 'bootstrap_and_value_mode' if mode else 'bootstrap_and_value'
        self.name = 'interval.' + self.fn
        self.functions = ['metcalcpy.bootstrap:' + f for f in (self.fn, '_bootstrap_distribution_cbb', '_bootstrap_sim_cbb',
                                                                '_get_confidence_interval_and_value', '_all_the_same', 'BootstrapResults.__init__')]

    def templates(self):
        for n, miss, alpha, batch in [(1, 0, 0.05, None), (2, 0, 0.05, None), (3, 0, 0.1, None), (3, 0, 0.5, 2), (3, 1, 0.05, None), (2, 2, 0.05, None),
                                      (0, 2, 0.05, None), (2, 0, 1.0, 1), (4, 0, 0.05, 3)]:
            yield ([X() for _ in range(n)] + [None] * miss, X(), alpha, batch)
        yield (xs(2), None, 0.05, None)

    def gen(self, rng):
        n = rng.choice([1, 2, 3, 5, 8, 20, 41])
        reps = [X(pool=rng.choice([[0.0, 1.0], None, [2.5]])) if rng.random() < 0.8 else None for _ in range(n)]
        return (reps, rng.choice([X(), X(), None]), rng.choice(ALPHAS), rng.choice([None, 1, 2, 3, 7, 50]))

    def call(self, mod, args):
        reps, val, alpha, batch = args
        done = [0]

        def stat(v):
            if v.ndim == 2:
                return [val]
            k = v.shape[0]
            done[0] += k
            return list(reps[done[0] - k:done[0]])
        data = np.arange(10).reshape(5, 2)
        if self.mode:
            import pandas as pd
            data = pd.DataFrame({'case': ['a', 'b', 'c', 'd'], 'n': [1.0, 2.0, 3.0, 4.0]})
            r = mod.bootstrap_and_value_mode(data, np.array([['a'], ['b'], ['c'], ['d']]), stat, alpha=alpha, num_iterations=len(reps), iteration_batch_size=batch,
                                             num_threads=1, ci_method=self.method, save_data=True)
        else:
            r = mod.bootstrap_and_value(data, stat, alpha=alpha, num_iterations=len(reps), iteration_batch_size=batch, num_threads=1, ci_method=self.method,
                                        save_data=True, block_length=2)
        if done[0] != len(reps):
            return ['replicates: %d instead of %d' % (done[0], len(reps)), None, None]
        if r.values is not data:
            return ['original data not kept', None, None]
        return [r.lower_bound, r.value, r.upper_bound]

    def spec(self, reps, val, alpha, batch):
        return interval(reps, val, float(alpha) if not isinstance(alpha, float) else alpha)


class Pivotal(Interval):
    """The percentile interval mirrored about the value."""
    method = 'pivotal'

    def __init__(self, mode):
        Interval.__init__(self, mode)
        self.name = 'mirrored ' + self.name

    def templates(self):
        return [t for t in Interval.templates(self) if t[0] and all(x is not None for x in t[0])]

    def gen(self, rng):
        while True:
            t = Interval.gen(self, rng)
            if all(x is not None for x in t[0]):
                return t

    def spec(self, reps, val, alpha, batch):
        if val is None:
            return [None, None, None]
        a = T.frac(float(alpha) if not isinstance(alpha, float) else alpha)
        return [2 * val - percentile(reps, 1 - a / 2), val, 2 * val - percentile(reps, a / 2)]


# ---- resamples -------------------------------------------------------------------------------------
class Data(np.ndarray):
    """n rows; indexing by drawn row numbers gives the drawn rows."""
    def __getitem__(self, k):
        if isinstance(k, V.SArr) or isinstance(k, np.ndarray) and k.dtype == object:
            return Sample(k)
        return super().__getitem__(k)

    def take(self, k, axis=None, **_k):
        if axis not in (0, None):
            W.cur().flag('take along another axis')
        return self[k]


class Sample:
    __sym__ = True

    def __init__(self, ids):
        self.ids = ids.view(np.ndarray)
        self.shape = self.ids.shape + (2,)
        self.ndim = len(self.shape)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return iter([Sample(self.ids[i:i + 1]) for i in range(len(self.ids))])


class Resamples(C.Contract):
    """Every replicate: n rows drawn with replacement, in circularly consecutive blocks of the requested length."""
    prop = 'C12'
    quick_cases, thorough_cases = 40, 300
    bound = 'samples of 2 to 12 rows'

    def __init__(self, mode):
        self.mode = mode
        fn = 'bootstrap_and_value_mode' if mode else 'bootstrap_and_value'
        self.proof = not mode
        self.name = 'resamples.' + fn
        self.functions = ['metcalcpy.bootstrap:' + f for f in (fn, '_bootstrap_distribution_cbb', '_bootstrap_sim_cbb', '_generate_distributions_cbb')]

    SHAPES = [(1, 1, 2, None), (2, 1, 2, None), (3, 1, 2, 1), (2, 2, 2, None), (3, 2, 2, None), (4, 2, 3, 2), (5, 2, 1, None), (5, 3, 1, None), (4, 4, 2, 1),
              (6, 4, 1, None), (7, 3, 1, None)]

    def prove(self):
        mod = C.loader().load('metcalcpy.bootstrap')
        total = None
        for n, length, its, batch in self.SHAPES:
            def run(w, n=n, length=length, its=its, batch=batch):
                w.draws = []
                w.box = []

                def stat(v):
                    if isinstance(v, Sample):
                        w.box.extend(list(r) for r in v.ids)
                        return [1.0] * len(v)
                    if isinstance(v, Data):
                        return [1.0]
                    W.cur().flag('replicates of type %s' % type(v).__name__)
                data = np.arange(2 * n).reshape(n, 2).view(Data)
                mod.bootstrap_and_value(data, stat, num_iterations=its, iteration_batch_size=batch, num_threads=1, block_length=length)
                starts = [r[i] for r in w.box for i in range(0, len(r), length)]
                names = [draw_name(s) for s in starts]
                return [[its] + [[r[i] for i in range(len(r))] for r in w.box], 'independent' if len(set(names)) == len(names) else 'a row number is drawn once and used twice',
                        'with replacement' if all(x[0] == 'draw' for x in names) else 'without replacement',
                        'all rows' if all(W.BOUNDS[x][:2] == (0, n - 1) for x in names) else 'rows %s' % sorted({W.BOUNDS[x][:2] for x in names})]

            def spec(w, n=n, length=length, its=its):
                want = [its]
                for r in w.box[:its] if len(w.box) >= its else w.box + [[None] * n] * (its - len(w.box)):
                    row = []
                    for i in range(n):
                        s = r[i - i % length] if i - i % length < len(r) else 'row absent'
                        j = i % length
                        row.append(s if j == 0 or isinstance(s, str) else s + j if bool(s + j < n) else s + j - n)
                    want.append(row)
                return [want, 'independent', 'with replacement', 'all rows']
            r = P.check_contract(self.name, run, spec, modes=('default',), budget=30)
            total = r if total is None else shape.merge(total, r)
            if total.refuted:
                break
        return total

    def concretise(self, env, benv, extra):
        return self.cases(random.Random(3), 20)

    def cases(self, rng, n):
        for i in range(n):
            k = rng.choice([2, 3, 4, 5, 6, 9, 12])
            length = rng.choice([1, 1, 2, 3, int(math.sqrt(k)), k])
            its = rng.choice([60, 64, 75])
            yield {'rows': k, 'block': min(length, k), 'iterations': its * k, 'batch': rng.choice([None, 7, 50, its * k, its * k + 5]), 'seed': rng.randint(0, 10**6)}

    def judge(self, case):
        n, length, its = case['rows'], case['block'], case['iterations']
        mod = C.real('metcalcpy.bootstrap')
        got, orig = [], []

        def stat(v):
            if v.ndim == 2:
                orig.append(v.copy())
                return [1.0]
            got.append(v.copy())
            return [1.0] * v.shape[0]
        state = np.random.get_state()
        np.random.seed(case['seed'])
        try:
            with C.entry_filter('default'):
                if self.mode:
                    import pandas as pd
                    names = ['c%02d' % i for i in range(n)]
                    data = np.array([[c] for c in names])
                    frame = pd.DataFrame({'case': names + names + ['other'], 'x': list(range(2 * n + 1)), 'y': 1.5})
                    res = mod.bootstrap_and_value_mode(frame, data, stat, num_iterations=its, iteration_batch_size=case['batch'], block_length=length)
                    want = frame.to_numpy()[:2 * n]
                else:
                    data = np.column_stack([np.arange(n) * 2.0, np.arange(n) + 100.0])
                    keep = data.copy()
                    res = mod.bootstrap_and_value(data, stat, num_iterations=its, iteration_batch_size=case['batch'], block_length=length)
                    want = keep
                    if not (data == keep).all():
                        return 'the data were changed'
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            np.random.set_state(state)
        if len(orig) != 1 or orig[0].shape != want.shape or not (orig[0] == want).all():
            return 'the value is not that of the original data'
        if res.value != 1.0 or res.lower_bound is not None or res.upper_bound is not None:
            return 'equal replicates give (%s, %s, %s)' % (res.lower_bound, res.value, res.upper_bound)
        reps = [r for g in got for r in g]
        if len(reps) != its:
            return '%d replicates instead of %d' % (len(reps), its)
        rowno = {tuple(r): i for i, r in enumerate(data.tolist())}
        return check_replicates([r.tolist() for r in reps], rowno, n, length)


def check_replicates(reps, rowno, n, length):
    starts, repeated = set(), n < 2
    for r in reps:
        if len(r) != n:
            return 'a replicate has %d rows instead of %d' % (len(r), n)
        ids = []
        for x in r:
            if tuple(x) not in rowno:
                return 'a replicate contains a row that is not in the data: %s' % (x,)
            ids.append(rowno[tuple(x)])
        for i in range(n):
            if i % length:
                if ids[i] != (ids[i - i % length] + i % length) % n:
                    return 'row numbers %s are not blocks of %d circularly consecutive rows' % (ids, length)
        s = ids[::length]
        repeated = repeated or len(set(s)) < len(s)
        starts |= set(s)
    if len(starts) < n and len(reps) * ((n + length - 1) // length) >= 60 * n:
        return 'in %d replicates no block starts at row %s' % (len(reps), sorted(set(range(n)) - starts))
    if not repeated and n > length:
        return 'in %d replicates no row is drawn twice' % len(reps)


def draw_name(x):
    """The draw a row number is, as it came from the random number generator."""
    if isinstance(x, SReal):
        n = T.as_var(x.t)
        if n is not None and n in W.BOUNDS and n[0] in ('draw', 'perm'):
            return n
    W.cur().flag('a block start that is computed from the draws')


class Threads(C.Contract):
    """The same through several processes."""
    prop = 'C12'
    proof = False
    name = 'resamples.processes'
    functions = ['metcalcpy.bootstrap:_bootstrap_distribution_cbb']
    quick_cases, thorough_cases = 2, 8
    bound = 'two or three processes'

    def cases(self, rng, n):
        for i in range(n):
            yield {'rows': rng.choice([3, 5]), 'block': rng.choice([1, 2]), 'iterations': rng.choice([400, 601]), 'threads': rng.choice([2, 3]), 'seed': rng.randint(0, 10**6)}

    def judge(self, case):
        import json
        r = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'boot_threads.py'), C.REPO, json.dumps(case)],
                           capture_output=True, text=True, timeout=50)
        if r.returncode:
            return 'fails: %s' % r.stderr.strip().splitlines()[-1:]
        out = json.loads(r.stdout.strip().splitlines()[-1])
        n, its = case['rows'], case['iterations']
        if len(out['reps']) < its:
            return '%d replicates instead of %d' % (len(out['reps']), its)
        if out['value'] != sum(range(n)):
            return 'value %s' % out['value']
        rowno = {(i,): i for i in range(n)}
        reps = [[(int(c),) for c in '%s' % x] for x in out['reps']]
        bad = check_replicates(reps, rowno, n, case['block'])
        if bad:
            return bad
        k = len(reps) // case['threads']
        if reps[:k] == reps[k:2 * k]:
            return 'two processes drew the same replicates'


def ordered(row):
    lo, v, hi = [row[k] for k in ('stat_btcl', 'stat_value', 'stat_btcu')]
    if 'NA' in (lo, v, hi) or '' in (lo, v, hi):
        return None if lo in ('NA', '') and hi in ('NA', '') else 'interval [%s, %s] of %s' % (lo, hi, v)
    return None if float(lo) <= float(hi) else 'interval [%s, %s]' % (lo, hi)


class Agg(C.Contract):
    """The aggregation program asks for the configured bootstrap."""
    prop = 'C12'
    proof = False
    name = 'aggregation.interval'
    functions = ['metcalcpy.agg_stat:AggStat._get_bootstrapped_stats', 'metcalcpy.agg_stat:AggStat._calc_stats']
    quick_cases, thorough_cases = 20, 120
    bound = 'series of at most 12 rows, replicates from the seeded generator'

    def cases(self, rng, n):
        for i in range(n):
            k = rng.choice([1, 2, 3, 5, 9, 12])
            own = lambda g: {'model': 'A', 'fcst_var': 'TMP', 'stat_name': 'FBAR', 'fcst_lead': 120000, 'vx_mask': 'E', 'fcst_valid_beg': '2020-01-%02d 00:00:00' % g.randint(1, 28)}
            rows = aggregate.rows_of(rng, 'sl1l2', k, own)
            yield {'rows': rows, 'alpha': rng.choice(ALPHAS), 'iterations': rng.choice([20, 41]), 'seed': rng.randint(0, 10**6), 'block': rng.choice(['True', 'False'])}

    def judge(self, case):
        if sum(r['total'] for r in case['rows']) == 0:
            raise C.SkipCase('no pairs')
        Agg = C.real('metcalcpy.agg_stat').AggStat
        seen = []

        class Recording(Agg):
            def _calc_stats(self, values):
                out = super()._calc_stats(values)
                seen.append((np.array(values).copy(), list(out)))
                return out
        p = aggregate.params('sl1l2', ['FBAR'], alpha=case['alpha'], num_iterations=case['iterations'], random_seed=case['seed'],
                             circular_block_bootstrap=case['block'])
        state = np.random.get_state()
        try:
            _h, out = aggregate.run_file(Recording, p, aggregate.KEYS + aggregate.LINE['sl1l2'], case['rows'])
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            np.random.set_state(state)
        if len(out) != 1:
            return '%d output rows' % len(out)
        flat = [x for v, o in seen if v.ndim == 3 for x in o]
        flat = [x[0] if isinstance(x, list) else x for x in flat]
        if len(flat) != case['iterations'] or not any(v.ndim == 2 for v, o in seen):
            return ordered(out[0])                  # replicates not observable; the distribution contract judges the bounds
        val = [o for v, o in seen if v.ndim == 2][0][0]
        n = len(case['rows'])
        length = int(math.sqrt(n)) if case['block'] == 'True' else 1
        rows3 = [r for v, o in seen if v.ndim == 3 for r in v.tolist()]
        rowno = {}
        orig = [v for v, o in seen if v.ndim == 2][0].tolist()
        for i, r in enumerate(orig):
            rowno.setdefault(tuple(map(str, r)), i)
        if len(rowno) == n:
            bad = check_replicates([[tuple(map(str, x)) for x in r] for r in rows3], rowno, n, length) if n > 1 else None
            if bad and 'no ' not in bad:
                return bad
        want = interval([None if x is None else S.Q(x) for x in flat], None if val is None else S.Q(val), case['alpha'])
        for name, w in zip(('stat_btcl', 'stat_value', 'stat_btcu'), want):
            bad = aggregate.same_number(out[0][name], w)
            if bad:
                return '%s: %s' % (name, bad)


class ObjectAgg(C.Contract):
    """The object program resamples the cases of one independent value and reports the percentiles."""
    prop = 'C12'
    proof = False
    name = 'objects.interval'
    functions = ['metcalcpy.agg_stat_bootstrap:AggStatBootstrap._get_bootstrapped_stats', 'metcalcpy.agg_stat_bootstrap:AggStatBootstrap._proceed_with_axis']
    quick_cases, thorough_cases = 15, 100
    bound = 'files of at most 60 objects, replicates from the seeded generator'

    def cases(self, rng, n):
        for i in range(n):
            yield {'rows': points.object_rows(rng, rng.choice([3, 12, 40, 60])), 'alpha': rng.choice(ALPHAS), 'iterations': rng.choice([5, 20, 41]),
                   'seed': rng.randint(0, 10**6), 'stats': rng.choice([['RATIO_FSA_ASA'], ['AREARAT_OSA_ASA', 'RATIO_FSM_FSA']]),
                   'indy': rng.choice([['0'], ['0', '120000'], ['120000', '0']])}

    def judge(self, case):
        seen = []

        class Recording(C.real('metcalcpy.agg_stat_bootstrap').AggStatBootstrap):
            def _calc_stats(self, cases):
                out = super()._calc_stats(cases)
                seen.append((np.array(cases).copy(), list(out)))
                return out
        p = points.object_params({'model': ['A', 'B']}, case['indy'], case['stats'], num_iterations=case['iterations'], alpha=case['alpha'],
                                 random_seed=case['seed'])
        state = np.random.get_state()
        try:
            _h, out = aggregate.run_file(Recording, p, points.OBJECT_COLS, case['rows'], call='calculate_values')
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            np.random.set_state(state)
        by = {(o['model'], o['fcst_lead'], o['stat_name']): o for o in out}
        order = [(m, i, s) for i in case['indy'] for s in case['stats'] for m in ('A', 'B')]
        groups, reps = [], []
        for v, o in seen:                       # the value follows or precedes its replicates
            if v.ndim == 3:
                reps.append((v, o))
            elif v.ndim == 2:
                groups.append([v, o, None])
        if len(groups) != len(order) or len(reps) != len(order):
            return next((bad for bad in map(ordered, out) if bad), None)
        for key, (v, val, _), (rv, ro) in zip(order, groups, reps):
            cases = {r['fcst_valid'] + '#' + str(r['fcst_lead']) for r in case['rows']
                     if r['fcst_var'] == 'TMP' and r['model'] in 'AB' and str(r['fcst_lead']) == key[1]}
            if rv.shape[0] != case['iterations'] or any(len(r.ravel()) != len(cases) or not set(r.ravel().tolist()) <= cases for r in rv):
                return 'replicates of %s are not draws of its cases' % (key,)
            flat = [x[0] if isinstance(x, list) else x for x in ro]
            val = val[0][0] if isinstance(val[0], list) else val[0]
            want = interval([None if x is None else S.Q(x) for x in flat], None if val is None else S.Q(val), case['alpha'])
            if key not in by:
                return 'no output row %s' % (key,)
            for name, w in zip(('stat_btcl', 'stat_value', 'stat_btcu'), want):
                bad = aggregate.same_number(by[key][name], w)
                if bad:
                    return '%s of %s: %s' % (name, key, bad)


# ---- intervals against the exact distribution of the resamples ---------------------------------------
def resamples(n, length):
    """Row numbers of every equally likely resample."""
    import itertools
    for starts in itertools.product(range(n), repeat=-(-n // length)):
        yield [(s + j) % n for s in starts for j in range(length)][:n]


def outside(text, reps, p, its, name):
    """A percentile of its draws from the equally likely values reps, within sampling error of six standard deviations."""
    v = sorted(float(x) for x in reps)
    d = max(0.02, 6 * math.sqrt(p * (1 - p) / its)) + 2 / its
    at = lambda q: v[min(len(v) - 1, max(0, math.ceil(q * len(v)) - 1))]
    lo, hi = at(p - d), at(p + d)
    if text in ('NA', ''):
        return '%s is missing, specified in [%s, %s]' % (name, lo, hi)
    e = 1e-6 + 1e-9 * max(abs(lo), abs(hi))
    return None if lo - e <= float(text) <= hi + e else '%s %s, specified in [%s, %s]' % (name, text, lo, hi)


def interval_bad(row, value, reps, alpha, its):
    bad = aggregate.same_number(row['stat_value'], value)
    if bad:
        return bad
    known = [x for x in reps if x is not None]
    if value is None or not known or max(known) - min(known) == 0:
        return None if row['stat_btcl'] in ('NA', '') and row['stat_btcu'] in ('NA', '') else 'interval [%s, %s] where the replicates are all equal' % (
            row['stat_btcl'], row['stat_btcu'])
    if max(known) - min(known) < 1e-6 or len(known) < 0.6 * len(reps):
        return None
    its = its * len(known) / len(reps)
    return outside(row['stat_btcl'], known, alpha / 2, its, 'lower bound') or outside(row['stat_btcu'], known, 1 - alpha / 2, its, 'upper bound')


class Exact(C.Contract):
    """Values and intervals of the aggregation program, derived curves included, against the distribution over all resamples."""
    prop = 'C12'
    proof = False
    name = 'aggregation.distribution'
    functions = ['metcalcpy.agg_stat:AggStat.' + f for f in ('_get_bootstrapped_stats', '_get_bootstrapped_stats_for_derived', '_calc_stats', '_calc_stats_derived')]
    quick_cases, thorough_cases = 24, 150
    cost = 5
    bound = 'two series of two to four rows, 1500 replicates, bounds within six standard deviations of sampling error'

    def cases(self, rng, n):
        for i in range(n):
            lt, stats = rng.choice([('sl1l2', ['FBAR', 'ME', 'RMSE', 'MAE']), ('ctc', ['ACC', 'BASER', 'FBIAS']), ('ecnt', ['ECNT_ME', 'ECNT_MAE'])])
            stat = rng.choice(stats)
            k = [2, 4, 3, 4, 1, 3, 4, 4][i % 8]
            rows = []
            for day in rng.sample(range(1, 29), k):
                for m in 'AB':
                    rows += aggregate.rows_of(rng, lt, 1, lambda g: {'model': m, 'fcst_var': 'TMP', 'stat_name': stat, 'fcst_lead': 120000, 'vx_mask': 'E',
                                                                     'fcst_valid_beg': '2020-01-%02d 00:00:00' % day})
            rng.shuffle(rows)
            yield {'lt': lt, 'stat': stat, 'rows': rows, 'op': ['DIFF', 'DIFF_SIG', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG'][i % 6], 'alpha': rng.choice([0.01, 0.05, 0.5, 0.9]),
                   'block': ['True', 'False'][i % 2] if k == 4 else rng.choice(['True', 'False', None]), 'seed': rng.randint(0, 10**6), 'axis': 1 + (i % 5 == 4)}

    def judge(self, case):
        lt, stat, op, its, ax = case['lt'], case['stat'], case['op'], 1500, case['axis']
        mine = lambda m: sorted((r for r in case['rows'] if r['model'] == m), key=lambda r: r['fcst_valid_beg'])
        a, b = mine('A'), mine('B')
        if any(r['total'] == 0 for r in a + b):
            raise C.SkipCase('no pairs')
        n = len(a)
        border = [False]

        def value(rows, ids):
            try:
                v, near = S.conc(lambda: aggregate.value(points.STATS[stat], aggregate.ConcRows([rows[i] for i in ids]), lt))
            except S.Skip:
                raise C.SkipCase('outside the precondition')
            border[0] = border[0] or near
            return None if v is None else float(v)

        def derive(x, y):
            if x is None or y is None or op in ('RATIO',) and y == 0 or op == 'SS' and x == 0:
                return None
            return {'DIFF': x - y, 'DIFF_SIG': x - y, 'SINGLE': x}.get(op, x / y if op == 'RATIO' and y else (x - y) / x if x else None)
        length = int(math.sqrt(n)) if case['block'] != 'False' else 1
        ids = list(resamples(n, length))
        va, vb = value(a, range(n)), value(b, range(n))
        ra, rb = [value(a, i) for i in ids], [value(b, i) for i in ids]
        vd, rd = derive(va, vb), [derive(x, y) for x, y in zip(ra, rb)]
        if border[0]:
            raise C.SkipCase('too close to call')
        der = [['A TMP %s' % stat, 'B TMP %s' % stat, op]]
        one = {'model': ['A', 'B']}
        p = aggregate.params(lt, [stat], alpha=case['alpha'], num_iterations=its, random_seed=case['seed'],
                             **({'series_val_1': one, 'derived_series_1': der} if ax == 1 else {'series_val_1': {'vx_mask': ['W']}, 'series_val_2': one, 'derived_series_2': der,
                                'list_stat_2': [stat], 'fcst_var_val_2': {'TMP': [stat]}}))
        if case['block'] is not None:
            p['circular_block_bootstrap'] = case['block']
        state = np.random.get_state()
        try:
            _h, out = aggregate.run_file(C.real('metcalcpy.agg_stat').AggStat, p, aggregate.KEYS + aggregate.LINE[lt], case['rows'])
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            np.random.set_state(state)
        if len(out) != 3 + (ax == 2):
            return '%d output rows' % len(out)
        for row, v, reps, what in zip(out[-3:], (va, vb), (ra, rb), 'AB'):
            bad = interval_bad(row, v, reps, case['alpha'], its)
            if bad:
                return 'series %s: %s' % (what, bad)
        row = out[-1]
        if op != 'DIFF_SIG':
            bad = interval_bad(row, vd, rd, case['alpha'], its)
            return 'derived curve: ' + bad if bad else None
        return significance_bad(row['stat_value'], va, vb, vd, rd, stat, its)


def significance_bad(text, va, vb, vd, rd, stat, its):
    from .curves import NO_PERFECT, PERFECT_0, PERFECT_1
    known = np.array([x for x in rd if x is not None])
    if vd is None or not len(known) or stat in NO_PERFECT:
        return None if text in ('NA', '') else 'significance %s where there is none' % text
    if len(known) < 0.6 * len(rd):
        return None
    if text in ('NA', ''):
        return 'significance is missing'
    dev, e = np.abs(known - known.mean()), 6 * known.std() / math.sqrt(its) + 1e-6
    lo, hi = (dev <= abs(vd) - e).mean() - 0.09, (dev <= abs(vd) + e).mean() + 0.09
    ideal = 0 if stat in PERFECT_0 else 1 if stat in PERFECT_1 else None
    p = float(text)
    if ideal is not None and abs(abs(va - ideal) - abs(vb - ideal)) > 1e-9 and p != 0 and (p < 0) != (abs(va - ideal) > abs(vb - ideal)):
        return 'significance %s has the wrong sign' % text
    return None if lo <= abs(p) <= hi else 'significance %s, specified in [%s, %s]' % (text, lo, hi)


class Curves(Shape):
    """args: replicates of a curve of economic value (a list of values or None), the curve, alpha"""
    prop = 'C12'
    module, fn = 'metcalcpy.bootstrap', 'bootstrap_and_value'
    name = 'intervals of the points of a curve of economic value'
    functions = ['metcalcpy.bootstrap:' + f for f in ('bootstrap_and_value', '_get_confidence_interval_and_value_eclv', '_all_the_same')]
    proof = False
    quick_cases, thorough_cases = 60, 500
    bound = 'at most 21 replicates of four points'
    method = 'perc'

    def gen(self, rng):
        m = rng.randint(1, 4)
        reps = [[X(pool=rng.choice([[0.0, 1.0], None])) for _ in range(m)] if rng.random() < 0.85 else None for _ in range(rng.choice([1, 2, 3, 5, 8, 21]))]
        if not any(reps):
            reps[0] = xs(m)
        if rng.random() < 0.3:
            same = X()
            reps = [r and [same] + r[1:] for r in reps]
        return reps, rng.choice([xs(m), xs(m), None]), rng.choice(ALPHAS)

    def call(self, mod, args):
        reps, val, alpha = args
        done = [0]
        curve = lambda v: None if v is None else {'cl': [0.1 * (i + 1) for i in range(len(v))], 'V': np.array(v)}

        def stat(v):
            if v.ndim == 2:
                return [curve(val)]
            done[0] += v.shape[0]
            return [curve(r) for r in reps[done[0] - v.shape[0]:done[0]]]
        with contextlib.redirect_stdout(io.StringIO()):
            r = mod.bootstrap_and_value(np.arange(10).reshape(5, 2), stat, alpha=alpha, num_iterations=len(reps), num_threads=1, ci_method=self.method, save_data=False,
                                        block_length=2, eclv=True)
        return [r.lower_bound, None if r.value is None else r.value['V'], r.upper_bound]

    def spec(self, reps, val, alpha):
        if val is None:
            return [None, None, None]
        out = [interval([r[i] for r in reps if r is not None], v, float(alpha)) for i, v in enumerate(val)]
        return [[x[0] for x in out], val, [x[2] for x in out]]


class MirroredCurves(Curves):
    name = 'mirrored intervals of the points of a curve of economic value'
    method = 'pivotal'

    def spec(self, reps, val, alpha):
        if val is None:
            return [None, None, None]
        a = T.frac(float(alpha))
        ends = [[2 * v - percentile([r[i] for r in reps if r is not None], p) for i, v in enumerate(val)] for p in (1 - a / 2, a / 2)]
        return [ends[0], val, ends[1]]


class Result(Shape):
    """args: the two ends of an interval, its value, another number"""
    prop = 'C12'
    module = 'metcalcpy.bootstrap'
    name = 'arithmetic of a value and its interval'
    functions = ['metcalcpy.bootstrap:BootstrapResults.' + f for f in ('__init__', '_apply', '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
                                                                      'error_width', 'error_fraction', 'is_significant', 'get_result')]
    quick_cases, thorough_cases = 200, 2000

    def templates(self):
        yield X(), X(), X(), X()

    def call(self, mod, args):
        a, v, b, k = args
        r = mod.BootstrapResults(a, v, b)
        ends = lambda x: [x.lower_bound, x.value, x.upper_bound]
        out = [ends(x) for x in (r, r + k, k + r, r - k, k - r, r * k, k * r)]
        return out + [ends(r), r.error_width(), r.error_fraction(), bool(r.is_significant()), r.get_result()]

    def spec(self, a, v, b, k):
        lo, hi = (b, a) if a > b else (a, b)
        same = [lo, v, hi]
        more, less, back = [lo + k, v + k, hi + k], [lo - k, v - k, hi - k], [k - hi, k - v, k - lo]
        times = [hi * k, v * k, lo * k] if k < 0 else [lo * k, v * k, hi * k]
        sign = lambda x: 1 if x > 0 else -1 if x < 0 else 0
        clear = sign(lo) == sign(hi)
        return [same, more, more, less, back, times, times, same, hi - lo, math.inf if v == 0 else (hi - lo) / v, clear, sign(v) if clear else 0]


def contracts(prop):
    return [Exact(), Result(), Curves(), MirroredCurves(), Interval(False), Interval(True), Pivotal(False), Pivotal(True), Resamples(False), Resamples(True), Threads(), Agg(), ObjectAgg()]


def preload(prop):
    C.loader().load('metcalcpy.bootstrap')
    C.real('metcalcpy.bootstrap')
    C.real('metcalcpy.agg_stat')
    C.real('metcalcpy.agg_stat_bootstrap')


def info(prop):
    return {'level': 'proof', 'bound': 'at most 41 replicate values, samples of at most 12 rows, at most three processes', 'assumptions': [
        'the random number generator delivers any row numbers of the requested range (with or without replacement as requested)',
        'intervals proved for at most four replicates and listed alphas, longer lists at run time',
        'resamples proved for every draw of the listed sample sizes (1 to 7 rows), block lengths and batch sizes']}
