"""C18: economic value of contingency tables."""
import math
import os
import shutil
import tempfile
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V
from pydv.values import STable, ColNames, Root, SReal
from .shape import Shape, X, xs, Arr, plain, obj_array, differs
from .fields import as_command
from .util import table_cases, fits
from .tables import BOUND as TBOUND

CTC = 'metcalcpy.util.ctc_statistics'
ECLV = 'metcalcpy.util.eclv_statistics'
AGG = 'metcalcpy.agg_eclv'


def value(a, b, c, d, ratios, base):
    """Hits, false alarms, misses, correct negatives: value of the forecast at every cost/loss ratio, relative to
    climatology (0) and a perfect forecast (1)."""
    n = a + b + c + d
    if a + c == 0 or b + d == 0:
        return None
    H, F, s = a / (a + c), b / (b + d), (a + c) / n
    cl = sort(list(ratios) + ([s] if base else []))
    out = []
    for r in cl:
        # expected expenses per unit loss: forecast, climatology, perfect
        fc = F * (1 - s) * r + H * s * r + (1 - H) * s
        clim = s if upto(s, r) else r
        out.append((clim - fc) / (clim - s * r))
    return [out, cl, S.rnd(H - F), S.rnd(F), S.rnd(H), S.rnd(s)]


def upto(x, y):
    """x <= y where nothing jumps at equality, so that a close call does not matter"""
    return x.v <= S.Q.of(y).v if isinstance(x, S.Q) else x <= y


def sort(v):
    out = []
    for x in v:
        i = 0
        while i < len(out) and upto(out[i], x):
            i += 1
        out.insert(i, x)
    return out


def pick(r):
    return None if r is None else [plain(r[k]) for k in ('V', 'cl', 'vmax', 'F', 'H', 's')]


def unit(x):
    return 0 < x and x < 1


RATIOS = [k / 20 for k in range(1, 20)] + [k / 64 for k in range(1, 64)]


def counts(rng):
    return [float(rng.choice([0, 1, 2, 3, 5, 16]) if rng.random() < 0.4 else rng.randint(0, 99)) for _ in range(4)]


class Economic(Shape):
    light = False
    prop = 'C18'
    module, fn = CTC, 'calculate_economic_value'
    functions = [CTC + ':calculate_economic_value']
    modes = ('default', 'error')
    filters = ('default', 'error', 'ignore')
    quick_cases, thorough_cases = 300, 2000

    def __init__(self, base):
        self.base = base
        self.name = 'economic value%s' % (' with the base rate' if base else '')

    def templates(self):
        for n in (1, 2, 3):
            yield Arr(xs(4, lo=0)), Arr(xs(n, lo=0, hi=1, pool=RATIOS)), self.base
        yield Arr(xs(3, lo=0)), Arr(xs(1, lo=0, hi=1, pool=RATIOS)), self.base

    def gen(self, rng):
        return Arr([X(pool=[v]) for v in counts(rng)]), Arr(xs(rng.randint(1, 19), lo=0, hi=1, pool=RATIOS)), self.base

    def pre(self, v, cl, base):
        return all(unit(x) for x in cl)

    def out(self, r, args):
        return pick(r)

    def spec(self, v, cl, base):
        if len(v) != 4:
            return None
        return value(*v, cl, base)


class Bounds(Economic):
    """Consequences the definition has for every table."""
    quick_cases, thorough_cases = 200, 1500

    def __init__(self):
        self.base = True
        self.name = 'economic value: bounds'

    def templates(self):
        yield Arr(xs(4, lo=0)), Arr(xs(1, lo=0, hi=1, pool=RATIOS)), True

    def pre(self, v, cl, base):
        return all(unit(x) for x in cl) and v[0] + v[2] > 0 and v[1] + v[3] > 0

    def call(self, mod, args):
        v, cl, base = args
        curve = mod.calculate_economic_value(v, cl, base)
        top = mod.calculate_economic_value(v, cl[:0], base)
        sharp = mod.calculate_economic_value(_perfect(v), cl, base)
        return curve, top, sharp

    def out(self, r, args):
        curve, top, sharp = r
        f = 1e-9 if V.cur() is None else 0
        one = all(bool(x <= 1 + f) for x in plain(curve['V']))
        v = args[0]
        peak = plain(top['V'])[0] - (v[0] / (v[0] + v[2]) - v[1] / (v[1] + v[3]))
        below = all(bool(x <= plain(top['V'])[0] + f) for x in plain(curve['V']))
        return [one, peak, below] + plain(sharp['V'])

    def spec(self, v, cl, base):
        return [True, 0, True] + [1] * (len(cl) + 1)


def _perfect(v):
    z = v.copy()
    z[1] = v[1] * 0
    z[2] = v[2] * 0
    z[0] = v[0] + v[2]
    z[3] = v[1] + v[3]
    return z


class CtcTable(C.Contract):
    """Any table of contingency rows."""
    prop = 'C18'
    bound = TBOUND
    functions = [ECLV + ':calculate_eclv', CTC + ':calculate_economic_value']
    quick_cases, thorough_cases = 200, 1500

    def __init__(self, base, n):
        self.base, self.n = base, n
        self.name = 'value of a table, %d ratios%s' % (n, ', base rate added' if base else '')

    def prove(self):
        f = C.loader().load(ECLV).calculate_eclv
        rs = [X(0, 1) for _ in range(self.n)]
        from pydv import world as W, terms as T
        ass = []
        for x in rs:
            v = T.var(('x', x.name))
            ass += [W.cmp_formula('lt', T.neg(v)), W.cmp_formula('lt', T.sub(v, T.const(1)))]
        nn = lambda c: True

        def run(w):
            tab = STable(Root('d', nonneg=nn), arg=True)
            return pick(f(tab, ColNames(tab), None, 'ctc', obj_array([SReal(T.var(('x', x.name)), 'py') for x in rs]), 1 if self.base else 0))

        def spec(w):
            t = S.SymTable(STable(Root('d', nonneg=nn)))
            return value(t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('fn_on'), [SReal(T.var(('x', x.name)), 'py') for x in rs], self.base)
        return P.check_contract(self.name, run, spec, ass, budget=self.budget)

    def concretise(self, env, benv, extra):
        cols, row = [], []
        for c in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on'):
            if benv.get(('present', 'd', c), True):
                cols.append(c)
                v = env.get(('sum', 'd', (), (c,), c + '^1', '1'), 1.0)
                row.append(math.nan if benv.get(('allnan', 'd', (), (c,)), False) else v)
        for r in ([0.05, 0.25, 0.5, 0.75, 0.95], [0.75, 0.1]):
            yield {'cols': cols, 'rows': [row], 'filter': extra or 'default', 'dtype': 'float', 'cl': r, 'agg': None}
            yield {'cols': cols, 'rows': [[round(x) if x == x else x for x in row]], 'filter': 'default', 'dtype': 'float', 'cl': r, 'agg': None}

    def cases(self, rng, n):
        for c in table_cases(rng, n, ['fy_oy', 'fy_on', 'fn_oy', 'fn_on'], 'counts'):
            c['cl'] = [rng.choice(RATIOS) for _ in range(rng.randint(1, 9))]
            yield c

    def judge(self, case):
        from .util import build, same
        if not fits(case, lambda c: True):
            raise C.SkipCase('outside the precondition')
        arr, cols = build(case)
        a0 = arr.copy()
        cl = np.array(case['cl'])
        ct = S.ConcTable(np.array(case['rows'], dtype=float).reshape(len(case['rows']), len(case['cols'])), case['cols'])
        want, edge = S.conc(lambda t: value(t.c('fy_oy'), t.c('fy_on'), t.c('fn_oy'), t.c('fn_on'), [S.Q(x) for x in case['cl']], self.base), ct)
        try:
            with C.entry_filter(case['filter']):
                got = pick(C.real(ECLV).calculate_eclv(arr, cols, None, 'ctc', cl, 1 if self.base else 0))
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if not same(arr, a0) or list(cl) != case['cl']:
            return 'the arguments were modified'
        why = differs(got, want, 1e-7)
        if why and edge:
            raise C.SkipCase('too close to call')
        return why


class Pct(Shape):
    light = False
    """Probability rows split at a threshold."""
    prop = 'C18'
    module, fn = ECLV, 'calculate_eclv'
    functions = [ECLV + ':calculate_eclv', CTC + ':calculate_economic_value']
    filters = ('default', 'error', 'ignore')
    modes = ('default', 'error')
    quick_cases, thorough_cases = 200, 1500
    tol = 1e-7

    def __init__(self, base):
        self.base = base
        self.name = 'value of probability rows%s' % (', base rate added' if base else '')

    def rows(self, n, missing=None):
        rs = [[X(pool=[0.0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9]), X(lo=0), X(lo=0)] for _ in range(n)]
        if missing is not None:
            rs[missing[0]][missing[1]] = math.nan
        return rs

    def templates(self):
        cl = Arr([0.25, 0.6])
        names = Arr(['thresh_i', 'oy_i', 'on_i'])
        for n in (1, 2, 3):
            yield Arr(self.rows(n)), names, X(pool=[0.0, 0.1, 0.5]), 'pct', cl, 1 if self.base else 0
        yield Arr(self.rows(2, (0, 1))), names, X(pool=[0.0, 0.1, 0.5]), 'pct', cl, 1 if self.base else 0
        yield Arr(self.rows(2, (1, 2))), names, X(pool=[0.0, 0.1, 0.5]), 'pct', cl, 1 if self.base else 0
        yield Arr(self.rows(2)), names, None, 'pct', cl, 0
        yield Arr(self.rows(2)), names, X(pool=[0.5]), 'other', cl, 0

    def gen(self, rng):
        order = [0, 1, 2]
        rng.shuffle(order)
        rows = self.rows(rng.randint(1, 8))
        if rng.random() < 0.2:
            rows[0][rng.choice([1, 2])] = math.nan
        n = ['thresh_i', 'oy_i', 'on_i']
        cl = sorted(rng.sample(RATIOS, rng.randint(1, 5)))
        rng.shuffle(cl)
        return Arr([[r[i] for i in order] for r in rows]), Arr([n[i] for i in order]), X(pool=[0.0, 0.1, 0.25, 0.5]), 'pct', Arr(cl), 1 if self.base else 0

    def out(self, r, args):
        return pick(r)

    def spec(self, rows, names, thresh, kind, cl, base):
        if kind != 'pct' or thresh is None:
            return None
        t, oy, on = (names.index(k) for k in ('thresh_i', 'oy_i', 'on_i'))
        z = rows[0][t] * 0
        a = b = c = d = z
        for r in rows:
            ev, ne = (z if isinstance(x, float) and x != x else x for x in (r[oy], r[on]))
            if r[t] > thresh:
                a, b = a + ev, b + ne
            else:
                c, d = c + ev, d + ne
        base = base == 1 if not isinstance(base, S.Q) else base.v == 1
        return value(a, b, c, d, cl, base)


class Output(C.Contract):
    """Output rows of the command: one per series, threshold and ratio."""
    prop = 'C18'
    proof = False
    name = 'economic value output'
    functions = [AGG + ':AggEclv', AGG + ':__main__']
    bound = 'input files of at most 12 rows, 1-2 series, steps of 0.05 to 0.25, with and without base rate and 1 or 20 resamples'
    quick_cases, thorough_cases = 30, 200

    def cases(self, rng, n):
        for i in range(n):
            kind = rng.choice(['ctc', 'pct'])
            rows = []
            for m in ['A', 'B']:
                for _ in range(rng.randint(1, 6)):
                    if kind == 'ctc':
                        rows.append([m] + [rng.randint(1, 40) for _ in range(4)])
                    else:
                        rows.append([m, rng.choice([0.0, 0.25, 0.5, 0.75]), rng.randint(1, 9), rng.randint(1, 9)])
            yield {'kind': kind, 'rows': rows, 'step': rng.choice([0.05, 0.1, 0.25, 0.2]), 'base': rng.choice([0, 1, None]),
                   'iter': rng.choice([1, 1, 20]), 'models': rng.choice([['A'], ['A', 'B'], ['B', 'A']]), 'seed': rng.randint(1, 999), 'command': i % 3 == 0}

    def judge(self, case):
        import pandas as pd
        cols = ['model'] + (['fy_oy', 'fy_on', 'fn_oy', 'fn_on'] if case['kind'] == 'ctc' else ['thresh_i', 'oy_i', 'on_i'])
        df = pd.DataFrame(case['rows'], columns=cols)
        if case['kind'] == 'ctc':
            df['total'] = df[cols[1:]].sum(axis=1)
        d = tempfile.mkdtemp(prefix='eclv')
        try:
            src, dst = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
            df.to_csv(src, sep='\t', index=False)
            params = {'random_seed': case['seed'], 'indy_var': '', 'method': 'perc', 'num_iterations': case['iter'], 'event_equal': 'False',
                      'agg_stat_input': src, 'agg_stat_output': dst, 'fixed_vars_vals_input': {}, 'series_val_1': {'model': case['models']},
                      'alpha': 0.05, 'line_type': case['kind'], 'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'],
                      'circular_block_bootstrap': True, 'equalize_by_indep': 'True', 'cl_step': case['step']}
            if case['base'] is not None:
                params['add_base_rate'] = case['base']
            try:
                with C.entry_filter('default'):
                    cls = as_command('metcalcpy/agg_eclv.py', 'calculate_stats_and_ci') if case['command'] else C.real(AGG).AggEclv
                    cls(params).calculate_stats_and_ci()
                    got = pd.read_csv(dst, sep='\t')
            except Exception as e:
                return 'raises %s: %s' % (type(e).__name__, e)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        want = []
        steps = np.arange(case['step'], 1, case['step'])
        S.Border.hit = False
        for m in case['models']:
            rs = [r[1:] for r in case['rows'] if r[0] == m]
            ths = [0] if case['kind'] == 'ctc' else sorted({r[0] for r in rs})
            for th in ths:
                if case['kind'] == 'ctc':
                    a, b, c, dd = (sum(r[k] for r in rs) for k in range(4))
                else:
                    a = sum(r[1] for r in rs if r[0] > th)
                    b = sum(r[2] for r in rs if r[0] > th)
                    c = sum(r[1] for r in rs if r[0] <= th)
                    dd = sum(r[2] for r in rs if r[0] <= th)
                v = value(S.Q(a), S.Q(b), S.Q(c), S.Q(dd), [S.Q(float(x)) for x in steps], case['base'] == 1)
                for x, y in zip(v[1], v[0]):
                    want.append((m, th, float(x), float(y), len(rs)))
        if S.Border.hit:
            raise C.SkipCase('too close to call')
        if len(got) != len(want):
            return '%d output rows, specified %d' % (len(got), len(want))
        for i, (m, th, x, y, k) in enumerate(want):
            r = got.iloc[i]
            g = (r['model'], float(r['thresh_i']), float(r['x_pnt_i']), float(r['y_pnt_i']), float(r['nstats']))
            if g[0] != m or any(abs(p - q) > 1e-7 * max(1, abs(q)) for p, q in zip(g[1:], (th, x, y, k))):
                return 'row %d is %s, specified %s' % (i, g, (m, th, x, y, k))
            if case['iter'] > 1 and r['stat_btcl'] == r['stat_btcl'] and not r['stat_btcl'] <= r['stat_btcu']:
                return 'row %d: interval %s to %s' % (i, r['stat_btcl'], r['stat_btcu'])
        return None


def contracts(prop):
    return [Economic(False), Economic(True), Bounds()] + [CtcTable(b, n) for b in (False, True) for n in (1, 2)] + [Pct(False), Pct(True), Output()]


def preload(prop):
    for m in (CTC, ECLV):
        C.loader().load(m)
    for m in (CTC, ECLV, AGG):
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': Output.bound, 'assumptions': [
        'contingency counts are non-negative numbers; cost/loss ratios lie strictly between 0 and 1',
        'proved for lists of at most three ratios (two for tables of any number of rows) and at most three probability rows; longer '
        'lists are compared at run time']}
