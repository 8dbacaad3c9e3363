"""C05: probability scores (Brier decomposition, ROC) and, for C01, the multi-category Heidke score."""
import itertools
import math
import numpy as np
from pydv import contract as C, prove as P, spec as S, terms as T
from pydv.spec import rnd as R, Missing, Skip
from pydv.values import STable, ColNames, Root, SReal
from .util import call_stat, describe, same

U = 'metcalcpy.util.'
PSTD = U + 'pstd_statistics'


# ---- definitions ------------------------------------------------------------------------------
class Bins:
    """Non-empty probability bins of a table whose bins are columns thresh_i<k>, oy_i<k>, on_i<k>."""

    def __init__(self, t, ids):
        if t.empty():
            raise Skip()
        th = [t.first('thresh_i' + k) for k in ids]
        oy = [t.c('oy_i' + k) for k in ids]
        on = [t.c('on_i' + k) for k in ids]
        self.bins = []
        self.n = self.o = 0
        for a, y, n in zip(th, oy, on):
            if y + n == 0:
                continue
            self.bins.append((a, y, n))
            self.n = self.n + y + n
            self.o = self.o + y
        if not self.bins:
            raise Missing()


def reliability(b): return sum(((y + n) * (a - y / (y + n)) * (a - y / (y + n)) for a, y, n in b.bins), 0) / b.n
def resolution(b, ob): return sum(((y + n) * (y / (y + n) - ob) * (y / (y + n) - ob) for a, y, n in b.bins), 0) / b.n
def uncertainty(b): return b.o / b.n * (1 - b.o / b.n)


def roc_points(b):
    """(hit rate, false-alarm rate) for thresholds in increasing order, starting at (1, 1)."""
    ths = []
    for a, _y, _n in sorted(b.bins, key=lambda x: _Key(x[0])):
        if not ths or not bool(ths[-1] == a):
            ths.append(a)
    pts = [(1, 1)]
    for t in ths:
        h = sum((y for a, y, n in b.bins if a > t), 0)
        f = sum((n for a, y, n in b.bins if a > t), 0)
        oy = sum((y for a, y, n in b.bins), 0)
        on = sum((n for a, y, n in b.bins), 0)
        pts.append((h / oy, f / on))
    return pts + [(0, 0)]


class _Key:
    def __init__(self, v): self.v = v
    def __lt__(self, o): return bool(self.v < o.v)


def roc_auc(b):
    pts = roc_points(b)
    s = 0
    for (h0, f0), (h1, f1) in zip(pts, pts[1:]):
        s = s + (h0 + h1) * (f0 - f1) / 2
    return s


def _bss(b, ob):
    return (resolution(b, ob) - reliability(b)) / uncertainty(b)


DEFS = {'calculate_pstd_brier': lambda t, ids: (lambda b: R(reliability(b) - resolution(b, t.first('o_bar')) + uncertainty(b)))(Bins(t, ids)),
        'calculate_pstd_bss_smpl': lambda t, ids: R(_bss(Bins(t, ids), t.first('o_bar'))),
        'calculate_pstd_baser': lambda t, ids: (lambda b: R(b.o / b.n))(Bins(t, ids)),
        'calculate_pstd_reliability': lambda t, ids: R(reliability(Bins(t, ids))),
        'calculate_pstd_resolution': lambda t, ids: R(resolution(Bins(t, ids), t.first('o_bar'))),
        'calculate_pstd_uncertainty': lambda t, ids: R(uncertainty(Bins(t, ids))),
        'calculate_pstd_roc_auc': lambda t, ids: R(roc_auc(Bins(t, ids)))}


def layout(ids, extra=()):
    cols = ['total']
    for k in ids:
        cols += ['thresh_i' + k, 'oy_i' + k, 'on_i' + k]
    return cols + ['o_bar'] + list(extra)


class PstdContract(C.Contract):
    prop = 'C05'

    def __init__(self, fn, ids, cols, tag):
        self.fn, self.ids, self.cols = fn, ids, cols
        self.name = 'pstd_statistics.%s[%s]' % (fn, tag)
        self.functions = [PSTD + ':' + fn]
        self.quick_cases, self.thorough_cases = 25, 200
        self.cost = 3 ** len(ids) * (3 if 'roc' in fn else 1)

    def spec(self, t):
        return DEFS[self.fn](t, self.ids)

    def prove(self):
        f = getattr(C.loader().load(PSTD), self.fn)
        nonneg = lambda c: c != 'o_bar'
        mk = lambda arg: STable(Root('d', layout=self.cols, nonneg=nonneg), arg=arg)
        return P.check_contract(self.fn, lambda w: f(mk(True), np.array(self.cols)),
                                lambda w: self.spec(S.SymTable(mk(False))), budget=self.budget)

    def cases(self, rng, n):
        for i in range(n):
            rows = []
            ths = sorted(rng.sample([x / 16 for x in range(17)] if rng.random() < .7 else [0.1, 0.3, 0.5, 0.7, 0.9], min(5, len(self.ids)))) if True else []
            ths = {k: (ths[j] if j < len(ths) else rng.random()) for j, k in enumerate(self.ids)}
            if rng.random() < 0.25:
                v = list(ths.values())
                rng.shuffle(v)
                ths = dict(zip(ths, v))
            zero = rng.choice(['', '', '', 'oy', 'on'])
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = []
                tot = 0
                for c in self.cols:
                    if c.startswith('thresh_i'):
                        r.append(ths[c[len('thresh_i'):]])
                    elif c.startswith('oy_i') or c.startswith('on_i'):
                        v = 0 if c.startswith(zero) and zero else rng.choice([0, 0, 1, 2, 3, 8, rng.randint(0, 60)])
                        tot += v
                        r.append(float(v))
                    elif c == 'o_bar':
                        r.append(rng.choice([0.0, 0.25, 0.5, 1.0, rng.random()]))
                    else:
                        r.append(1.0)
                if 'total' in self.cols:
                    r[self.cols.index('total')] = float(tot)
                rows.append(r)
            if rows and rng.random() < 0.1:
                c = rng.choice([j for j, c in enumerate(self.cols) if c[:2] in ('oy', 'on')] or [0])
                for r in rows:
                    r[c] = math.nan
            yield {'cols': list(self.cols), 'rows': rows, 'filter': rng.choice(['default', 'ignore', 'error']),
                   'dtype': rng.choice(['float', 'object']), 'agg': None}

    def concretise(self, env, benv, extra):
        row = []
        for c in self.cols:
            v = env.get(('first', 'd', (), c), env.get(('sum', 'd', (), (c,), c + '^1', '1'), 1.0))
            row.append(math.nan if benv.get(('allnan', 'd', (), (c,))) else v)
        for rr in (row, [round(x * 8) / 8 if x == x else x for x in row]):
            yield {'cols': list(self.cols), 'rows': [rr], 'filter': extra or 'default', 'dtype': 'float', 'agg': None}

    def judge(self, case):
        cols = case['cols']
        arr = np.array(case['rows'], dtype=float).reshape(len(case['rows']), len(cols))
        for j, c in enumerate(cols):
            if c != 'o_bar' and (arr[:, j] < 0).any():
                raise C.SkipCase()
        try:
            want, border = S.conc(self.spec, S.ConcTable(arr, cols))
        except Skip:
            raise C.SkipCase()
        if border:
            raise C.SkipCase()
        return call_stat(PSTD, self.fn, case, lambda got: None if S.agree(got, want) else
                         'result %r, specified %s' % (got, describe(want)))


class BrierIdentity(PstdContract):
    """Brier = reliability - resolution + uncertainty, up to rounding, from the four reported scores
    when the supplied climatology is the table's own base rate or anything else."""

    def __init__(self, ids, cols, tag):
        super().__init__('calculate_pstd_brier', ids, cols, tag)
        self.name = 'pstd_statistics.decomposition[%s]' % tag
        self.functions = [PSTD + ':calculate_pstd_' + x for x in ('brier', 'reliability', 'resolution', 'uncertainty')]
        self.proof = False

    def judge(self, case):
        from .util import build
        arr, cols = build(case)
        m = C.real(PSTD)
        with C.entry_filter('ignore'):
            b, rel, res, unc = [getattr(m, 'calculate_pstd_' + x)(arr, cols) for x in ('brier', 'reliability', 'resolution', 'uncertainty')]
        if None in (b, rel, res, unc):
            return None if b is None else 'Brier score %r although a part is missing (%r)' % (b, (rel, res, unc))
        return None if abs(b - (rel - res + unc)) <= 2.1e-7 else 'Brier %r, parts %r' % (b, (rel, res, unc))


class Simple(C.Contract):
    """ni and calibration over one bin table."""
    prop = 'C05'

    def __init__(self, fn, formula):
        self.fn, self.formula = fn, formula
        self.name = 'pstd_statistics.' + fn
        self.functions = [PSTD + ':' + fn]

    def spec(self, t):
        return R(self.formula(t))

    def prove(self):
        f = getattr(C.loader().load(PSTD), self.fn)
        mk = lambda arg: STable(Root('d', nonneg=lambda c: True), arg=arg)

        def run(w):
            t = mk(True)
            return f(t, ColNames(t))
        return P.check_contract(self.fn, run, lambda w: self.spec(S.SymTable(mk(False))), budget=self.budget)

    def cases(self, rng, n):
        from .util import table_cases
        return table_cases(rng, n, ['oy_i', 'on_i'], 'counts')

    def judge(self, case):
        arr = np.array(case['rows'], dtype=float).reshape(len(case['rows']), len(case['cols']))
        try:
            want, border = S.conc(self.spec, S.ConcTable(arr, case['cols']))
        except Skip:
            raise C.SkipCase()
        if border:
            raise C.SkipCase()
        return call_stat(PSTD, self.fn, case, lambda got: None if S.agree(got, want) else 'result %r, specified %s' % (got, describe(want)))


class PctTotal(Simple):
    def spec(self, t):
        return R(t.c('total'))

    def cases(self, rng, n):
        from .util import table_cases
        return table_cases(rng, n, ['total'], 'counts')


# ---- ROC of contingency rows -----------------------------------------------------------------
THRESH = [['>=1', '>=2', '>=10'], ['<0.5', '<=0.5', '0.5', '>=0.5', '>0.5'], ['>-2', '>-10', '>3'], ['>=0.1'], ['>=5', '>=5', '>=50', '>=7'],
          ['==3', '<3', '>3.5', '12'], ['>=SFP50', '>=SFP10', '>SFP10'], ['>p75', '>p25', '>p90', '>p50']]
OPW = {'<': 1, '<=': 2, '==': 3, '': 3, '>=': 4, '>': 5}


def thresh_key(s):
    import re
    m = re.fullmatch(r'(<=|>=|==|<|>)?[A-Za-z]*(-?[0-9.]+)', s)
    return float(m.group(2)), OPW[m.group(1) or '']


class CtcRoc(C.Contract):
    prop = 'C05'
    quick_cases, thorough_cases = 60, 300

    def __init__(self, ths, ascending):
        self.ths, self.asc = ths, ascending
        self.name = 'ctc_statistics.calculate_ctc_roc[%s %s]' % (' '.join(ths), 'up' if ascending else 'down')
        self.functions = [U + 'ctc_statistics:calculate_ctc_roc', U + 'ctc_statistics:sort_by_thresh']
        self.assumptions = ['ROC of contingency rows: proved for the listed thresholds with any counts; pandas runs natively on the symbolic cells']

    def want(self, ths, rows, asc, sym):
        """[(thresh, pody, pofd)]; rows = [(a, b, c, d)]"""
        out = []
        for t in sorted(set(ths), key=thresh_key, reverse=not asc):
            a, b, c, d = [sum((r[i] for x, r in zip(ths, rows) if x == t), 0) for i in range(4)]
            out.append((t, S.evaluate(lambda: R(a / (a + c))), S.evaluate(lambda: R(b / (b + d)))))
        return out

    def prove(self):
        import pandas as pd
        from pydv.world import BOUNDS
        m = C.loader().load(U + 'ctc_statistics')
        if len(self.ths) > 3:
            raise AssertionError
        names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']

        def rows():
            out = []
            for i in range(len(self.ths)):
                r = []
                for n in names:
                    v = ('in', n, i)
                    BOUNDS[v] = (0, None, False)
                    r.append(SReal(T.var(v), 'np'))
                out.append(r)
            return out

        def run(w):
            rs = rows()
            cells = {n: pd.Series([r[j] for r in rs], dtype=object) for j, n in enumerate(names)}
            df = pd.DataFrame(dict(cells, fcst_thresh=self.ths))
            before = list(df.columns)
            roc = m.calculate_ctc_roc(df, self.asc)
            if list(df.columns) != before:
                w.mutated.append('data frame')
            return [tuple(x) for x in roc[['thresh', 'pody', 'pofd']].to_numpy().tolist()]
        return P.check_contract('calculate_ctc_roc', run, lambda w: self.want(self.ths, rows(), self.asc, True), budget=self.budget)

    def cases(self, rng, n):
        for i in range(n):
            ths = list(self.ths)
            if rng.random() < 0.6:
                ths = [rng.choice(self.ths) for _ in range(rng.randint(1, 7))]
            rng.shuffle(ths)
            rows = [[rng.choice([0, 0, 1, 3, rng.randint(0, 50)]) for _ in range(4)] for _ in ths]
            yield {'thresh': ths, 'rows': rows, 'asc': self.asc}

    def judge(self, case):
        import pandas as pd
        want = self.want(case['thresh'], [[S.Q(x) for x in r] for r in case['rows']], case['asc'], False)
        df = pd.DataFrame(case['rows'], columns=['fy_oy', 'fy_on', 'fn_oy', 'fn_on'])
        df.insert(0, 'fcst_thresh', case['thresh'])
        before = df.copy()
        try:
            with C.entry_filter('default'):
                roc = C.real(U + 'ctc_statistics').calculate_ctc_roc(df, case['asc'])
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if not same(df, before):
            return 'the caller\'s data frame was modified'
        got = roc[['thresh', 'pody', 'pofd']].to_numpy().tolist()
        miss = lambda v: v is None or v != v
        ok = len(got) == len(want) and all(
            g[0] == w[0] and all((x is None and miss(y)) or (x is not None and not miss(y) and S.agree(y, x)) for x, y in zip(w[1:], g[1:]))
            for g, w in zip(got, want))
        return None if ok else 'ROC points %r, specified %r' % (got, [(w[0], describe(w[1]), describe(w[2])) for w in want])


# ---- multi-category Heidke ----------------------------------------------------------------------
class Mcts(C.Contract):
    prop = 'C01'
    quick_cases, thorough_cases = 40, 200

    def __init__(self, k, order, drop=None, tag=''):
        self.k, self.order, self.drop = k, order, drop
        self.name = 'mcts_statistics.calculate_mcts_hss_ec[%d categories%s]' % (k, tag)
        self.functions = [U + 'mcts_statistics:calculate_mcts_hss_ec']
        self.assumptions = ['multi-category Heidke score: proved for 2 and 3 categories, cells listed in row or column order; category numbers and '
                            'expected-correct value are the first row\'s']

    def layout(self):
        cols = ['total', 'n_cat', 'ec_value']
        for i in range(self.k * self.k):
            cols += ['i_value_%d' % i, 'j_value_%d' % i, 'fi_oj_%d' % i]
        return [c for c in cols if c != self.drop]

    def first(self):
        d = {'n_cat': self.k}
        for n, (i, j) in enumerate(self.order):
            d['i_value_%d' % n], d['j_value_%d' % n] = i, j
        return d

    def spec(self, t):
        if t.empty():
            raise Missing()
        ec = t.first('ec_value')
        for c in ['n_cat'] + ['%s_value_%d' % (x, i) for x in 'ij' for i in range(self.k ** 2)]:
            t.first(c)
        v = [t.c('fi_oj_%d' % n) for n in range(self.k ** 2)]
        diag = sum((x for x, (i, j) in zip(v, self.order) if i == j), 0)
        n = sum(v, 0)
        return R((diag - ec * n) / (n - ec * n))

    def prove(self):
        f = C.loader().load(U + 'mcts_statistics').calculate_mcts_hss_ec
        mk = lambda arg: STable(Root('d', layout=self.layout(), nonneg=lambda c: True, first=self.first()), arg=arg)
        return P.check_contract('calculate_mcts_hss_ec', lambda w: f(mk(True), np.array(self.layout())),
                                lambda w: self.spec(S.SymTable(mk(False))), budget=self.budget)

    def cases(self, rng, n):
        for i in range(n):
            cols, first = self.layout(), self.first()
            rows = []
            ec = rng.choice([0.25, 0.5, 0.1, 1.0, 0.0, round(rng.random(), 3)])
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                rows.append([first.get(c, ec if c == 'ec_value' else rng.choice([0, 0, 1, 2, 16, rng.randint(0, 50)])) for c in cols])
            yield {'cols': cols, 'rows': rows, 'filter': rng.choice(['default', 'ignore', 'error']), 'dtype': 'object', 'agg': None}

    def judge(self, case):
        arr = np.array(case['rows'], dtype=object).reshape(len(case['rows']), len(case['cols']))
        want, border = S.conc(self.spec, S.ConcTable(arr, case['cols']))
        if border:
            raise C.SkipCase()
        return call_stat(U + 'mcts_statistics', 'calculate_mcts_hss_ec', case, lambda got: None if S.agree(got, want) else
                         'result %r, specified %s' % (got, describe(want)))


def mcts_contracts():
    out = []
    for k in (2, 3):
        rows = [(i, j) for i in range(1, k + 1) for j in range(1, k + 1)]
        cols = [(i, j) for j in range(1, k + 1) for i in range(1, k + 1)]
        out += [Mcts(k, rows), Mcts(k, cols, tag=', column order')]
    for d in ('ec_value', 'n_cat', 'fi_oj_0', 'i_value_3', 'j_value_1'):
        out.append(Mcts(2, [(1, 1), (1, 2), (2, 1), (2, 2)], d, ', no ' + d))
    return out


def contracts(prop):
    out = []
    for fn in DEFS:
        ks = (1, 2) if 'roc' in fn else (1, 2, 3)
        for k in ks:
            ids = [str(i + 1) for i in range(k)]
            out.append(PstdContract(fn, ids, layout(ids), '%d bins' % k))
        ids = ['1', '2']
        full = layout(ids, ['another_column'])
        out.append(PstdContract(fn, ids, full[::-1][:1] + [full[0], 'o_bar'] + ['thresh_i1', 'thresh_i2', 'oy_i1', 'oy_i2', 'on_i1', 'on_i2'], '2 bins, grouped columns'))
        c = PstdContract(fn, [str(i) for i in range(1, 6)], layout([str(i) for i in range(1, 6)]), '5 bins, bounded')
        c.proof = False
        out.append(c)
        if fn not in ('calculate_pstd_roc_auc',):
            pass
    out.append(BrierIdentity(['1', '2', '3', '4'], layout(['1', '2', '3', '4']), '4 bins, bounded'))
    out += [Simple('calculate_pstd_ni', lambda t: t.c('oy_i') + t.c('on_i')),
            Simple('calculate_pstd_calibration', lambda t: t.c('oy_i') / R(t.c('oy_i') + t.c('on_i'))), PctTotal('calculate_pct_total', None)]
    for ths in THRESH:
        for asc in (True, False):
            c = CtcRoc(ths, asc)
            c.proof = len(ths) <= 3
            out.append(c)
    return out


def preload(prop):
    for m in ('pstd_statistics', 'ctc_statistics', 'mcts_statistics'):
        C.loader().load(U + m)
        C.real(U + m)


def info(prop):
    return {'level': 'proof', 'bound': 'tables of at most 3 rows and 5 probability bins (any counts, thresholds in any order), at most 7 contingency rows',
            'assumptions': ['probability bins: proved for 1, 2 and 3 bins (ROC area 1 and 2 bins) with any counts, thresholds and number of rows; '
                            'pandas runs natively on the symbolic cells', 'tables have at least one row; thresholds and o_bar are read from the first row']}
