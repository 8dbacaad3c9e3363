"""C16: scorecard significance levels."""
import os
import shutil
import statistics
import tempfile
from fractions import Fraction
import numpy as np
from pydv import contract as C, spec as S, values as V, models as M, world as W
from .shape import Shape, X, xs, decode, differs
from .curves import PERFECT_0, PERFECT_1, NO_PERFECT
from .fields import as_command
from .tost import cdf

CARD = 'metcalcpy.scorecard'
LEVELS = [(80, None, 1.96, 2.576, 3.291), (40, 79, 2.0, 2.66, 3.46), (20, 39, 2.042, 2.75, 3.646), (1, 19, 2.228, 3.169, 4.587)]
BOUND = 'two series of 2 to 12 paired values, 1 to 100 days, all listed statistics; through the command\'s files'


def near(x, d):
    """Decimal rounding to the nearest, ties to even."""
    if isinstance(x, float) and (x != x or abs(x) == float('inf')):
        return x
    if S._sym(x):
        return V.round_even(x, d)
    x = S.Q.of(x)
    y = x.v * 10 ** d
    r = round(y)
    if abs(abs(y - r) - Fraction(1, 2)) < 1e-6:
        S.Border.hit = True
    return S.Q(Fraction(r, 10 ** d), False)


def mean(v):
    s = v[0]
    for x in v[1:]:
        s = s + x
    return s / len(v)


def quotient(a, b):
    """Standardised difference; the interval may be empty."""
    if b == 0:
        if a == 0:
            raise S.Missing()
        return float('inf') if a > 0 else float('-inf')
    return a / b


def emc(v1, v2, stat, ndays):
    n = len(v1)
    d = [b - a for a, b in zip(v1, v2)]
    m = sum(d[1:], d[0]) / ndays
    var = [(x - m) * (x - m) for x in d]
    sd = S.sqrt(sum(var[1:], var[0]) / ndays)
    half = near(Fraction('1.96') * sd / S.sqrt(n - 1), 6)
    m1, m2 = near(mean(v1), 6), near(mean(v2), 6)
    if stat.startswith('ME') or stat.startswith('BIAS'):
        ds = quotient(abs(m2 - m1), half)
        if abs(m2) - abs(m1) < 0:
            ds = -ds
    elif stat.startswith('RMSE') or stat.startswith('RMSVE'):
        ds = quotient(m2 - m1, half)
    else:
        ds = quotient(m1 - m2, half)
    ds = near(ds, 3)
    for lo, hi, a95, a99, a999 in LEVELS:
        if ndays >= lo:
            break
    a95, a99, a999 = (Fraction(str(a)) for a in (a95, a99, a999))
    if isinstance(ds, float):
        return 1 if ds > 0 else -1
    s99, s999 = near(ds * a95 / a99, 3), near(ds * a95 / a999, 3)
    for s, level in ((s999, 1), (s99, 0.99), (ds, 0.95)):
        if s >= 1:
            return level
    if ds > -1:
        return 0
    for s, level in ((s99, -0.95), (s999, -0.99)):
        if s > -1:
            return level
    return -1


def ncar(v1, v2, stat):
    n = len(v1)
    d = [a - b for a, b in zip(v1, v2)]
    m = mean(d)
    var = [(x - m) * (x - m) for x in d]
    sd = S.sqrt(sum(var[1:], var[0]) / (n - 1))
    if sd == 0:
        raise S.Skip()
    t = m / (sd / S.sqrt(n))
    p = 1 - 2 * (1 - cdf(abs(t), n - 1))
    if stat in NO_PERFECT:
        raise S.Missing()
    m1, m2 = mean(v1), mean(v2)
    if stat in PERFECT_0:
        return -p if abs(m1) > abs(m2) else p
    if stat in PERFECT_1:
        return -p if abs(m1 - 1) > abs(m2 - 1) else p
    return p


def through_files(v1, v2, stat, op, flag, ndays):
    """The scorecard row of two series, through the command's input and output files."""
    import pandas as pd
    rows = []
    for m, v in (('A', v1), ('B', v2)):
        for i, x in enumerate(v):
            rows.append([m, '120000', 'P200', 'HGT', stat, 'EAST', '2011-07-%02d 12:00:00' % (i + 1), x])
    order = [(k * 7) % len(rows) if len(rows) % 7 else k for k in range(len(rows))]
    df = pd.DataFrame([rows[k] for k in order], columns=['model', 'fcst_lead', 'fcst_lev', 'fcst_var', 'stat_name', 'vx_mask', 'fcst_valid_beg', 'stat_value'])
    d = tempfile.mkdtemp(prefix='card')
    try:
        src, dst = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
        df.to_csv(src, sep='\t', index=False, float_format='%.17g')
        a, b = 'P200 A 120000 HGT ' + stat, 'P200 B 120000 HGT ' + stat
        params = {'append_to_file': False, 'derived_series_1': [[a, b, op]], 'equalize_by_indep': True, 'event_equal': False,
                  'fcst_var_val_1': {'HGT': [stat]}, 'fix_val_list_eq': [], 'fixed_vars_vals_input': {}, 'indy_plot_val': [],
                  'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': [stat], 'ndays': ndays,
                  'series_val_1': {'fcst_lead': ['120000'], 'fcst_lev': ['P200'], 'model': ['A', 'B']}, 'stat_flag': flag,
                  'sum_stat_input': src, 'sum_stat_output': dst}
        with C.entry_filter('default'):
            cls = as_command('metcalcpy/scorecard.py', 'calculate_scorecard_data') if len(v1) % 2 else C.real(CARD).Scorecard
            cls(params).calculate_scorecard_data()
            out = pd.read_csv(dst, sep='\t')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(out) != 1:
        return 'rows: %d' % len(out)
    v = float(out['stat_value'][0])
    return None if v != v else v


class Card(Shape):
    prop = 'C16'
    module = CARD
    budget = 100
    quick_cases, thorough_cases = 60, 400
    max_paths = 8000
    method = None
    bound = BOUND

    def stub(self, mod, stat, ndays):
        o = object.__new__(mod.Scorecard)
        o.params = {'list_stat_1': [stat], 'ndays': ndays, 'stat_flag': self.flag}
        return o

    def call(self, mod, args):
        f = getattr(mod.Scorecard, self.method, None)
        if f is None:
            raise W.Unsupported('no method ' + self.method)
        return f(self.stub(mod, *args[2:]), *args[:2])

    def gen(self, rng):
        n = rng.randint(2, 12)
        return xs(n), xs(n), rng.choice(self.stats), X(lo=1, hi=100, kind='int')

    def cases(self, rng, n):
        for c in super().cases(rng, n):
            v1, v2 = c['args']['__tuple__'][:2]
            k = rng.random()
            if k < 0.6:         # paired differences around a chosen size of standardised difference
                size = rng.choice([0.0, 0.2, 0.4, 0.7, 1, 1.5, 3, 60, 400]) * rng.choice([1, -1])
                for i in range(len(v2)):
                    v2[i] = round(v1[i] + size + rng.choice([-1, 1]) * rng.random(), 4)
            if rng.random() < 0.25:     # a column of whole numbers
                v1[:] = [round(x) for x in v1]
                v2[:] = [round(x) for x in v2]
            yield c

    def judge(self, case):
        v1, v2, stat, ndays = decode(case['args'], False)
        S.Border.hit = False
        try:
            want = self.spec(*decode(case['args'], True))
        except S.UNDEFINED:
            want = None
        except S.Skip:
            raise C.SkipCase('outside the precondition')
        if S.Border.hit:
            raise C.SkipCase('too close to call')
        try:
            got = through_files(v1, v2, stat, self.op, self.flag, ndays)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return differs(got, want, 2e-7)


class Emc(Card):
    method, op, flag = '_calculate_diff_sig_emc', 'DIFF_SIG', 'EMC'
    functions = [CARD + ':Scorecard._calculate_diff_sig_emc', CARD + ':__main__']
    STATS = {'bias': ['ME', 'BIAS'], 'error': ['RMSE', 'RMSVE'], 'skill': ['ANOM_CORR', 'GSS', 'FBAR']}

    def __init__(self, kind, level):
        self.kind, self.level, self.stats = kind, level, self.STATS[kind]
        self.name = 'significance level (EMC), %s scores, %s to %s days' % (kind, level[0], level[1] or 'more')

    def days(self):
        lo, hi = self.level[0], self.level[1]
        return X(lo=lo, hi=hi or 120, kind='int')

    def templates(self):
        for n in (2, 3, 4, 5):
            yield xs(n), xs(n), self.stats[0], self.days()

    def gen(self, rng):
        n = rng.randint(2, 12)
        return xs(n), xs(n), rng.choice(self.stats), self.days()

    def pre(self, v1, v2, stat, ndays):
        return True

    def spec(self, v1, v2, stat, ndays):
        return emc(v1, v2, stat, ndays)


class Swap(Emc):
    """Exchanging the models negates the level unless both are equally good."""

    def __init__(self, kind, level):
        super().__init__(kind, level)
        self.name = 'exchange of models (EMC), %s scores, %s to %s days' % (kind, level[0], level[1] or 'more')

    def templates(self):
        yield xs(2), xs(2), self.stats[0], self.days()

    def call(self, mod, args):
        a = super().call(mod, args)
        b = super().call(mod, (args[1], args[0]) + tuple(args[2:]))
        return None if a is None or b is None else a + b

    def out(self, r, args):
        return r

    def pre(self, v1, v2, stat, ndays):
        m1, m2 = near(mean(v1), 6), near(mean(v2), 6)
        return abs(m1) - abs(m2) != 0 and m1 != m2

    def spec(self, v1, v2, stat, ndays):
        return 0

    def judge(self, case):
        v1, v2, stat, ndays = decode(case['args'], False)
        S.Border.hit = False
        if not self.pre(*decode(case['args'], True)) or S.Border.hit:
            raise C.SkipCase('equally good')
        emc(*decode(case['args'], True))
        if S.Border.hit:
            raise C.SkipCase('too close to call')
        a = through_files(v1, v2, stat, self.op, self.flag, ndays)
        b = through_files(v2, v1, stat, self.op, self.flag, ndays)
        return None if a == -b else 'levels %r and %r of the exchanged models' % (a, b)


class Ncar(Card):
    method, op, flag = '_calculate_diff_sig_ncar', 'DIFF_SIG', 'NCAR'
    functions = [CARD + ':Scorecard._calculate_diff_sig_ncar']

    def __init__(self, kind, stats):
        self.kind, self.stats = kind, stats
        self.name = 'significance (NCAR), %s' % kind

    def templates(self):
        for n in (2, 3, 4, 5):
            yield xs(n), xs(n), self.stats[0], 10

    def gen(self, rng):
        n = rng.randint(2, 12)
        return xs(n), xs(n), rng.choice(self.stats), 10

    def spec(self, v1, v2, stat, ndays):
        return ncar(v1, v2, stat)


class Plain(Card):
    proof = False

    def __init__(self, op):
        self.op, self.flag, self.stats = op, 'NCAR', ['RMSE', 'GSS']
        self.functions = [CARD + ':Scorecard._get_stats_for_derived']
        self.name = 'scorecard value %s' % op

    def templates(self):
        yield xs(2), xs(2), 'RMSE', 10

    def spec(self, v1, v2, stat, ndays):
        return mean(v1) if self.op == 'SINGLE' else mean([a - b for a, b in zip(v1, v2)])


def contracts(prop):
    return [Emc(k, l) for k in Emc.STATS for l in LEVELS] + [Swap(k, l) for k in Emc.STATS for l in LEVELS[:1]] + \
        [Ncar('no perfect score', ['FBAR', 'BASER']), Ncar('perfect score 0', ['RMSE', 'MAE', 'FAR']), Ncar('perfect score 1', ['GSS', 'ANOM_CORR']),
         Ncar('no orientation', ['SOMETHING_ELSE']), Plain('DIFF'), Plain('SINGLE')]


def preload(prop):
    C.loader().load(CARD)
    C.real(CARD)


def info(prop):
    return {'level': 'proof', 'bound': BOUND, 'assumptions': [
        'proved for every value of two to five paired differences and every number of days; longer series are compared at run time',
        'the Student t distribution function is an uninterpreted symmetric function shared by code and specification',
        'decimal rounding (round) is an uninterpreted odd function shared by code and specification']}
