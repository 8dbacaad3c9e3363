"""C17: serial correlation, runs test, standard errors, correlation tables."""
import math
import statistics
from fractions import Fraction
import numpy as np
from pydv import contract as C, spec as S, values as V, models as M
from .shape import Shape, X, xs, plain, differs
from .tost import cdf as tcdf

UTILS = 'metcalcpy.util.utils'
CORR = 'metcalcpy.util.correlation'
RUNS = 'metcalcpy.util.wald_wolfowitz_runs_test'
NAN = math.nan
BOUND = 'series of at most 14 numbers with or without missing entries, as lists or arrays of floats or whole numbers'


def present(v):
    return [x for x in v if x is not None and not (isinstance(x, float) and x != x)]


def total(v):
    s = 0
    for x in v:
        s = s + x
    return s


def mean(v):
    return total(v) / len(v)


def normcdf(x):
    if S._sym(x):
        return M.MODELS['scipy.stats'].norm.cdf(x)
    import scipy.stats
    return S.Q(float(scipy.stats.norm.cdf(float(S.Q.of(x)))), False)


def ordered(v):
    if S._sym(*v):
        return _sort(v)
    return sorted(v, key=lambda q: S.Q.of(q).v)


def _sort(v):
    r = []
    for x in v:
        i = len(r)
        while i > 0 and r[i - 1] > x:
            i -= 1
        r.insert(i, x)
    return r


def quantile(v, q):
    """Linear interpolation between order statistics (q a Fraction)."""
    v = ordered(v)
    pos = q * (len(v) - 1)
    i = math.floor(pos)
    f = pos - i
    if f == 0:
        return v[i]
    return v[i] + (v[i + 1] - v[i]) * f


def slope(v):
    """Least-squares slope of each value on its predecessor; None when undefined."""
    v = present(v)
    if len(v) < 3:
        return None
    x, y = v[:-1], v[1:]
    if all(a == x[0] for a in x[1:]):
        return None
    mx, my = mean(x), mean(y)
    r = total([(a - mx) * (b - my) for a, b in zip(x, y)]) / total([(a - mx) * (a - mx) for a in x])
    return S.Q(r.v, False) if isinstance(r, S.Q) else r


def variance(v):
    m = mean(v)
    return total([(x - m) * (x - m) for x in v]) / (len(v) - 1)


class Series(Shape):
    prop = 'C17'
    bound = BOUND
    quick_cases, thorough_cases = 120, 800
    budget = 60
    tol = 1e-7
    lengths = (0, 1, 2, 3, 4)

    def lists(self):
        for n in self.lengths:
            yield xs(n)
        for n in self.lengths:
            if n >= 2:
                yield [None] + xs(n)
                yield xs(1) + [NAN] + xs(n - 1) + [None]

    def templates(self):
        for v in self.lists():
            yield v, 'list'

    def gen(self, rng):
        n = rng.randint(0, 14)
        kind = rng.choice(['list', 'list', 'array', 'whole'])
        v = xs(n, pool=list(range(-3, 7))) if kind == 'whole' or rng.random() < 0.3 else xs(n)
        if kind != 'whole' and rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                v.insert(rng.randint(0, len(v)), NAN if kind == 'array' else rng.choice([None, NAN]))
        return tuple([v, kind] + self.more(rng))

    def more(self, rng):
        return []

    def call(self, mod, args):
        v, kind = args[0], args[1]
        if kind == 'array':
            v = np.array(v, dtype=float)
        elif kind == 'whole':
            v = np.array([int(x) for x in v])
        return getattr(mod, self.fn)(v, *args[2:])

    def value(self, rng, leaf):
        v = super().value(rng, leaf)
        return float(v) if leaf.pool is not None else v


class Autocor(Series):
    module, fn = UTILS, 'autocor_coef'
    functions = [UTILS + ':autocor_coef']
    name = 'lag-one autocorrelation coefficient'
    lengths = (0, 1, 2, 3, 4, 5)

    def spec(self, v, kind):
        return slope(v)


def inflation(ar):
    """(variance inflation, flag) of a lag-one coefficient."""
    if ar == 1:
        return 1, 0
    ratio = (1 + ar) / (1 - ar)
    flag = 0
    if ratio < 0:
        ratio, flag = 1, 1
    f = S.sqrt(ratio)
    if ar < Fraction(3, 10) or ar >= Fraction(99, 100):
        f = 1
    return f, flag


class MeanError(Series):
    module, fn = UTILS, 'compute_std_err_from_mean'
    functions = [UTILS + ':compute_std_err_from_mean', UTILS + ':autocor_coef']
    name = 'standard error of the mean'
    scaled = False

    def spec(self, v, kind):
        v = present(v)
        n = len(v)
        if n < 3 or all(x == v[0] for x in v[1:]):
            return [0, 0, 0, n]
        ar = slope(v)
        if ar is None:
            ar = 0 if S._sym(*v) else S.Q(0)
        f, flag = inflation(ar)
        se = f * S.sqrt(variance(v)) / S.sqrt(n)
        return [se * n if self.scaled else se, flag, ar, n]


class SumError(MeanError):
    fn = 'compute_std_err_from_sum'
    functions = [UTILS + ':compute_std_err_from_sum', UTILS + ':compute_std_err_from_mean']
    name = 'standard error of the sum'
    scaled = True


class MedianError(Series):
    module, fn = UTILS, 'compute_std_err_from_median_no_variance_inflation_factor'
    functions = [UTILS + ':' + fn]
    name = 'standard error of the median'
    vif = False
    lengths = (1, 2, 3, 4)

    def pre(self, v, kind):
        return len(present(v)) > 0

    def spec(self, v, kind):
        v = present(v)
        n = len(v)
        iqr = quantile(v, Fraction(3, 4)) - quantile(v, Fraction(1, 4))
        if n < 3 or iqr == 0:
            return [0, 0, 0, n]
        se = iqr * S.sqrt(Fraction(repr(math.pi)) / 2) / (Fraction('1.349') * S.sqrt(n))
        if not self.vif:
            return [se, 0, 0, n]
        ar = slope(v)
        if ar is None:
            ar = 0 if S._sym(*v) else S.Q(0)
        f, flag = inflation(ar)
        return [f * se, flag, ar, n]


class MedianVif(MedianError):
    fn = 'compute_std_err_from_median_variance_inflation_factor'
    functions = [UTILS + ':' + fn, UTILS + ':autocor_coef']
    name = 'standard error of the median with variance inflation'
    vif = True
    lengths = (1, 2, 3)


def autocov(v, k, m):
    s, c = 0, 0
    for i in range(len(v) - k):
        if present([v[i]]) and present([v[i + k]]):
            s = s + (v[i + k] - m) * (v[i] - m)
            c += 1
    return s / (c + k)


class Acf(Series):
    module, fn = CORR, 'acf'
    functions = [CORR + ':acf', CORR + ':autocovariance', CORR + ':remove_none']

    def __init__(self, kind):
        self.kind = kind
        self.name = 'auto%s function' % kind

    def templates(self):
        for v in self.lists():
            for lag in (None, 0, 1, 9):
                yield v, 'list', self.kind, lag

    def more(self, rng):
        return [self.kind, rng.choice([None, 0, 1, 2, 3, 5, 30])]

    def pre(self, v, c, kind, lag):
        if len(v) == 0:
            return True
        p = present(v)
        return len(p) > 0 and (kind == 'covariance' or not all(x == p[0] for x in p[1:]))

    def spec(self, v, c, kind, lag):
        n = len(v)
        if n == 0:
            return None
        if not isinstance(lag, (int, type(None))):
            lag = int(float(lag))
        k = math.floor(10 * math.log10(n)) if lag is None else lag
        k = min(k, n - 1)
        m = mean(present(v))
        for i in range(k + 1):
            if not any(present([v[j]]) and present([v[j + i]]) for j in range(n - i)) and i == 0:
                raise S.Skip()
        r = [autocov(v, i, m) for i in range(k + 1)]
        return [x / r[0] for x in r] if kind == 'correlation' else r


class AcfRange(Shape):
    """Autocorrelations of a complete series start at one and stay within [-1, 1]."""
    prop = 'C17'
    module, fn = CORR, 'acf'
    functions = [CORR + ':acf', CORR + ':autocovariance']
    name = 'range of the autocorrelation function'
    quick_cases, thorough_cases = 100, 500

    def templates(self):
        for n in (2, 3):
            yield xs(n), 'correlation', None

    def gen(self, rng):
        return xs(rng.randint(2, 12)), 'correlation', rng.choice([None, 1, 3])

    def pre(self, v, kind, lag):
        return not all(x == v[0] for x in v[1:])

    def out(self, r, args):
        tol = 1e-9 if not S._sym() else 0
        return [x <= 1 + tol for x in r] + [x >= -1 - tol for x in r] + [r[0]]

    def spec(self, v, kind, lag):
        n = len(v)
        k = min(math.floor(10 * math.log10(n)) if lag is None else int(float(lag)), n - 1)
        return [True] * (2 * (k + 1)) + [1]


class Runs(Series):
    module, fn = RUNS, 'runs_test'
    functions = [RUNS + ':runs_test', CORR + ':remove_none']
    lengths = (3, 4)
    max_paths = 20000

    def __init__(self, alternative, threshold):
        self.alternative, self.threshold = alternative, threshold
        self.name = 'runs test, %s, about the %s' % (alternative, threshold)

    def lists(self):
        for n in self.lengths:
            yield xs(n)
        yield xs(2) + [None] + xs(1)

    def templates(self):
        for v in self.lists():
            yield v, 'list', self.alternative, self.threshold

    def more(self, rng):
        return [self.alternative, self.threshold]

    def out(self, r, args):
        return {k: plain(r[k]) for k in ('statistic', 'p_value', 'runs', 'mean_value', 'variance')}

    def signs(self, v, cut=None):
        v = present(v)
        if not v:
            raise S.Skip()
        if self.threshold == 'median':
            o = ordered(v)
            n = len(o)
            c = o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2
        else:
            c = mean(v) if cut is None else cut
        out = []
        for x in v:
            if x > c:
                out.append(1)
            elif x < c:
                out.append(-1)
        return out

    def known(self, case, why):
        """The whole-number mean of an integer array is used; the file's name keeps it from being edited."""
        v, kind = case['args']['__tuple__'][:2]
        if self.threshold != 'mean' or kind != 'whole' or sum(v) % len(v) == 0:
            return None
        from . import shape
        args = shape.decode(case['args'], False)
        try:
            with C.entry_filter('default'):
                got = self.out(self.call(C.real(self.module), args), args)
        except Exception as e:
            got = type(e)
        try:
            want = self.result(self.signs([S.Q(x) for x in v], S.Q(int(sum(v) / len(v)))), self.alternative)
        except S.Skip:
            want = ZeroDivisionError
        if got is want or isinstance(want, dict) and isinstance(got, dict) and differs(got, want, self.tol) is None:
            return 'runs test about the mean of an integer array uses the mean truncated to a whole number'
        return None

    def spec(self, v, kind, alternative, threshold):
        return self.result(self.signs(v), alternative)

    def result(self, s, alternative):
        a, b = s.count(1), s.count(-1)
        n = a + b
        if n < 2 or 2 * a * b <= n:
            raise S.Skip()          # the number of runs has no variance
        runs = 1 + sum(x != y for x, y in zip(s, s[1:]))
        mu = 1 + Fraction(2 * a * b, n)
        var = Fraction(2 * a * b * (2 * a * b - n), n * n * (n - 1))
        sym = S._sym()
        root = S.sqrt(V.SReal(V.T.const(var), 'py')) if sym else S.sqrt(S.Q(var, False))
        z = (runs - mu) / root
        p = normcdf(z)
        if alternative == 'two.sided':
            q = 1 - p
            pv = 2 * (V.smin(p, q) if sym else (p if p.v <= q.v else q))
        elif alternative == 'left.sided':
            pv = p
        else:
            pv = 1 - p
        return {'statistic': z, 'p_value': pv, 'runs': runs, 'mean_value': mu, 'variance': var}


class Revision(C.Contract):
    """Autocorrelation and runs test over object revisions."""
    prop = 'C17'
    proof = False
    name = 'revision series statistics'
    functions = [UTILS + ':calculate_mtd_revision_stats']
    bound = 'tables of 1 to 5 objects with 2 to 7 revisions each'
    quick_cases, thorough_cases = 80, 500

    def cases(self, rng, n):
        for _ in range(n):
            rows = []
            for k in range(rng.randint(1, 5)):
                for _i in range(rng.randint(2, 7)):
                    rows.append([100 + k, round(rng.uniform(-5, 5), 2) if rng.random() < 0.8 else float(rng.randint(-2, 2))])
            if rng.random() < 0.3:
                rng.shuffle(rows)
            yield {'rows': rows, 'lag': rng.choice([None, 1, 1, 2, 4])}

    def judge(self, case):
        import pandas as pd
        rows, lag = case['rows'], case['lag']
        ids = []
        for i, _v in rows:
            if i not in ids:
                ids.append(i)
        seq = []
        for i in ids:
            seq += [v for j, v in rows if j == i] + [None]
        seq.pop()
        vals = [v for v in seq if v is not None]
        m = statistics.mean(vals)
        dev = [None if v is None else S.Q(v - m, False) for v in seq]
        n = len(seq)
        k = min(math.floor(10 * math.log10(n)) if lag is None else lag, n - 1)
        S.Border.hit = False
        z = S.Q(mean(present(dev)).v, False)
        c0 = autocov(dev, 0, z)
        if c0.v < 1e-9:
            raise C.SkipCase('constant series')
        r = autocov(dev, k, z) / c0
        run = Runs('left.sided', 'median')
        try:
            w = run.spec([None if v is None else S.Q.of(v) for v in seq], 'list', 'left.sided', 'median')
        except S.Skip:
            raise C.SkipCase('no runs')
        want = {'auto_cor_r': float(r), 'auto_cor_p': 0.06270678 / math.sqrt(n), 'ww_run': float(w['p_value'])}
        for x in want.values():
            if abs((x * 100) % 1 - 0.5) < 1e-6:
                raise C.SkipCase('too close to call')
        df = pd.DataFrame(rows, columns=['revision_id', 'stat_value'])
        keep = df.copy()
        try:
            with C.entry_filter('default'):
                got = C.real(UTILS).calculate_mtd_revision_stats(*([df] if lag is None else [df, lag]))
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if not df.equals(keep):
            return 'modifies its arguments'
        return differs(got, {a: round(b, 2) for a, b in want.items()}, 1e-9)


def ranks(v):
    s = sorted(v)
    return [(2 * s.index(x) + s.count(x) + 1) / 2 for x in v]


def pearson(x, y):
    mx, my = statistics.fmean(x), statistics.fmean(y)
    a = math.fsum((p - mx) * (q - my) for p, q in zip(x, y))
    b = math.sqrt(math.fsum((p - mx) ** 2 for p in x) * math.fsum((q - my) ** 2 for q in y))
    return a / b


def kendall(x, y):
    n = len(x)
    num = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a, b = (x[i] > x[j]) - (x[i] < x[j]), (y[i] > y[j]) - (y[i] < y[j])
            num += a * b
            tx += a * a
            ty += b * b
    return num / math.sqrt(tx * ty)


def bicor(x, y):
    def w(v):
        m = statistics.median(v)
        mad = statistics.median([abs(e - m) for e in v])
        if mad == 0:
            raise C.SkipCase('no spread')
        return [(e - m) * (1 - ((e - m) / 9 / mad) ** 2) ** 2 if abs(e - m) < 9 * mad else 0 for e in v]
    a, b = w(x), w(y)
    return math.fsum(p * q for p, q in zip(a, b)) / math.sqrt(math.fsum(p * p for p in a) * math.fsum(q * q for q in b))


def percbend(x, y, beta=0.2):
    def s(v):
        n = len(v)
        m = statistics.median(v)
        om = sorted(abs(e - m) for e in v)[int((1 - beta) * n) - 1]
        if om == 0:
            raise C.SkipCase('no spread')
        psi = [(e - m) / om for e in v]
        if any(abs(abs(p) - 1) < 1e-9 for p in psi if abs(p) != 1):
            raise C.SkipCase('too close to call')
        lo, hi = sum(p < -1 for p in psi), sum(p > 1 for p in psi)
        c = (math.fsum(e for e, p in zip(v, psi) if -1 <= p <= 1) + om * (hi - lo)) / (n - lo - hi)
        return [max(-1, min(1, (e - c) / om)) for e in v]
    a, b = s(x), s(y)
    return math.fsum(p * q for p, q in zip(a, b)) / math.sqrt(math.fsum(p * p for p in a) * math.fsum(q * q for q in b))


class Table(C.Contract):
    """Correlation table of two series."""
    prop = 'C17'
    proof = False
    functions = [CORR + ':corr', CORR + ':compute_esci', CORR + ':power_corr', CORR + ':remove_na']
    bound = 'pairs of series of 5 to 20 numbers, some missing'
    quick_cases, thorough_cases = 60, 400
    R = {'pearson': pearson, 'spearman': lambda x, y: pearson(ranks(x), ranks(y)), 'kendall': kendall, 'bicor': bicor, 'percbend': percbend}

    def __init__(self, method):
        self.method = method
        self.name = 'correlation table, %s' % method
        if method in ('bicor', 'percbend'):
            self.functions = self.functions + [CORR + ':' + method]

    def cases(self, rng, n):
        for _ in range(n):
            k = rng.randint(5, 20)
            x = [round(rng.uniform(-3, 3), 3) for _ in range(k)]
            y = [round(rng.choice([0, 0.5, -2]) * a + rng.gauss(0, 1), 3) for a in x]
            if rng.random() < 0.2:
                x = [float(round(a)) for a in x]
            for v in (x, y):
                if k > 8 and rng.random() < 0.4:
                    v[rng.randrange(k)] = NAN
            yield {'x': x, 'y': y, 'tail': rng.choice(['two-sided', 'two-sided', 'one-sided'])}

    def judge(self, case):
        import scipy.stats as ss
        x, y, tail = case['x'], case['y'], case['tail']
        p = [(a, b) for a, b in zip(x, y) if a == a and b == b]
        px, py = [a for a, _ in p], [b for _, b in p]
        n = len(p)
        try:
            r = self.R[self.method](px, py)
        except ZeroDivisionError:
            raise C.SkipCase('no spread')
        if abs(r) > 1 - 1e-6:
            raise C.SkipCase('exact relation')
        z, se = math.atanh(r), 1 / math.sqrt(n - 3)
        crit = ss.norm.ppf(0.975)
        ci = [math.tanh(z - crit * se), math.tanh(z + crit * se)]
        want = {'n': n, 'r': r, 'r2': r * r, 'adj_r2': 1 - (1 - r * r) * (n - 1) / (n - 3)}
        if self.method in ('pearson', 'spearman', 'bicor', 'percbend'):
            t = r * math.sqrt((n - 2) / (1 - r * r))
            want['p-val'] = 2 * ss.t.sf(abs(t), n - 2) * (1 if tail == 'two-sided' else 0.5)
        a = 0.05 / 2 if tail == 'two-sided' else 0.05
        tt = ss.t.ppf(1 - a, n - 2)
        rc = math.sqrt(tt * tt / (tt * tt + n - 2))
        zr, zc, k = math.atanh(abs(r)) + abs(r) / (2 * (n - 1)), math.atanh(rc), math.sqrt(n - 3)
        if n > 4:
            want['power'] = ss.norm.cdf((zr - zc) * k) + (ss.norm.cdf((-zr - zc) * k) if tail == 'two-sided' else 0)
        try:
            with C.entry_filter('default'):
                got = C.real(CORR).corr(np.array(x), np.array(y), tail=tail, method=self.method)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        row = {k: plain(got[k].iloc[0]) for k in got.columns}
        if not isinstance(row.get('CI95%'), list) or any(abs(float(g) - w) > 0.00502 for g, w in zip(row['CI95%'], ci)):
            return 'interval is %r, specified %r' % (row.get('CI95%'), ci)
        pv = row['p-val']
        if not 0 <= pv <= 1:
            return 'p-value %r' % pv
        return differs(row, want, 1e-7)


class RemoveNa(Shape):
    """Pairs with a missing member are dropped, the others stay in order."""
    prop = 'C17'
    module, fn = CORR, 'remove_none'
    functions = [CORR + ':remove_none']
    name = 'present values'

    def templates(self):
        yield ([],)
        yield (xs(3),)
        yield ([None, X(), NAN, X()],)
        yield ([NAN, None],)

    def gen(self, rng):
        return ([rng.choice([None, NAN, X(), X()]) for _ in range(rng.randint(0, 9))],)

    def spec(self, v):
        return present(v)


def contracts(prop):
    return [Autocor(), MeanError(), SumError(), MedianError(), MedianVif(), Acf('correlation'), Acf('covariance'), AcfRange()] + \
        [Runs(a, t) for a in ('two.sided', 'left.sided', 'right.sided') for t in ('median', 'mean')] + \
        [Revision(), RemoveNa()] + [Table(m) for m in Table.R]


def preload(prop):
    for m in (UTILS, CORR, RUNS):
        C.loader().load(m)
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': BOUND, 'assumptions': [
        'proved for every value of series of at most five entries with the listed missing patterns, longer series are compared at run time',
        'the normal distribution function is an uninterpreted symmetric function shared by code and specification']}
