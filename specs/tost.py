"""C15: paired equivalence test."""
import math
import statistics
from pydv import contract as C, spec as S, models as M, values as V
from .shape import Shape, X, plain

UTILS = 'metcalcpy.util.utils'
TOST = 'metcalcpy.util.tost_paired'
KEYS = ('dif', 't', 'p', 'degrees_of_freedom', 'ci_tost', 'ci_ttest', 'eqbound', 'xlim', 'combined_outcome', 'test_outcome', 'tost_outcome')


def cdf(x, df):
    """Student t distribution function."""
    if S._sym(x, df):
        return M.MODELS['scipy.stats'].t.cdf(x, df)
    import scipy.stats
    return S.Q(float(scipy.stats.t.cdf(float(S.Q.of(x)), float(S.Q.of(df)))), False)


def quantile(p, df):
    if S._sym(p, df):
        return M.MODELS['scipy.stats'].t.ppf(p, df)
    import scipy.stats
    return S.Q(float(scipy.stats.t.ppf(float(S.Q.of(p)), float(S.Q.of(df)))), False)


def lesser(a, b):
    if S._sym(a, b):
        return V.smin(a, b)
    return a if a <= b else b


def larger(a, b):
    if S._sym(a, b):
        return V.smax(a, b)
    return b if a <= b else a


class Tost(Shape):
    prop = 'C15'
    fn = 'tost_paired'
    whole = True
    quick_cases, thorough_cases = 250, 1500
    budget = 100
    max_paths = 20000
    edge_raise = True
    tol = 1e-6

    def __init__(self, module, alpha):
        self.module, self.alpha = module, alpha
        self.name = 'equivalence test (%s), alpha %s' % (module.split('.')[-1], 'given' if alpha else 'by default')
        self.functions = [module + ':tost_paired', module + ':pt', module + ':qt']

    def templates(self):
        a = [X(lo=2, kind='int', hi=60), X(), X(), X(lo=0, strict=True), X(lo=0, strict=True), X(lo=-1, hi=1), X(), X()]
        yield tuple(a + ([X(lo=0, hi=1, strict=True)] if self.alpha else []))

    def gen(self, rng):
        if rng.random() < 0.5:
            return self.tmpl[0]
        n, m1, m2 = rng.randint(2, 40), rng.uniform(-3, 3), rng.uniform(-3, 3)
        s1, s2, r = rng.uniform(0.1, 2), rng.uniform(0.1, 2), rng.uniform(-0.9, 0.9)
        lo, hi = -rng.choice([0.001, 0.5, 1, 4]), rng.choice([0.001, 0.5, 1, 4])
        a = [n, m1, m2, s1, s2, r, lo, hi]
        if self.alpha:
            k = rng.random()
            if k < 0.25:        # alpha equal to the p-value of the t test, as floating point gives it
                sd = math.sqrt(s1 * s1 + s2 * s2 - 2 * r * s1 * s2)
                t = (m1 - m2) / (sd / math.sqrt(n))
                import scipy.stats
                alpha = float(2 * (1 - scipy.stats.t.cdf(abs(t), n - 1)))
                a.append(alpha if 0 < alpha < 1 else 0.05)
            else:
                a.append(rng.choice([0.01, 0.05, 0.1, 0.5, 0.9]))
        if rng.random() < 0.15:     # p-values that underflow to zero
            a[1] = 1e6
        return tuple(a)

    def pre(self, n, m1, m2, s1, s2, r, lo, hi, alpha=None):
        if alpha is not None and not (alpha > 0 and alpha < 1):
            return False
        if s1 <= 0 or s2 <= 0:
            return False
        return s1 * s1 + s2 * s2 - 2 * r * s1 * s2 > 0      # the differences vary

    def out(self, r, args):
        r = plain(r)
        return [r[k] for k in KEYS]

    def spec(self, n, m1, m2, s1, s2, r, lo, hi, alpha=None):
        if alpha is None:
            alpha = 0.05 if S._sym(n, m1) else S.Q.of(0.05)
        sd = S.sqrt(s1 * s1 + s2 * s2 - 2 * r * s1 * s2)
        se = sd / S.sqrt(n)
        df = n - 1
        d = m1 - m2
        p = 2 * (1 - cdf(abs(d / se), df))
        t1, t2 = (d - lo * sd) / se, (d - hi * sd) / se
        p1, p2 = 1 - cdf(t1, df), cdf(t2, df)
        pe = larger(p1, p2)
        q, q2 = quantile(1 - alpha, df) * se, quantile(1 - alpha / 2, df) * se
        l90, u90 = d - q, d + q
        wide = larger(u90 - l90, hi * sd - lo * sd) / 10
        R = S.rnd
        diff, eqv = p <= alpha, pe <= alpha
        combined = ('diff_' if diff else 'no_diff_') + ('eqv' if eqv else 'no_eqv')
        return [R(d), [R(t1), R(t2)], [R(p1), R(p2)], df, [R(l90), R(u90)], [R(d - q2), R(d + q2)], [R(lo * sd), R(hi * sd)],
                [R(lesser(l90, lo * sd) - wide), R(larger(u90, hi * sd) + wide)], combined,
                'significant' if p < alpha else 'non-significant', 'significant' if pe < alpha else 'non-significant']


class Constant(Shape):
    """Differences that do not vary: no test is possible, the difference itself is still reported."""
    prop = 'C15'
    module, fn = UTILS, 'tost_paired'
    name = 'equivalence test of constant differences'
    functions = [UTILS + ':tost_paired']
    quick_cases, thorough_cases = 60, 300

    def templates(self):
        s = X(lo=0, strict=True, pool=[0.5, 1.0, 2.0, 3.5])
        yield X(lo=2, kind='int', hi=60), X(), X(), s, s, 1, X(), X()

    def out(self, r, args):
        return [plain(r[k]) for k in ('dif', 't', 'p', 'combined_outcome', 'test_outcome', 'tost_outcome', 'ci_ttest')]

    def spec(self, n, m1, m2, s1, s2, r, lo, hi):
        d = S.rnd(m1 - m2)
        return [d, [None, None], [None, None], 'none', 'none', 'none', [d, d]]


class Curve(C.Contract):
    """The equivalence curve of two series."""
    prop = 'C15'
    proof = False
    name = 'equivalence of two curves'
    functions = [UTILS + ':calc_derived_curve_value', UTILS + ':tost_paired']
    bound = 'two series of 5 to 12 random numbers'
    quick_cases, thorough_cases = 25, 150

    def cases(self, rng, n):
        for _ in range(n):
            k = rng.randint(5, 12)
            a = [round(rng.uniform(0, 4), 3) for _ in range(k)]
            yield {'a': a, 'b': [round(x + rng.gauss(0, 1) * rng.choice([0.001, 0.1, 1]), 4) for x in a]}

    def judge(self, case):
        a, b = case['a'], case['b']
        ma, mb = statistics.fmean(a), statistics.fmean(b)
        sa, sb = statistics.stdev(a), statistics.stdev(b)
        if not sa or not sb:
            raise C.SkipCase('constant series')
        r = sum((x - ma) * (y - mb) for x, y in zip(a, b)) / (len(a) - 1) / sa / sb
        S.Border.hit = False
        t = Tost(UTILS, False)
        args = [S.Q(len(a))] + [S.Q(v, False) for v in (ma, mb, sa, sb, r)] + [S.Q.of(-0.001), S.Q.of(0.001)]
        if not t.pre(*args):
            raise C.SkipCase('constant differences')
        want = t.spec(*args)
        if S.Border.hit:
            raise C.SkipCase('too close to call')
        from .shape import differs
        try:
            with C.entry_filter('default'):
                got = t.out(C.real(UTILS).calc_derived_curve_value(list(a), list(b), 'ETB'), None)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        return differs(got, want, 1e-6)


def student(q, df, shift):
    """P((Z + shift) / s <= q), Z standard normal and df * s * s chi-square with df degrees of freedom, by integration over s."""
    n, top = 4000, 1 + 9 / math.sqrt(df)
    norm = math.log(2) + df / 2 * math.log(df / 2) - math.lgamma(df / 2)
    total = 0.0
    for k in range(n):
        x = top * (k + 0.5) / n
        total += math.exp(norm + (df - 1) * math.log(x) - df * x * x / 2) * 0.5 * math.erfc(-(q * x - shift) / math.sqrt(2))
    return total * top / n


class Student(C.Contract):
    """The distribution functions the tests are built on, against the definition of the distribution."""
    prop = 'C15'
    proof = False
    name = 'distribution functions'
    functions = [m + f for m in (UTILS, TOST) for f in (':pt', ':qt')]
    bound = 'one to sixty degrees of freedom, shift within 3, compared to 1e-5'
    quick_cases, thorough_cases = 40, 300

    def cases(self, rng, n):
        for _ in range(n):
            yield {'module': rng.choice([UTILS, TOST]), 'q': rng.choice([0.0, round(rng.uniform(-4, 4), 3)]), 'p': round(rng.uniform(0.02, 0.98), 3),
                   'df': rng.choice([1, 2, 60, rng.randint(3, 59)]), 'shift': rng.choice([0, 0, round(rng.uniform(-3, 3), 2)])}

    def judge(self, case):
        mod = C.real(case['module'])
        q, p, df, shift = case['q'], case['p'], case['df'], case['shift']
        want = student(q, df, shift)
        for got, w, what in ((mod.pt(q, df, shift), want, 'P(X <= q)'), (mod.pt(q, df, ncp=shift, lower_tail=False), 1 - want, 'P(X > q)'),
                             (student(float(mod.qt(p, df, shift)), df, shift), p, 'P(X <= quantile)')):
            if not abs(float(got) - w) < 1e-5:
                return '%s is %r instead of %r' % (what, float(got), w)
        return None


def contracts(prop):
    return [Tost(m, a) for m in (UTILS, TOST) for a in (True, False)] + [Constant(), Curve(), Student()]


def preload(prop):
    for m in (UTILS, TOST):
        C.loader().load(m)
        C.real(m)


def info(prop):
    return {'level': 'proof', 'bound': Curve.bound, 'assumptions': [
        'the Student t distribution function and its quantiles are uninterpreted, symmetric functions shared by code and specification '
        '(scipy.stats is trusted there; compared with the definition at run time)', 'deviations positive, correlation within [-1, 1], alpha strictly between 0 and 1, two to sixty pairs']}
