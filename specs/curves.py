"""C13: derived curves and significance signs."""
from pydv import contract as C, spec as S
from .shape import Shape, X, xs, Raises, plain

UTILS = 'metcalcpy.util.utils'
SIGN = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'DIFF_SIG': '-', 'SINGLE': '-', 'ETB': ' and '}

# published orientation of the statistics
NO_PERFECT = 'BASER FMEAN FBAR FSTDEV OBAR OSTDEV FRANK_TIES ORANK_TIES RANKS VL1L2_FBAR VL1L2_OBAR VL1L2_FSTDEV VL1L2_OSTDEV VL1L2_FOSTDEV ' \
    'PSTD_BASER PSTD_RESOLUTION PSTD_UNCERTAINTY NBR_UFSS NBR_F_RATE NBR_O_RATE NBR_BASER NBR_FMEAN'.split()
PERFECT_0 = 'POFD FAR ESTDEV MAE MSE BCMSE RMSE E10 E25 E50 E75 E90 EIQR MAD ME2 ME ODDS LODDS VL1L2_MSE VL1L2_RMSE VL1L2_RMSVE PSTD_BRIER ' \
    'PSTD_RELIABILITY NBR_FBS VL1L2_SPEED_ERR NBR_POFD NBR_FAR NBR_ODDS BCRMSE ECNT_ME ECNT_RMSE CRPS ECNT_CRPS ECNT_MAE ECNT_MAE_OERR ' \
    'ECNT_ME_GE_OBS ECNT_ME_LT_OBS'.split()
PERFECT_1 = 'ACC FBIAS PODY PODN CSI GSS HK HSS ORSS EDS SEDS EDI SEDI BAGSS PR_CORR SP_CORR KT_CORR MBIAS ANOM_CORR ANOM_CORR_RAW VL1L2_BIAS ' \
    'VL1L2_CORR PSTD_BSS PSTD_BSS_SMPL NBR_FSS NBR_AFSS VAL1L2_ANOM_CORR NBR_ACC NBR_FBIAS NBR_PODY PSTD_ROC_AUC NBR_PODN NBR_CSI NBR_GSS ' \
    'NBR_HK NBR_HSS ECNT_BIAS_RATIO'.split()
OTHER = ['SOMETHING_ELSE']


class Derived(Shape):
    prop = 'C13'
    module, fn = UTILS, 'calc_derived_curve_value'
    quick_cases, thorough_cases = 80, 600

    def __init__(self, op):
        self.op = op
        self.name = 'derived value %s' % op
        self.functions = [UTILS + ':calc_derived_curve_value']

    def templates(self):
        op = self.op
        for n in (1, 2, 3):
            yield xs(n), xs(n), op
        yield xs(2), xs(3), op
        yield xs(1), [], op
        yield None, xs(2), op
        yield xs(2), None, op
        yield [X(), None], xs(2), op
        yield xs(2), [None, X()], op

    def gen(self, rng):
        n = rng.randint(1, 9)
        a, b = xs(n), xs(n)
        if rng.random() < 0.2:
            rng.choice([a, b])[rng.randrange(n)] = None
        return a, b, self.op

    def value(self, rng, leaf):
        return 0.0 if rng.random() < 0.08 else super().value(rng, leaf)

    def spec(self, a, b, op):
        if a is None or b is None or len(a) != len(b) or any(x is None for x in a + b):
            return None
        if op in ('DIFF', 'DIFF_SIG'):
            return [x - y for x, y in zip(a, b)]
        if op == 'SINGLE':
            return list(a)
        div = b if op == 'RATIO' else a
        if any(d == 0 for d in div):
            return None
        return [x / y if op == 'RATIO' else (x - y) / x for x, y in zip(a, b)]


class Sign(Shape):
    """All statistics of one orientation class."""
    prop = 'C13'
    module, fn = UTILS, 'perfect_score_adjustment'
    whole = True
    quick_cases, thorough_cases = 300, 1500

    def __init__(self, kind, stats):
        self.kind, self.stats = kind, stats
        self.name = 'significance sign: %s' % kind
        self.functions = [UTILS + ':perfect_score_adjustment']

    def templates(self):
        for s in self.stats:
            yield X(), X(), s, X(0, 1)
        yield X(), X(), self.stats[0].lower(), X(0, 1)

    def gen(self, rng):
        s = rng.choice(self.stats)
        return X(), X(), rng.choice([s, s.lower(), s.capitalize()]), X(0, 1)

    def spec(self, a, b, stat, p):
        if self.kind == 'no perfect score':
            return None
        if self.kind == 'no orientation':
            return p
        ideal = 0 if self.kind == 'perfect score 0' else 1
        return -p if abs(a - ideal) > abs(b - ideal) else p


class Name(Shape):
    prop = 'C13'
    module, fn = UTILS, 'get_derived_curve_name'
    name = 'derived curve name'
    functions = [UTILS + ':get_derived_curve_name', UTILS + ':is_derived_point']
    proof = False
    quick_cases, thorough_cases = 500, 1000

    def templates(self):
        yield ([],)
        yield (['only'],)
        names = ['GFS TMP ME', 'a', '', 'SS', 'DIFF(a-b)', 'model_1 850 HSS', 'x and y']
        for op in list(SIGN) + [None]:
            for a in names:
                for b in names:
                    yield ([a, b] + ([op] if op else []),)

    def call(self, mod, args):
        r = mod.get_derived_curve_name(*args)
        if len(args[0]) < 2:
            return [r]
        return [r, bool(mod.is_derived_point([r, 'x'])), bool(mod.is_derived_point(('b', r))),
                bool(mod.is_derived_point(['model', '850'])), bool(mod.is_derived_point(None))]

    def spec(self, names):
        if len(names) < 2:
            return ['']
        op = names[2] if len(names) == 3 else 'DIFF'
        return ['%s(%s%s%s)' % (op, names[0], SIGN[op], names[1]), True, True, False, False]


def contracts(prop):
    return [Derived(o) for o in ('DIFF', 'DIFF_SIG', 'RATIO', 'SS', 'SINGLE')] + \
        [Sign('no perfect score', NO_PERFECT), Sign('perfect score 0', PERFECT_0), Sign('perfect score 1', PERFECT_1),
         Sign('no orientation', OTHER), Name()]


def preload(prop):
    C.loader().load(UTILS)
    C.real(UTILS)


def info(prop):
    return {'level': 'proof', 'bound': 'curves of at most 9 values, all listed statistics, names from a list of awkward strings',
            'assumptions': ['curves: every value for lengths 1 to 3 (the element-wise comprehension is unrolled)',
                            'orientation table of the statistics as published (specs/curves.py)',
                            'equivalence-testing curves are specified by C15']}
