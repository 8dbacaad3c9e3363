"""C14: rounding, column sums, row filters, permutations."""
import itertools
import math
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V
from pydv.values import STable, ColNames, Root, SReal
from .shape import Shape, X, Arr, xs, differs, plain, merge
from .util import table_cases, build, same

UTILS = 'metcalcpy.util.utils'
NAN = math.nan


class Round(Shape):
    prop = 'C14'
    module, fn = UTILS, 'round_half_up'
    name = 'decimal rounding'
    functions = [UTILS + ':round_half_up']
    whole = True
    quick_cases, thorough_cases = 600, 5000
    tol = 1e-12

    def templates(self):
        for d in range(-2, 11):
            for kind in ('py', 'np', 'int'):
                yield X(kind=kind), d
        yield (X(),)
        yield None, 3

    def gen(self, rng):
        return X(kind=rng.choice(['py', 'py', 'int'])), rng.randint(-2, 10)

    def value(self, rng, leaf):
        k = rng.random()
        if leaf.kind == 'int':
            return rng.randint(-500, 500)
        if k < 0.3:
            return rng.randint(-80, 80) / 16
        if k < 0.5:
            return rng.randint(-4000, 4000) / 1024
        return rng.uniform(-3, 3) * 10 ** rng.randint(-6, 4)

    def spec(self, x, d=0):
        if x is None:
            return None
        if isinstance(d, S.Q):
            d = int(d.v)
        k = 10 ** d if d >= 0 else S_frac(d)
        if V.cur() is not None:
            return V.mk(V.T.div(V.term(V.floor(x * k + S.T_half(), 'int')), V.T.const(k)), 'py')
        return rnd_any(x, d)


def S_frac(d):
    from fractions import Fraction
    return Fraction(1, 10 ** -d)


def rnd_any(x, d):
    from fractions import Fraction
    k = Fraction(10) ** d
    y = x.v * k + Fraction(1, 2)
    fl = math.floor(y)
    if not x.ex or d < 0:
        if min(y - fl, fl + 1 - y) < max(Fraction(1, 10 ** 9), abs(y) / 10 ** 12):
            S.Border.hit = True
    return S.Q(Fraction(fl) / k, False)


class ColumnSum(C.Contract):
    """Any table: the total of the present cells of a named column."""
    prop = 'C14'
    functions = [UTILS + ':sum_column_data_by_name', UTILS + ':column_data_by_name']
    quick_cases, thorough_cases = 150, 800

    def __init__(self, keep):
        self.keep = keep
        self.name = 'column sum, missing cells %s' % ('removed' if not keep else 'kept')

    def prove(self):
        f = C.loader().load(UTILS).sum_column_data_by_name

        def run(w):
            t = STable(Root('d'), arg=True)
            return f(t, ColNames(t), 'b') if not self.keep else f(t, ColNames(t), 'b', rm_none=False)

        def spec(w):
            t = S.SymTable(STable(Root('d')))
            v = t.c('b')
            if self.keep and t.partial('b'):
                return None
            return v
        return P.check_contract(self.name, run, spec)

    def concretise(self, env, benv, extra):
        v = env.get(('sum', 'd', (), ('b',), 'b^1', '1'), 1.0)
        for cells in ([v], [NAN], [v, NAN], []):
            yield {'cols': ['a', 'b'], 'rows': [[5.0, x] for x in cells], 'agg': None, 'filter': extra or 'default', 'dtype': 'float'}

    def cases(self, rng, n):
        return table_cases(rng, n, ['a', 'b', 'bb'], 'sums', None)

    def judge(self, case):
        arr, cols = build(case)
        want, border = S.conc(lambda t: None if self.keep and t.partial('b') else t.c('b'), S.ConcTable(np.array(case['rows'], dtype=float).reshape(
            len(case['rows']), len(case['cols'])), case['cols']))
        f = C.real(UTILS).sum_column_data_by_name
        a0 = arr.copy()
        if arr.dtype == object and self.keep:
            pass
        try:
            with C.entry_filter(case['filter']):
                got = f(arr, cols, 'b') if not self.keep else f(arr, cols, 'b', False)
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if not same(arr, a0):
            return 'the table was modified'
        return None if S.agree(got, want) else 'sum %r, specified %r' % (got, want)


class Total(ColumnSum):
    functions = [UTILS + ':get_total_values']

    def __init__(self, agg):
        self.agg, self.keep = agg, False
        self.name = 'pair count used for normalisation (aggregation=%s)' % agg

    def prove(self):
        f = C.loader().load(UTILS).get_total_values

        def run(w):
            t = STable(Root('d'), arg=True)
            return f(t, ColNames(t), self.agg)
        return P.check_contract(self.name, run, lambda w: S.SymTable(STable(Root('d'))).c('total') if self.agg else 1)

    def concretise(self, env, benv, extra):
        yield {'cols': ['a', 'total'], 'rows': [[5.0, 7.0], [1.0, 2.0]], 'agg': None, 'filter': 'default', 'dtype': 'float'}
        yield {'cols': ['a'], 'rows': [[5.0]], 'agg': None, 'filter': 'default', 'dtype': 'float'}

    def cases(self, rng, n):
        return table_cases(rng, n, ['a', 'total'], 'sums', None)

    def judge(self, case):
        arr, cols = build(case)
        want = S.evaluate(lambda: S.ConcTable(np.array(case['rows'], dtype=float).reshape(len(case['rows']), len(case['cols'])),
                                              case['cols']).c('total')) if self.agg else 1
        got = C.real(UTILS).get_total_values(arr, cols, self.agg)
        return None if S.agree(got, want) else 'pair count %r, specified %r' % (got, want)


FILTERS = [{'fcst_flag': 1}, {'fcst_flag': 1, 'simple_flag': 0}, {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}, {'object_type': '3d'},
           {'object_type': '2d', 'matched_flag': 0}, {}]


class RowFilter(C.Contract):
    """Any object table: exactly the rows equal to every requested value."""
    prop = 'C14'
    functions = [UTILS + ':column_data_by_name_value', UTILS + ':nrow_column_data_by_name_value']
    quick_cases, thorough_cases = 150, 800

    def __init__(self, flt):
        self.flt = flt
        self.name = 'row filter %s' % (sorted(flt.items()),)

    def prove(self):
        m = C.loader().load(UTILS)
        cols = list(self.flt) + ['area']
        total = None
        for present in [None] + list(self.flt):
            ass = [(('b', ('present', 'd', c)) if c != present else ('not', ('b', ('present', 'd', c)))) for c in cols]

            def run(w):
                t = STable(Root('d'), arg=True)
                n = m.nrow_column_data_by_name_value(t, ColNames(t), dict(self.flt))
                r = m.column_data_by_name_value(t, ColNames(t), dict(self.flt))
                if isinstance(r, STable):
                    return [n, r.nrows(), S.evaluate(lambda: S.SymTable(r).c('area'))]
                return [n]

            def spec(w, present=present):
                if present is not None:
                    return [None]
                t = S.SymTable(STable(Root('d')))
                return [t.count(**self.flt), t.count(**self.flt), S.evaluate(lambda: t.where(**self.flt).c('area'))]
            r = P.check_contract(self.name, run, spec, ass)
            total = r if total is None else merge(total, r)
        return total

    def concretise(self, env, benv, extra):
        rng = __import__('random').Random(5)
        yield from itertools.islice(self.cases(rng, 20), 20)

    def cases(self, rng, n):
        names = ['object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'area']
        for i in range(n):
            k = rng.choice([0, 1, 3, 8, 15]) if i else 0
            rows = [[rng.choice(['2d', '3d']), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), rng.randint(1, 99) / 4] for _ in range(k)]
            order = list(range(5))
            rng.shuffle(order)
            yield {'cols': [names[j] for j in order], 'rows': [[r[j] for j in order] for r in rows]}

    def judge(self, case):
        m = C.real(UTILS)
        arr = np.empty((len(case['rows']), 5), dtype=object)
        for i, r in enumerate(case['rows']):
            arr[i] = r
        a0 = arr.copy()
        cols = np.array(case['cols'])
        keep = [r for r in case['rows'] if all(r[case['cols'].index(k)] == v for k, v in self.flt.items())]
        got = m.column_data_by_name_value(arr, cols, dict(self.flt))
        if not same(arr, a0):
            return 'the table was modified'
        if [list(x) for x in got] != [list(x) for x in keep]:
            return 'filter keeps %d rows, specified %d' % (len(got), len(keep))
        n = m.nrow_column_data_by_name_value(arr, cols, dict(self.flt))
        if n != len(keep):
            return 'row count %r, specified %d' % (n, len(keep))
        drop = cols[cols != list(self.flt)[0]] if self.flt else None
        if drop is not None and m.nrow_column_data_by_name_value(arr[:, cols != list(self.flt)[0]], drop, dict(self.flt)) is not None:
            return 'an absent flag column is not reported as missing'
        return None


class Column(Shape):
    prop = 'C14'
    module, fn = UTILS, 'column_data_by_name'
    name = 'column values by name'
    functions = [UTILS + ':column_data_by_name']
    quick_cases = 100

    def templates(self):
        names = ['a', 'total', 'b']
        for rows in ([[X(), X(), X()], [X(), X(), X()]], [[X(), NAN, X()], [X(), X(), X()], [NAN, X(), X()]], [[X(), NAN, X()]]):
            for rm in (False, True):
                for c in ('total', 'zz'):
                    yield Arr(rows), Arr(names), c, rm

    def pre(self, rows, names, c, rm):
        return True

    def spec(self, rows, names, c, rm):
        if c not in names:
            return None
        v = [r[names.index(c)] for r in rows]
        return [x for x in v if not (isinstance(x, float) and x != x)] if rm else v


class Permutations(C.Contract):
    """Every combination exactly once (values are opaque; all shapes up to the bound)."""
    prop = 'C14'
    proof = False
    functions = [UTILS + ':create_permutations_mv', UTILS + ':create_permutations']
    quick_cases = thorough_cases = 1

    def __init__(self, what):
        self.what = what
        self.name = 'permutations of a %s' % what

    def cases(self, rng, n):
        for sizes in itertools.chain.from_iterable(itertools.product(range(0 if self.what == 'dictionary' else 1, 4), repeat=k) for k in range(0, 5)):
            yield {'sizes': list(sizes)}

    def judge(self, case):
        m = C.real(UTILS)
        lists = [['v%d_%d' % (i, j) for j in range(k)] for i, k in enumerate(case['sizes'])]
        if self.what == 'product':
            got = [tuple(x) for x in m.create_permutations([list(x) for x in lists])]
            used = lists
        elif self.what == 'dictionary':
            arg = {'k%d' % i: list(x) for i, x in enumerate(lists)}
            got = m.create_permutations_mv(arg, 0)
            if arg != {'k%d' % i: list(x) for i, x in enumerate(lists)}:
                return 'modifies its argument'
            used = [x for x in lists if x]
        else:
            arg = [list(x) for x in lists]
            got = m.create_permutations_mv(arg, 0)
            if arg != lists:
                return 'modifies its argument'
            used = lists
        if not used and self.what != 'product':
            return None if got == [] else 'combinations of nothing: %r' % (got,)
        if self.what != 'product' and len(used) == 1:
            return None if list(got) == used[0] else 'a single list gives %r' % (got,)
        want = sorted(itertools.product(*used))
        if sorted(tuple(x) for x in got) != want:
            return '%d combinations, specified %d (or not the right ones)' % (len(got), len(want))
        return None


def contracts(prop):
    return [Round(), ColumnSum(False), ColumnSum(True), Total(True), Total(False), Column()] + [RowFilter(f) for f in FILTERS] + \
        [Permutations(w) for w in ('list', 'dictionary', 'product')]


def preload(prop):
    C.loader().load(UTILS)
    C.real(UTILS)


def info(prop):
    return {'level': 'proof', 'bound': 'permutations: every shape of at most 4 lists of at most 3 values; tables of at most 15 rows',
            'assumptions': ['the column list names every column once', 'permutations are a bounded check (opaque values, all shapes up to the bound)',
                            'values by name: every value for tables of at most 3 rows']}
