"""C01 - C04: every table statistic under contract."""
import math
import numpy as np
from pydv import contract as C, prove as P, spec as S
from pydv.values import STable, ColNames, Root
from . import scores, prob
from .util import table_cases, call_stat, describe, fits

BOUND = ('tables of at most 4 rows with integer, dyadic or random cells, every column absent / all-missing / partly missing in '
         'turn, empty tables, exact rounding ties (totals of 256), entry warning filters default/ignore/error')


class StatContract(C.Contract):
    bound = BOUND

    def __init__(self, st, agg):
        self.st, self.agg, self.prop = st, agg, st.prop
        self.name = '%s.%s%s' % (st.module.split('.')[-1], st.name, '' if agg is None else '[aggregated]' if agg else '[single]')
        self.functions = ['%s:%s' % (st.module, st.name)]

    def nonneg(self, col):
        return col == 'total' or self.st.domain == 'counts'

    def prove(self):
        f = getattr(C.loader().load(self.st.module), self.st.name)
        st, agg = self.st, self.agg

        def run(w):
            tab = STable(Root('d', nonneg=self.nonneg), arg=True)
            return f(tab, ColNames(tab), *([agg] if agg is not None else []))

        def spec(w):
            v = S.SymTable(STable(Root('d', nonneg=self.nonneg)))
            return st.fn(v, agg) if agg is not None else st.fn(v)
        ass = [('not', ('b', ('present', 'd', c))) for c in st.absent]
        return P.check_contract(st.name, run, spec, ass, budget=self.budget)

    def concretise(self, env, benv, extra):
        cols, row = [], []
        for c in self.st.cols + [c for c in ['total'] if c not in self.st.cols]:
            if benv.get(('present', 'd', c), True):
                cols.append(c)
                v = env.get(('sum', 'd', (), (c,), c + '^1', '1'), 1.0)
                row.append(math.nan if benv.get(('allnan', 'd', (), (c,)), False) else v)
        base = {'cols': cols, 'agg': self.agg, 'filter': extra or 'default', 'dtype': 'float'}
        yield dict(base, rows=[row])
        near = [round(x) if x == x else x for x in row]
        yield dict(base, rows=[near])
        if len(cols) < 9:
            yield dict(base, rows=[row], cols=cols + ['another_column_name'], **{}) if False else dict(base, rows=[near], dtype='object')

    def cases(self, rng, n):
        return table_cases(rng, n, self.st.cols, self.st.domain, self.agg, self.st.absent)

    def judge(self, case):
        cols = case['cols']
        if not fits(case, self.nonneg):
            raise C.SkipCase('outside the precondition')
        arr = np.array(case['rows'], dtype=float).reshape(len(case['rows']), len(cols))
        try:
            want, border = S.conc(lambda t: self.st.fn(t, self.agg) if self.agg is not None else self.st.fn(t), S.ConcTable(arr, cols))
        except S.Skip:
            raise C.SkipCase('outside the precondition')
        if border:
            raise C.SkipCase('too close to call')
        return call_stat(self.st.module, self.st.name, case, lambda got: None if S.agree(got, want) else
                         'result %r, specified %s' % (got, describe(want)))


def contracts(prop):
    more = prob.mcts_contracts() if prop == 'C01' else []
    return more + [StatContract(st, a) for st in scores.ALL if st.prop == prop for a in ((False, True) if st.agg else (None,))]


def preload(prop):
    if prop == 'C01':
        prob.preload(prop)
    for st in scores.ALL:
        if st.prop == prop:
            C.loader().load(st.module)
            C.real(st.module)


def info(prop):
    return {'level': 'proof', 'bound': BOUND, 'assumptions': [
        'rows: pair counts (and contingency counts) are non-negative numbers',
        'columns are numeric or missing; every column name occurs at most once']}
