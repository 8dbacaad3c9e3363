"""C08 (finite number or missing, never an exception) and C09 (depends only on its arguments, leaves
them intact) for every statistic over a table."""
import ast
import glob
import math
import os
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V, world as W
from pydv.values import STable, ColNames, Root, SReal
from . import scores, modes, prob
from .util import table_cases, build, same, describe

U = 'metcalcpy.util.'
VOL = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'volume']


def statistics():
    """(module, function, takes aggregation, argument list) of every statistic over (table, columns) in the current source."""
    out = []
    for f in sorted(glob.glob(os.path.join(C.REPO, 'metcalcpy', 'util', '*_statistics.py'))):
        m = os.path.basename(f)[:-3]
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith('_'):
                a = [x.arg for x in n.args.args]
                if a in (['input_data', 'columns_names'], ['input_data', 'columns_names', 'aggregation']):
                    if (m, n.name) != ('ctc_statistics', 'calculate_eclv'):
                        out.append((m, n.name, len(a) == 3))
    return out


_known = {}
for _s in scores.ALL:
    _known[(_s.module.split('.')[-1], _s.name)] = _s


def columns(m, fn):
    st = _known.get((m, fn))
    if st is not None:
        return list(st.cols), st.domain, st.absent
    if m.startswith('mode_'):
        return ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'volume' if 'volrat' in m else 'area'], 'objects', ()
    if m == 'pstd_statistics':
        return (['oy_i', 'on_i', 'total'] if fn in ('calculate_pstd_ni', 'calculate_pstd_calibration', 'calculate_pct_total')
                else prob.layout(['1', '2'])), 'bins', ()
    if m == 'mcts_statistics':
        return prob.Mcts(2, [(1, 1), (1, 2), (2, 1), (2, 2)]).layout(), 'mcts', ()
    cols = []
    same_mod = [s for (mm, _n), s in _known.items() if mm == m]
    for s in same_mod:
        cols += [c for c in s.cols if c not in cols]
    return cols or ['total'], 'sums', ()


def layouts(m, fn):
    """Concrete column layouts for statistics that walk over the column list (None: any table)."""
    if 'volrat' in m:
        return [VOL, VOL[::-1]] + [[x for x in VOL if x != c] for c in VOL[1:]]
    if m == 'pstd_statistics' and fn not in ('calculate_pstd_ni', 'calculate_pstd_calibration', 'calculate_pct_total'):
        full = prob.layout(['1', '2'])
        return [prob.layout(['1']), full, [c for c in full if c != 'o_bar'], [c for c in full if c != 'oy_i2'], [c for c in full if not c.startswith('thresh')],
                ['total']]
    if m == 'mcts_statistics':
        full = prob.Mcts(2, [(1, 1), (1, 2), (2, 1), (2, 2)]).layout()
        return [full] + [[c for c in full if c != d] for d in ('ec_value', 'n_cat', 'fi_oj_0')]
    return [None]


def first(m):
    return prob.Mcts(2, [(1, 1), (1, 2), (2, 1), (2, 2)]).first() if m == 'mcts_statistics' else None


class Base(C.Contract):
    def __init__(self, m, fn, agg):
        self.m, self.fn, self.agg = m, fn, agg
        self.name = '%s.%s%s' % (m, fn, '' if agg is None else '[aggregated]' if agg else '[single]')
        self.functions = ['%s%s:%s' % (U, m, fn)]
        self.cols, self.domain, self.absent = columns(m, fn)

    def roots(self):
        for lay in layouts(self.m, self.fn):
            yield lay, (lambda lay=lay: Root('d', layout=lay, first=first(self.m)))

    def call(self, f, tab, lay):
        return f(tab, ColNames(tab) if lay is None else np.array(lay), *([self.agg] if self.agg is not None else []))

    def merge(self, results):
        r0 = results[0]
        for r in results[1:]:
            r0.obligations += r.obligations
            r0.discharged += r.discharged
            r0.paths += r.paths
            r0.undecided += r.undecided
            r0.refuted += r.refuted
            r0.assumptions |= r.assumptions
            for k, v in r.backends.items():
                r0.backends[k] = r0.backends.get(k, 0) + v
            for k, v in r.cover.items():
                r0.cover[k] += v
            if getattr(r, 'soft', None):
                r0.soft = getattr(r0, 'soft', []) + r.soft
        return r0

    def concretise(self, env, benv, extra):
        cols, row = [], []
        for c in self.cols + [c for c in ['total'] if c not in self.cols]:
            if benv.get(('present', 'd', c), True):
                cols.append(c)
                v = env.get(('first', 'd', (), c), env.get(('sum', 'd', (), (c,), c + '^1', '1'), 1.0))
                row.append(math.nan if benv.get(('allnan', 'd', (), (c,)), False) else v)
        mode = extra if extra in ('default', 'error', 'ignore') else 'default'
        if self.domain in ('objects', 'mcts'):
            return
        base = {'cols': cols, 'agg': self.agg, 'filter': mode, 'dtype': 'float'}
        yield dict(base, rows=[row])
        yield dict(base, rows=[[round(x) if x == x else x for x in row]])

    def tables(self, rng, n):
        if self.domain == 'objects':
            d = modes.definition('arearat_fsa_asa')
            mc = modes.ModeContract(self.m, self.fn, '2d' if '2d' in self.m else '3d' if '3d' in self.m else '', 'volume' if 'volrat' in self.m else 'area', d[1])
            for c in mc.cases(rng, n):
                if rng.random() < 0.1 and c['rows']:
                    j = rng.randrange(len(c['cols']))
                    for r in c['rows']:
                        r[j] = math.nan
                yield c
        elif self.domain == 'mcts':
            for drop in (None, 'ec_value', 'n_cat', 'fi_oj_2'):
                for c in prob.Mcts(2, [(1, 1), (1, 2), (2, 1), (2, 2)], drop).cases(rng, n // 3 + 1):
                    yield c
        elif self.domain == 'bins' and len(self.cols) > 3:
            for cols in (prob.layout(['1', '2', '3']), prob.layout(['1', '2']), [c for c in prob.layout(['1', '2']) if c != 'o_bar'],
                         [c for c in prob.layout(['1', '2']) if c != 'on_i1'], ['total', 'o_bar'], ['total']):
                ids = [c[8:] for c in cols if c.startswith('thresh_i')] or ['1']
                for c in prob.PstdContract('calculate_pstd_brier', ids, cols, '').cases(rng, n // 5 + 1):
                    if rng.random() < 0.1:
                        c['rows'] = []
                    yield c
        else:
            yield from table_cases(rng, n, self.cols, 'counts' if self.domain == 'bins' else self.domain, self.agg, self.absent)
            for c in table_cases(rng, n // 3, self.cols, 'sums', self.agg, self.absent):
                yield c


class Total(Base):
    prop = 'C08'
    quick_cases, thorough_cases = 20, 200

    def prove(self):
        f = getattr(C.loader().load(U + self.m), self.fn)
        out = []
        for lay, root in self.roots():
            def post(w, res, got):
                if got is None or isinstance(got, SReal) or (V.is_num(got) and not V.issp(got)):
                    res.ok('direct')
                    return
                mv = P.feasible_model(w.pc)
                if mv == 'unsat':
                    res.ok('z3')
                elif mv is None:
                    res.unknown('may give %r' % (got,))
                else:
                    res.refute('%s gives %r' % (self.fn, got), mv[0], mv[1], None)
            out.append(P.check_contract(self.fn, lambda w: self.call(f, STable(root(), arg=True), lay), None, budget=self.budget, post=post))
        return self.merge(out)

    def cases(self, rng, n):
        return self.tables(rng, n)

    def judge(self, case):
        f = getattr(C.real(U + self.m), self.fn)
        arr, cols = build(case)
        try:
            with C.entry_filter(case['filter']):
                got = f(arr, cols, *([case['agg']] if case.get('agg') is not None else []))
        except Exception as e:
            return 'raises %s: %s' % (type(e).__name__, e)
        if got is None:
            return None
        try:
            ok = math.isfinite(got) and not isinstance(got, (str, bytes))
        except (TypeError, ValueError):
            ok = False
        if not ok:
            return 'result %r is neither a finite number nor missing' % (got,)
        # absent and entirely missing columns give the same answer (neither counts as zero)
        drop = [j for j, c in enumerate(case['cols']) if len(case['rows']) and all(r[j] is None or r[j] != r[j] for r in case['rows'])]
        if drop and self.domain in ('counts', 'sums') and case['cols'][drop[0]] in self.cols and _uses(self, case['cols'][drop[0]]):
            return 'result %r although column %s has only missing cells' % (got, case['cols'][drop[0]])
        return None


def _uses(c, col):
    st = _known.get((c.m, c.fn))
    if st is None or col not in st.cols:
        return False
    return col != 'total'


class Pure(Base):
    prop = 'C09'
    quick_cases, thorough_cases = 12, 120

    def prove(self):
        f = getattr(C.loader().load(U + self.m), self.fn)
        out = []
        for lay, root in self.roots():
            snap = snapshot()

            def run(w):
                res = []
                for mode in ('default', 'error', 'ignore'):
                    w.warn = mode
                    err = dict(w.np_err)
                    try:
                        res.append(self.call(f, STable(root(), arg=True), lay))
                    except Exception as e:
                        res.append('raises ' + type(e).__name__)
                    if w.np_err != err:
                        w.mutated.append('numpy error state')
                bad = changed(snap)
                if bad:
                    w.mutated.append('module state %s' % bad)
                return res

            def post(w, res, got):
                for g, mode in zip(got[1:], ('error', 'ignore')):
                    P.compare(res, w, g, got[0], '%s: result under warning filter %s equals result under default' % (self.fn, mode), mode)
            out.append(P.check_contract(self.fn, run, None, modes=('default',), budget=self.budget, post=post))
        return self.merge(out)

    def cases(self, rng, n):
        for c in self.tables(rng, n):
            hist = [rng.choice(POOL) for _ in range(rng.choice([0, 1, 2, 4]))]
            yield dict(c, history=[list(h) for h in hist], filters=[rng.choice(['default', 'error', 'ignore', 'always']) for _ in range(2)])

    def judge(self, case):
        f = getattr(C.real(U + self.m), self.fn)
        arr, cols = build(case)
        a0, c0 = arr.copy(), cols.copy()
        agg = [case['agg']] if case.get('agg') is not None else []

        def once(mode, history=()):
            with C.entry_filter(mode):
                err = np.geterr()
                try:
                    for m, fn, ag in history:
                        g = getattr(C.real(U + m), fn, None)
                        if g is None:
                            continue
                        try:
                            g(arr, cols, *([False] if ag else []))
                        except Exception:
                            pass
                    r = f(arr, cols, *agg)
                except Exception as e:
                    r = 'raises ' + type(e).__name__
                if np.geterr() != err:
                    np.seterr(**err)
                    return r, 'numpy error state changed'
            return r, None
        r0, e0 = once('default')
        if not same(arr, a0) or not same(cols, c0):
            return 'the caller\'s table or column list was modified'
        for mode, hist in [(case['filters'][0], ()), (case['filters'][1], case['history']), ('default', case['history'])]:
            r, e = once(mode, hist)
            if e or e0:
                return e or e0
            if not same(r, r0):
                return 'result %r after history %r under warning filter %s, but %r on its own' % (r, hist, mode, r0)
            if not same(arr, a0) or not same(cols, c0):
                return 'the caller\'s table or column list was modified'
        return None


def snapshot():
    """Mutable module-level data of every extracted module."""
    out = {}
    for n, m in C.loader().mods.items():
        for k, v in vars(m).items():
            if k.startswith('__'):
                continue
            if isinstance(v, (list, dict, set, np.ndarray, int, float, str)):
                out[(n, k)] = (id(v) if not isinstance(v, (int, float, str)) else None, repr(v)[:4000])
    return out


def changed(snap):
    for (n, k), (i, r) in snap.items():
        v = vars(C.loader().mods[n]).get(k, None)
        if (i is not None and id(v) != i) or repr(v)[:4000] != r:
            return '%s.%s' % (n, k)
    return None


POOL = []


def contracts(prop):
    cls = {'C08': Total, 'C09': Pure}[prop]
    st = statistics()
    POOL[:] = st
    out = []
    for m, fn, agg in st:
        for a in ((False, True) if agg else (None,)):
            out.append(cls(m, fn, a))
    if prop == 'C09':
        from . import prob as pr
        out += [RocPure(t, asc) for t in pr.THRESH[:3] for asc in (True, False)]
    return out


class RocPure(prob.CtcRoc):
    """The ROC table of contingency rows: same purity obligations."""
    prop = 'C09'
    proof = False
    quick_cases, thorough_cases = 20, 100

    def judge(self, case):
        import pandas as pd
        df = pd.DataFrame(case['rows'], columns=['fy_oy', 'fy_on', 'fn_oy', 'fn_on'])
        df.insert(0, 'fcst_thresh', case['thresh'])
        before = df.copy()
        outs = []
        for mode in ('default', 'error', 'ignore'):
            try:
                with C.entry_filter(mode):
                    r = C.real(U + 'ctc_statistics').calculate_ctc_roc(df, case['asc'])
            except Exception as e:
                r = 'raises ' + type(e).__name__
            outs.append(r)
            if not same(df, before):
                return 'the caller\'s data frame was modified'
        return None if same(outs[0], outs[1]) and same(outs[0], outs[2]) else 'result depends on the warning filter'


def preload(prop):
    for m, _f, _a in POOL:
        C.loader().load(U + m)
        C.real(U + m)


def info(prop):
    return {'level': 'proof',
            'bound': 'tables of at most 4 rows (16 objects), columns absent / all-missing / partly missing in turn, empty tables, negative variances, '
                     'entry warning filters default/ignore/error/always' + ('' if prop == 'C08' else ', histories of at most 4 earlier statistic calls'),
            'assumptions': ['magnitudes stay in the range where floating point does not overflow',
                            'statistics that walk over the column list (volume ratios, probability scores, multi-category score) are proved for the listed layouts']}
