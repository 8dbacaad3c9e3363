"""C06: object-based ratios.  The specification of each statistic is read off its published name:
three letters per class - source (f/o/a), simple or cluster (s/c/a), matched or unmatched (m/u/a)."""
import math
import re
import numpy as np
from pydv import contract as C, prove as P, spec as S
from pydv.spec import rnd as R, Missing
from pydv.values import STable, ColNames, Root
from .util import call_stat, describe

U = 'metcalcpy.util.'
MODS = {'mode_ratio_statistics': '', 'mode_arearat_statistics': '', 'mode_2d_ratio_statistics': '2d',
        'mode_2d_arearat_statistics': '2d', 'mode_3d_ratio_statistics': '3d', 'mode_3d_volrat_statistics': '3d'}
FLAGS = ['fcst_flag', 'simple_flag', 'matched_flag']


def flags(cls):
    d = {}
    for ch, col, yes, no in ((cls[0], 'fcst_flag', 'f', 'o'), (cls[1], 'simple_flag', 's', 'c'), (cls[2], 'matched_flag', 'm', 'u')):
        if ch == yes:
            d[col] = 1
        elif ch == no:
            d[col] = 0
        elif ch != 'a':
            raise KeyError(cls)
    return d


class View:
    """Class sizes of a table: number of objects, or their summed size."""

    def __init__(self, t, size):
        self.t, self.size = t, size

    def __call__(self, cls):
        f = flags(cls)
        for c in f:
            if not self.t.has(c):
                raise Missing(c)
        return self.t.count(**f) if self.size is None else self.t.where(**f).c(self.size)


def definition(short):
    """short: statistic name without calculate_ / 2d_ / 3d_"""
    m = re.fullmatch(r'(ratio|arearat|volrat)_([foa][sca][mua])_([foa][sca][mua])', short)
    if m:
        return {'ratio': None, 'arearat': 'area', 'volrat': 'volume'}[m.group(1)], lambda n: n(m.group(2)) / n(m.group(3))
    m = re.fullmatch(r'obj([av]?)(hits|misses|fas|csi|pody|far)', short)
    if m:
        size = {'': None, 'a': 'area', 'v': 'volume'}[m.group(1)]
        return size, {
            'hits': lambda n: n('asm') / 2, 'misses': lambda n: n('osu'), 'fas': lambda n: n('fsu'),
            'csi': lambda n: n('asm') / (n('asm') + 2 * n('asu')),
            'pody': lambda n: n('asm') / (n('asm') + 2 * n('osu')),
            'far': lambda n: n('fsu') / (n('fsu') + n('asm') / 2)}[m.group(2)]
    return None


class ModeContract(C.Contract):
    prop = 'C06'
    quick_cases, thorough_cases = 40, 300

    def __init__(self, mod, fn, dim, size, formula, layout=None, tag=''):
        self.mod, self.fn, self.dim, self.size, self.formula, self.layout = mod, fn, dim, size, formula, layout
        self.name = '%s.%s%s' % (mod, fn, tag)
        self.functions = ['%s%s:%s' % (U, mod, fn)]
        if tag:
            self.quick_cases, self.thorough_cases = 10, 40

    def spec(self, t):
        if self.dim:
            if not t.has('object_type'):
                raise Missing('object_type')
            t = t.where(object_type=self.dim)
        return R(self.formula(View(t, self.size)))

    def prove(self):
        f = getattr(C.loader().load(U + self.mod), self.fn)
        nonneg = lambda c: True

        def run(w):
            tab = STable(Root('d', layout=self.layout, nonneg=nonneg), arg=True)
            return f(tab, ColNames(tab) if self.layout is None else np.array(self.layout))

        def spec(w):
            return self.spec(S.SymTable(STable(Root('d', layout=self.layout, nonneg=nonneg))))
        return P.check_contract(self.fn, run, spec, budget=self.budget)

    def cases(self, rng, n):
        full = ['object_id', 'object_type', 'centroid_x'] + FLAGS + [self.size or 'area']
        for i in range(n):
            cols = list(full)
            if self.layout is not None:
                cols = list(self.layout)
            elif i < 5 or rng.random() < 0.08:
                cols.remove((['object_type'] + FLAGS + [self.size or 'area'])[i % 5])
            rng.shuffle(cols)
            rows = []
            p = [rng.choice([0.2, 0.5, 0.5, 0.8, 1.0, 0.0]) for _ in range(3)]
            nan_p = 0.1 if rng.random() < 0.2 else 0
            for j in range(rng.choice([0, 1, 2, 3, 5, 8, 12, 16]) if i > 2 else 6):
                o = {'object_id': 'F%03d' % j, 'centroid_x': rng.uniform(0, 50),
                     'object_type': rng.choice(['2d', '3d', '2d', '3d', 'cluster']) if self.dim else rng.choice(['2d', '3d'])}
                for c, q in zip(FLAGS, p):
                    o[c] = int(rng.random() < q)
                a = rng.choice([0.0, 1.0, 2.0, 16.0, 256.0, float(rng.randint(1, 90)), rng.uniform(0.5, 99)])
                o[self.size or 'area'] = math.nan if rng.random() < nan_p else a
                rows.append([o[c] for c in cols])
            yield {'cols': cols, 'rows': rows, 'filter': rng.choice(['default', 'ignore', 'error']), 'dtype': 'object', 'agg': None}

    def judge(self, case):
        cols = case['cols']
        arr = np.empty((len(case['rows']), len(cols)), dtype=object)
        for i, r in enumerate(case['rows']):
            for j, v in enumerate(r):
                arr[i, j] = v
        want, border = S.conc(self.spec, S.ConcTable(arr, cols))
        if border:
            raise C.SkipCase()
        return call_stat(U + self.mod, self.fn, case, lambda got: None if S.agree(got, want) else
                         'result %r, specified %s' % (got, describe(want)))


def functions():
    """Every object statistic of the current source with a name the specification covers."""
    import ast
    for mod, dim in MODS.items():
        tree = ast.parse(open(C.loader().path(U + mod)).read())
        for node in tree.body:
            if isinstance(node, ast.FunctionDef) and node.name.startswith('calculate_'):
                short = node.name[len('calculate_'):]
                if dim and short.startswith(dim + '_'):
                    short = short[3:]
                d = definition(short)
                if d is not None:
                    yield mod, node.name, dim, d[0], d[1]


BASE_COUNT = 199


def contracts(prop):
    out = []
    for mod, fn, dim, size, formula in functions():
        if 'volrat' in mod:
            full = ['object_id', 'object_type', 'fcst_flag', 'simple_flag', 'matched_flag', 'volume']
            out.append(ModeContract(mod, fn, dim, size, formula, full, '[columns in file order]'))
            out.append(ModeContract(mod, fn, dim, size, formula, full[::-1], '[columns reversed]'))
            for c in full[1:]:
                out.append(ModeContract(mod, fn, dim, size, formula, [x for x in full if x != c], '[no %s]' % c))
        else:
            out.append(ModeContract(mod, fn, dim, size, formula))
    return out


def preload(prop):
    for mod in MODS:
        C.loader().load(U + mod)
        C.real(U + mod)


def info(prop):
    return {'level': 'proof', 'bound': 'object tables of at most 16 objects, any flags, sizes and dimensionality mix, columns absent in turn',
            'assumptions': ['flag columns hold the integers 0 or 1; object type holds text',
                            'volume ratios: proved for the listed column layouts (all columns, reversed, each column absent); no column is named area']}
