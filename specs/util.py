"""Concrete inputs for the run-time side and the call protocol of table statistics."""
import math
import numpy as np
from pydv import contract as C

NAN = math.nan


def fits(case, nonneg):
    for r in case['rows']:
        for c, v in zip(case['cols'], r):
            if v is not None and v == v and v < 0 and nonneg(c):
                return False
            if c in ('total', 'total_orig') and v is not None and v == v and v != int(v):
                return False
            if v is not None and abs(v) == math.inf:
                return False
    return True


def describe(v):
    return 'missing' if v is None else '%.10g' % float(v) if not isinstance(v, (str, bool)) else repr(v)


def value(rng, col, domain, n):
    """One cell.  n: pair count of the row."""
    k = rng.random()
    if domain == 'counts':
        return float(rng.choice([0, 0, 1, 2, 3]) if k < 0.35 else rng.randint(0, 60))
    if k < 0.08:
        return 0.0
    big = any(x in col for x in ('ff', 'oo', 'rmse', 'var', 'spread', 'sq', 'climo', 'speed')) or col.startswith('uv')
    if k < 0.5:
        v = rng.randint(-8, 24) / 8
    else:
        v = rng.uniform(-3, 3)
    return abs(v) * 3 + 1 if big and rng.random() < 0.85 else v


def consistent(cols, row, rng):
    """Contingency rows: the total is the sum of the cells."""
    cells = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
    if all(c in cols for c in cells) and 'total' in cols:
        row[cols.index('total')] = sum(row[cols.index(c)] for c in cells)
    elif 'total' in cols:
        s = sum(row[cols.index(c)] for c in cells if c in cols)
        row[cols.index('total')] = max(row[cols.index('total')], s)


def table_cases(rng, n, need, domain, agg=None, absent=()):
    need = list(need)
    base = list(dict.fromkeys(need + (['total'] if agg is not None or domain != 'counts' else [])))
    filters = ['default', 'ignore', 'error', 'always']

    def case(cols, rows):
        order = list(range(len(cols)))
        rng.shuffle(order)
        return {'cols': [cols[i] for i in order], 'rows': [[r[i] for i in order] for r in rows], 'agg': agg,
                'filter': rng.choice(filters), 'dtype': rng.choice(['float', 'object'])}

    def rows(cols, k, ties=False):
        out = []
        for _ in range(k):
            tot = float(rng.choice([0, 1, 2, 3, 5, 8, 16, 40])) if not ties else 256.0
            r = [tot if c in ('total', 'total_orig') else float(rng.randint(0, 80)) if ties and domain == 'counts'
                 else value(rng, c, domain, tot) for c in cols]
            if domain == 'counts':
                consistent(cols, r, rng)
                if ties and 'total' in cols and all(c in cols for c in ('fy_oy', 'fn_on')):
                    d = 256.0 - sum(v for c, v in zip(cols, r) if c in ('fy_oy', 'fy_on', 'fn_oy'))
                    if 'fn_on' in cols and d >= 0:
                        r[cols.index('fn_on')] = d
                        r[cols.index('total')] = 256.0
            elif agg and rng.random() < 0.7:
                r = [v if c in ('total', 'total_orig') else v * tot for c, v in zip(cols, r)]
            out.append(r)
        return out

    extra = ['another_column_name', 'fcst_lead']
    # one special case per column, then random ones
    for c in base:
        cols = [x for x in base if x != c] + extra
        yield case(cols, rows(cols, 2))
        cols = base + extra
        rs = rows(cols, 2)
        for r in rs:
            r[cols.index(c)] = NAN
        yield case(cols, rs)
        rs = rows(cols, 3)
        rs[1][cols.index(c)] = NAN
        yield case(cols, rs)
        rs = rows(cols, 2)
        for r in rs:
            r[cols.index(c)] = 0.0
            if domain == 'counts' and c != 'total':
                consistent(cols, r, rng)
        yield case(cols, rs)
    yield case(base + extra, [])
    yield case(base + extra, [[0.0] * (len(base) + 2)])
    for i in range(n):
        cols = base + (extra if rng.random() < 0.6 else [])
        rs = rows(cols, rng.choice([1, 1, 1, 2, 3]), ties=rng.random() < 0.2)
        if rng.random() < 0.1 and len(rs) > 1:
            rs[rng.randrange(len(rs))][rng.randrange(len(base))] = NAN
        yield case(cols, rs)


def same(a, b):
    """Equality of arrays / results with missing values equal to themselves."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, 'equals') and hasattr(b, 'equals'):
        return list(a.columns) == list(b.columns) and a.equals(b)
    if a is None or b is None:
        return a is b
    try:
        return a == b or (a != a and b != b)
    except Exception:
        return False


def build(case):
    cols = np.array(case['cols'])
    rows = case['rows']
    if case['dtype'] == 'object':
        arr = np.empty((len(rows), len(case['cols'])), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                arr[i, j] = None if v is not None and v != v and (i + j) % 2 else v
    else:
        arr = np.array(rows, dtype=float).reshape(len(rows), len(case['cols']))
    return arr, cols


def call_stat(module, name, case, check):
    """Call the real statistic; None or what went wrong."""
    f = getattr(C.real(module), name)
    arr, cols = build(case)
    a0, c0 = arr.copy(), cols.copy()
    try:
        with C.entry_filter(case['filter']):
            got = f(arr, cols, *([case['agg']] if case.get('agg') is not None else []))
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, e)
    if not same(arr, a0) or not same(cols, c0):
        return 'the caller\'s table or column list was modified'
    return check(got)
