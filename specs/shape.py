"""Contracts of functions on lists, arrays and frames: the shape of the input is fixed by a template,
every number in it is arbitrary.  The same specification judges generated inputs of the real code."""
import copy
import itertools
import math
import numpy as np
from pydv import contract as C, prove as P, spec as S, values as V, world as W, terms as T
from pydv.values import SReal

NAN = math.nan


class X:
    """A number of the template."""
    _n = itertools.count()

    def __init__(self, lo=None, hi=None, strict=False, kind='py', pool=None, name=None):
        self.name = name or 'x%d' % next(X._n)
        self.lo, self.hi, self.strict, self.kind, self.pool = lo, hi, strict, kind, pool


class Arr:
    """numpy array (kind: dtype of a concrete array)."""
    def __init__(self, v, dtype=None):
        self.v, self.dtype = v, dtype


class Frame:
    """pandas DataFrame, {column: list}."""
    def __init__(self, cols, index=None):
        self.cols, self.index = cols, index


class Ser:
    def __init__(self, v):
        self.v = v


class Raises(Exception):
    """The specification wants an exception of one of these types."""
    def __init__(self, *types):
        self.types = types


def xs(n, **k):
    return [X(**k) for _ in range(n)]


def leaves(t):
    if isinstance(t, X):
        yield t
    elif isinstance(t, (list, tuple)):
        for e in t:
            yield from leaves(e)
    elif isinstance(t, dict):
        for e in t.values():
            yield from leaves(e)
    elif isinstance(t, (Arr, Ser)):
        yield from leaves(t.v)
    elif isinstance(t, Frame):
        yield from leaves(t.cols)


def encode(t, env):
    """JSON form of a template with its numbers filled in."""
    if isinstance(t, X):
        v = env[t.name]
        return int(v) if t.kind in ('int', 'npint') else float(v)
    if isinstance(t, list):
        return [encode(e, env) for e in t]
    if isinstance(t, tuple):
        return {'__tuple__': [encode(e, env) for e in t]}
    if isinstance(t, dict):
        return {'__dict__': [[k, encode(v, env)] for k, v in t.items()]}
    if isinstance(t, Arr):
        return {'__arr__': encode(t.v, env), 'dtype': t.dtype}
    if isinstance(t, Ser):
        return {'__ser__': encode(t.v, env)}
    if isinstance(t, Frame):
        return {'__frame__': [[k, encode(v, env)] for k, v in t.cols.items()], 'index': t.index}
    return t


def decode(e, spec):
    """Arguments of the code (spec=False) or of the specification (exact numbers, plain lists)."""
    if isinstance(e, bool) or e is None or isinstance(e, str):
        return e
    if isinstance(e, (int, float)):
        if spec and (not isinstance(e, float) or e == e and abs(e) != math.inf):
            return S.Q(e)
        return e
    if isinstance(e, list):
        return [decode(x, spec) for x in e]
    if '__tuple__' in e:
        return tuple(decode(x, spec) for x in e['__tuple__'])
    if '__dict__' in e:
        return {k: decode(v, spec) for k, v in e['__dict__']}
    if '__arr__' in e:
        v = decode(e['__arr__'], spec)
        return v if spec else np.array(v, dtype=e.get('dtype') or None)
    if '__ser__' in e:
        import pandas as pd
        v = decode(e['__ser__'], spec)
        return v if spec else pd.Series(v)
    if '__frame__' in e:
        import pandas as pd
        d = {k: decode(v, spec) for k, v in e['__frame__']}
        return d if spec else pd.DataFrame(d, index=e.get('index'))
    raise TypeError(e)


def sym(t, spec, w):
    """Symbolic arguments (same variables for code and specification)."""
    if isinstance(t, X):
        v = T.var(('x', t.name), t.kind in ('int', 'npint'))
        return SReal(v, 'py' if spec else t.kind)
    if isinstance(t, list):
        return [sym(e, spec, w) for e in t]
    if isinstance(t, tuple):
        return tuple(sym(e, spec, w) for e in t)
    if isinstance(t, dict):
        return {k: sym(v, spec, w) for k, v in t.items()}
    if isinstance(t, Arr):
        v = sym(t.v, spec, w)
        if spec:
            return v
        if t.dtype is not None and not list(leaves(t)):
            return np.array(v, dtype=t.dtype)
        return obj_array(v)
    if isinstance(t, Ser):
        import pandas as pd
        v = sym(t.v, spec, w)
        return v if spec else pd.Series(v, dtype=object if list(leaves(t)) else None)
    if isinstance(t, Frame):
        import pandas as pd
        d = {k: sym(v, spec, w) for k, v in t.cols.items()}
        if spec:
            return d
        return pd.DataFrame({k: pd.Series(v, dtype=object if list(leaves(t.cols[k])) else None) for k, v in d.items()}, index=t.index)
    return t


def obj_array(v):
    def shp(x):
        return (len(x),) + (shp(x[0]) if len(x) else ()) if isinstance(x, list) else ()
    a = V.SArr(shp(v))
    for i in np.ndindex(a.shape):
        e = v
        for j in i:
            e = e[j]
        a[i] = SReal(e.t, 'np') if isinstance(e, SReal) and e.kind == 'py' else e
    return a


def plain(r):
    """Results as nested lists."""
    if isinstance(r, np.ndarray):
        r = r.view(np.ndarray)
        return plain(r.tolist()) if r.ndim else plain(r.item())
    if isinstance(r, (list, tuple)):
        return [plain(e) for e in r]
    if isinstance(r, dict):
        return {k: plain(v) for k, v in r.items()}
    if type(r).__module__.startswith('pandas'):
        if hasattr(r, 'columns'):
            return {str(c): plain(list(r[c])) for c in r.columns}
        if hasattr(r, 'tolist'):
            return plain(list(r))
    if isinstance(r, np.generic):
        return r.item()
    return r


def snap(a):
    """Copy of the containers, same leaves."""
    if isinstance(a, (list, tuple)):
        return type(a)(snap(x) for x in a)
    if isinstance(a, dict):
        return {k: snap(v) for k, v in a.items()}
    if hasattr(a, 'copy') and not isinstance(a, SReal):
        return a.copy()
    return a


def intact(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(intact(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(intact(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(intact(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if hasattr(a, 'columns'):
        return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(intact(list(a[c]), list(b[c])) for c in a.columns)
    if hasattr(a, 'index') and hasattr(a, 'tolist'):
        return list(a.index) == list(b.index) and intact(list(a), list(b))
    if isinstance(a, SReal):
        return isinstance(b, SReal) and (a is b or a.t is b.t or T.equal(a.t, b.t))
    try:
        return a is b or bool(a == b) or (a != a and b != b)
    except Exception:
        return False


class Shape(C.Contract):
    module = fn = None
    scope = 'every value of the listed shapes'
    modes = ('default',)
    tol = 1e-9
    max_paths = 4000
    light = True
    frame = True
    whole = False          # the templates cover every input of the function (scalars)
    filters = ('default',)
    exact_pi = False       # see pydv.world
    edge_raise = False     # an exception is a failure however close the input is to a decision

    def templates(self):
        return []

    def gen(self, rng):
        """A template for the run-time side."""
        return rng.choice(self.tmpl)

    @property
    def tmpl(self):
        if not hasattr(self, '_t'):
            self._t = list(self.templates())
        return self._t

    def call(self, mod, args):
        return getattr(mod, self.fn)(*args)

    def spec(self, *args):
        raise NotImplementedError

    def pre(self, *args):
        return True

    def out(self, r, args):
        return plain(r)

    def value(self, rng, leaf):
        if leaf.pool is not None:
            return rng.choice(leaf.pool)
        lo = -8 if leaf.lo is None else leaf.lo
        hi = max(24, lo + 24) if leaf.hi is None else leaf.hi
        if leaf.kind in ('int', 'npint'):
            return rng.randint(math.ceil(lo), math.floor(hi))
        for _ in range(50):
            k = rng.random()
            if k < 0.15:
                v = rng.choice([0.0, 1.0, lo, hi])
            elif k < 0.6:
                v = rng.randint(math.ceil(lo * 4), math.floor(hi * 4)) / 4
            else:
                v = rng.uniform(lo, hi)
            if not (v < lo or v > hi or (leaf.strict and v == lo)):
                return v
        return (lo + hi) / 2

    # -- deductive side
    def prove(self):
        mod = C.loader().load(self.module)
        total = None
        for t in self.tmpl:
            assume = []
            for x in leaves(t):
                v = T.var(('x', x.name), x.kind in ('int', 'npint'))
                if x.lo is not None:
                    assume.append(W.cmp_formula('lt' if x.strict else 'le', T.sub(T.const(x.lo), v)))
                if x.hi is not None:
                    assume.append(W.cmp_formula('le', T.sub(v, T.const(x.hi))))
                W.BOUNDS[('x', x.name)] = (x.lo, x.hi, x.strict)
            names = {x.name for x in leaves(t)}

            def run(w, t=t):
                w.exact_pi = self.exact_pi
                args = sym(t, False, w)
                sargs = sym(t, True, w)
                if not S_pre(self.pre, sargs):
                    raise S.Skip()
                before = snap(args)
                w.box = ['value', None]
                try:
                    r = self.call(mod, args)
                    w.box[1] = self.out(r, args)
                except (Exception, SystemExit) as e:
                    if isinstance(e, (RecursionError, MemoryError)) or isinstance(e, (AttributeError, TypeError)) and P.PROXY.search(str(e)):
                        w.flag('%s: %s' % (type(e).__name__, e))
                    w.box[:] = ['raise', e]
                if self.frame and not intact(args, before):
                    w.mutated.append('argument')
                return w.box

            def spec(w, t=t):
                sargs = sym(t, True, w)
                try:
                    want = ['value', self.spec(*sargs)]
                except S.UNDEFINED:
                    want = ['value', None]
                except Raises as e:
                    if w.box[0] == 'raise' and isinstance(w.box[1], e.types):
                        w.box[1] = 'as specified'
                        return ['raise', 'as specified']
                    want = ['raise', 'as specified']
                if w.box[0] == 'raise':
                    w.box[1] = '%s: %s' % (type(w.box[1]).__name__, w.box[1])
                return want
            r = P.check_contract(self.name, run, spec, assumptions=[f for f in assume if f != W.TRUE], modes=self.modes,
                                 max_paths=self.max_paths, light=self.light, budget=max(2, self.budget - (total.wall if total else 0)))
            for item in r.refuted + getattr(r, 'soft', []):
                if item[2] is not None:
                    item[2]['__template__'] = self.tmpl.index(t)
            total = r if total is None else merge(total, r)
            if total.refuted:
                break
        return total

    def concretise(self, env, benv, extra):
        i = benv.get('__template__')
        for t in ([self.tmpl[i]] if i is not None else self.tmpl):
            full = {}
            for x in leaves(t):
                full[x.name] = env.get(('x', x.name), x.lo if x.lo is not None else 1.0)
            yield {'args': encode(t, full)}
            yield {'args': encode(t, {k: round(v * 4) / 4 for k, v in full.items()})}

    def cases(self, rng, n):
        for i in range(n):
            t = self.tmpl[i % len(self.tmpl)] if i < len(self.tmpl) else self.gen(rng)
            env = {x.name: self.value(rng, x) for x in leaves(t)}
            c = {'args': encode(t, env)}
            if len(self.filters) > 1:
                c['filter'] = rng.choice(self.filters)
            yield c

    def judge(self, case):
        args = decode(case['args'], False)
        sargs = decode(case['args'], True)
        S.Border.hit = False
        if not S_pre(self.pre, sargs) or S.Border.hit:
            raise C.SkipCase('precondition')
        try:
            want, exc = self.spec(*sargs), None
        except S.UNDEFINED:
            want, exc = None, None
        except Raises as e:
            want, exc = None, e.types
        except S.Skip:
            raise C.SkipCase('specification')
        edge = S.Border.hit
        before = snap(args) if not self.frame else copy.deepcopy(args)
        try:
            with C.entry_filter(case.get('filter', 'default')):
                got = self.call(C.real(self.module), args)
                got = self.out(got, args)
        except (Exception, SystemExit) as e:
            if exc is not None and isinstance(e, exc):
                return None
            if edge and not self.edge_raise:
                raise C.SkipCase('too close to call')
            return 'raises %s: %s' % (type(e).__name__, e)
        if self.frame and not intact(args, before):
            return 'modifies its arguments'
        if exc is not None:
            why = 'gives %s instead of raising %s' % (short(got), exc[0].__name__)
        else:
            why = differs(got, want, self.tol)
        if why and edge:
            raise C.SkipCase('too close to call')
        return why


def S_pre(pre, args):
    return bool(pre(*args))


def merge(a, b):
    a.obligations += b.obligations
    a.discharged += b.discharged
    a.paths += b.paths
    a.undecided += b.undecided
    a.refuted += b.refuted
    a.wall += b.wall
    a.assumptions |= b.assumptions
    for k, v in b.backends.items():
        a.backends[k] = a.backends.get(k, 0) + v
    for k, v in b.cover.items():
        a.cover[k] += v
    if getattr(b, 'soft', None):
        a.soft = getattr(a, 'soft', []) + b.soft
    return a


def short(x):
    return repr(x)[:160]


def differs(got, want, tol, where='result'):
    """None when they agree."""
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return '%s is %s, specified %s' % (where, short(got), short(want))
        for i, (g, w) in enumerate(zip(got, want)):
            r = differs(g, w, tol, '%s[%d]' % (where, i))
            if r:
                return r
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s is %s, specified %s' % (where, short(got), short(want))
        for k in want:
            if k not in got:
                return '%s lacks %r' % (where, k)
            r = differs(got[k], want[k], tol, '%s[%r]' % (where, k))
            if r:
                return r
        return None
    if want is None or got is None or isinstance(want, (str, bool)):
        ok = (want is None and got is None) or (isinstance(want, str) and isinstance(got, str) and want == got) \
            or (isinstance(want, bool) and isinstance(got, (bool, np.bool_)) and bool(got) == want)
        return None if ok else '%s is %s, specified %s' % (where, short(got), short(want))
    try:
        g, w = float(got), float(want)
    except (TypeError, ValueError):
        return '%s is %s, specified %s' % (where, short(got), short(want))
    if g != g and w != w or g == w or abs(g - w) <= tol * max(1, abs(w)):
        return None
    return '%s is %r, specified %r' % (where, g, w)
