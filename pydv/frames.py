"""Data frames over an unbounded number of rows, as the code sees them through pandas.

A frame is a symbolic table (values.STable) plus text columns built from its cells.  Row selections
are conjunctions of row predicates; a selection by membership of a text key in another selection's
keys is the predicate "some row satisfying those predicates has the same key".  Row order is not
represented, so nothing that depends on it has a contract here (sorting is the identity).
Operations without a contract raise Unsupported."""
import pandas as real_pd
import numpy as real_np
from . import terms as T
from . import values as V
from .values import STable, Vec, RowMask, ColNames, SReal, pred_key, is_num
from .world import cur, SBool, cmp_formula


def plain(v):
    """A cell value as pandas compares it: integers, floats and text are told apart, 1 and 1.0 are not."""
    if isinstance(v, real_np.generic):
        v = v.item()
    if isinstance(v, float) and v == int(v):
        v = int(v)
    return v


def unsupported(name):
    def f(self, *a, **k):
        cur().flag('%s of a symbolic %s' % (name, type(self).__name__))
    return f


class Sym:
    __sym__ = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_repr') or n.startswith('_ipython'):
            raise AttributeError(n)
        cur().flag('%s of a symbolic %s' % (n, type(self).__name__))

    for _n in ('__iter__', '__len__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__or__', '__and__', '__invert__',
               '__sub__', '__mul__', '__truediv__', '__add__', '__radd__', '__rsub__', '__contains__', '__setitem__', '__getitem__',
               '__neg__', '__float__', '__int__', '__bool__', '__delitem__'):
        locals()[_n] = unsupported(_n)
    __hash__ = object.__hash__
    del _n


class FVec(Vec):
    """A column of a frame (pandas Series)."""
    __pyclass__ = real_pd.Series
    __sym__ = True

    @property
    def values(self):
        return Vec(self.tab, self.t, self.miss)

    @property
    def empty(self):
        return self.tab.nrows() == 0

    def to_numpy(self, *_a, **_k): return self.values

    def astype(self, t=None, *_a, **_k):
        if t in (str, 'str', object, 'object', 'string'):
            if t in (object, 'object'):
                return self
            return Text(self.tab, (('col', self.name()),))
        return FVec(self.tab, self.t, self.miss)

    def name(self):
        c = self.tab.colname(self.t)
        if c is None:
            cur().flag('text of a computed column')
        return c

    def isin(self, vals):
        if isinstance(vals, Text):
            return Text(self.tab, (('col', self.name()),)).isin(vals)
        vals = tuple(sorted({plain(v) for v in vals}, key=repr))
        c = self.name()
        if len(vals) == 1:
            return RowMask(self.tab, [('eq', c, vals[0])])
        return RowMask(self.tab, [('in', c, vals)])

    def __eq__(self, o):
        if isinstance(o, (str, real_np.str_)) or is_num(o):
            o = plain(o)
            c = self.tab.colname(self.t)
            if c is not None:
                return RowMask(self.tab, [('eq', c, str(o) if isinstance(o, str) else o)])
        return Vec.__eq__(self, o)

    __hash__ = Vec.__hash__

    def isnull(self): return RowMask(self.tab, [('null', self.name(), True)])
    isna = isnull
    def notnull(self): return ~self.isnull()
    notna = notnull
    def reset_index(self, *_a, **_k): return self
    def to_list(self): cur().flag('list of a symbolic column')
    tolist = to_list
    unique = to_list

    def __getitem__(self, k):
        if isinstance(k, RowMask):
            return FVec(self.tab.filtered(k), self.t, self.miss)
        return Vec.__getitem__(self, k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        cur().flag('%s of a symbolic column' % n)


def exists_atoms(tab, parts):
    """Predicates on a key: it is the key of some row of the selection."""
    same = [p for p in tab.filters if p[0] == 'has' and p[1] == parts and p[2][0] == tab.root.name]
    rest = tuple(sorted(pred_key(p) for p in tab.filters if p not in same))
    return {(tab.root.name, rest, parts)} | {p[2] for p in same}


class KeySet(Sym):
    """The set of keys of a selection: conjunction of existence atoms."""
    __pyclass__ = set

    def __init__(self, atoms):
        self.atoms = frozenset(atoms)

    def __and__(self, o):
        if isinstance(o, KeySet):
            return KeySet(self.atoms | o.atoms)
        if isinstance(o, (Text,)):
            return KeySet(self.atoms | exists_atoms(o.tab, o.parts))
        cur().flag('key set operation')

    intersection = __and__

    def __symlen__(self):
        n = ('keys', str(sorted(self.atoms)))
        from .world import BOUNDS
        BOUNDS[n] = (0, None, False)
        return SReal(T.var(n, True), 'int')

    def __symset__(self): return self
    def copy(self): return self


class Text(Sym):
    """A text column: concatenation of cells and literals."""
    __pyclass__ = real_pd.Series

    def __init__(self, tab, parts):
        self.tab = tab
        self.parts = tuple(parts)

    def astype(self, t=None, *_a, **_k):
        if t in (str, 'str', object, 'object', 'string'):
            return self
        cur().flag('text column as %r' % (t,))

    def _join(self, a, b):
        out = []
        for p in a + b:
            if out and p[0] == 'lit' and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
            elif p != ('lit', ''):
                out.append(p)
        return Text(self.tab, out)

    def __add__(self, o):
        if isinstance(o, str):
            return self._join(self.parts, (('lit', o),))
        if isinstance(o, Text) and o.tab.root is self.tab.root and o.tab.filters == self.tab.filters:
            return self._join(self.parts, o.parts)
        cur().flag('text columns of different rows')

    def __radd__(self, o):
        if isinstance(o, str):
            return self._join((('lit', o),), self.parts)
        cur().flag('text columns')

    def isin(self, vals):
        if isinstance(vals, Text):
            vals = KeySet(exists_atoms(vals.tab, vals.parts))
        if isinstance(vals, KeySet):
            return RowMask(self.tab, [('has', self.parts, a) for a in vals.atoms])
        vals = tuple(sorted({plain(v) for v in vals}, key=repr))
        return RowMask(self.tab, [('text', self.parts, vals)])

    def __getitem__(self, k):
        if isinstance(k, RowMask):
            return Text(self.tab.filtered(k), self.parts)
        cur().flag('text column indexing')

    @property
    def loc(self): return self
    @property
    def values(self): return self
    def unique(self): return self
    def drop_duplicates(self, *_a, **_k): return self
    def to_numpy(self, *_a, **_k): return self
    def tolist(self): return self
    to_list = tolist
    def copy(self, *_a, **_k): return self
    def reset_index(self, *_a, **_k): return self
    def sort_values(self, *_a, **_k): return self
    def __symset__(self): return KeySet(exists_atoms(self.tab, self.parts))
    def __symlen__(self): return self.tab.nrows()
    @property
    def empty(self): return self.tab.nrows() == 0


class Several(Sym):
    """Concatenation of columns that is only reported."""
    __pyclass__ = real_pd.Series

    def __init__(self, parts):
        self.parts = parts

    def __symlen__(self):
        n = 0
        for p in self.parts:
            n = n + p.__symlen__()
        return n


class SFrame(Sym):
    __pyclass__ = real_pd.DataFrame

    def __init__(self, tab, text=None, arg=False):
        self.__dict__.update(tab=tab, text=dict(text or {}), arg=arg)

    def __setattr__(self, n, v):
        if n in ('tab', 'text', 'arg'):
            self.__dict__[n] = v
        else:
            cur().flag('attribute %s of a symbolic frame assigned' % n)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.text or self.tab.root.columns is not None and self.tab.present(n):
            return self[n]
        cur().flag('%s of a symbolic frame' % n)

    def _with(self, tab):
        return SFrame(tab, self.text)

    def has(self, n):
        return n in self.text or self.tab.present(n)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self.text:
                return Text(self.tab, self.text[k])
            if not self.tab.present(k):
                raise KeyError(k)
            c = self.tab.column(k)
            return FVec(c.tab, c.t, c.miss)
        if isinstance(k, RowMask):
            if k.tab.root is not self.tab.root:
                cur().flag('selection by a mask of another table')
            return self._with(self.tab.filtered(k))
        if isinstance(k, list):
            for n in k:
                if not self.has(n):
                    raise KeyError(n)
            return SubFrame(self, k)
        cur().flag('frame indexing %r' % (k,))

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            cur().flag('frame assignment')
        if self.arg:
            cur().mutated.append('frame column %s' % k)
        if isinstance(v, Text):
            self.text[k] = v.parts
            return
        t = self.tab.copy()
        t.over[k] = (v.t, v.miss) if isinstance(v, Vec) else (V.term(v), frozenset())
        if isinstance(v, (str, list)) or v is None:
            cur().flag('frame column from %r' % (v,))
        if t.names is not None and k not in t.names:
            t.names = t.names + [k]
        self.tab = t
        self.text.pop(k, None)

    def insert(self, loc, name, v, *_a):
        if self.has(name):
            raise ValueError('cannot insert %s, already exists' % name)
        self[name] = v

    def __contains__(self, n): return self.has(n)

    def __iter__(self):
        return iter(self._names())

    def _names(self):
        if self.tab.names is None:
            cur().flag('iteration over unknown columns')
        return list(self.tab.names) + [n for n in self.text if n not in self.tab.names]

    @property
    def columns(self):
        if self.tab.names is not None:
            return real_pd.Index(self._names())
        return FCols(self)

    def keys(self): return self.columns

    @property
    def loc(self): return _Loc(self)
    @property
    def empty(self): return self.tab.nrows() == 0
    @property
    def shape(self): return (self.tab.nrows(), V._Opaque('number of columns'))
    def __symlen__(self): return self.tab.nrows()
    def __len__(self): raise TypeError('length of a symbolic SFrame')        # list(frame) asks for a hint
    def copy(self, *_a, **_k): return self._with(self.tab.copy())
    def reset_index(self, drop=False, inplace=False, **_k):
        if not drop:
            cur().flag('reset_index keeping the index')
        return None if inplace else self.copy()
    def reindex(self, *a, **k):
        if a or k:
            cur().flag('reindex')
        return self.copy()

    def sort_values(self, by, *_a, inplace=False, **_k):
        for n in ([by] if isinstance(by, str) else by):
            if not self.has(n):
                raise KeyError(n)
        return None if inplace else self.copy()

    def rename(self, columns=None, inplace=False, **_k):
        t = self.tab.copy()
        new = {}
        for a, b in columns.items():
            if self.tab.present(a):
                c = self.tab.column(a)
                new[b] = (c.t, c.miss)
                t.over[a] = None
        t.over.update(new)
        if t.names is not None:
            t.names = [columns.get(n, n) for n in t.names]
        if inplace:
            if self.arg:
                cur().mutated.append('frame columns')
            self.tab = t
            return None
        return self._with(t)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **_k):
        if columns is None:
            if axis not in (1, 'columns') or labels is None:
                cur().flag('drop of rows')
            columns = labels
        t, text = self.tab.copy(), dict(self.text)
        for n in ([columns] if isinstance(columns, str) else columns):
            if not self.has(n):
                raise KeyError('%r not found in axis' % n)
            if n in text:
                del text[n]
            else:
                t.over[n] = None
                if t.names is not None:
                    t.names = [x for x in t.names if x != n]
        if inplace:
            self.tab, self.text = t, text
            return None
        return SFrame(t, text)

    def to_numpy(self, *_a, **_k): return self.tab.copy()

    @property
    def values(self): return self.tab.copy()

    def to_csv(self, path=None, **k):
        cur().outputs.append((path, self.copy(), k))


class SubFrame(Sym):
    def __init__(self, frame, cols):
        self.frame = frame
        self.cols = cols

    @property
    def values(self): return self

    def sum(self):
        r = 0
        for c in self.cols:
            r = r + self.frame[c].sum()
        return r


class FCols(ColNames):
    """frame.columns"""

    def __init__(self, frame):
        ColNames.__init__(self, frame.tab)
        self.frame = frame

    @property
    def values(self): return ColNames(self.frame.tab)

    def __contains__(self, n): return self.frame.has(n)
    def __len__(self): return V._Opaque('number of columns')


class _Loc(Sym):
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, k):
        if isinstance(k, RowMask):
            return self.frame[k]
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            f = self.frame
            if isinstance(r, RowMask):
                f = f[r]
            elif not (isinstance(r, slice) and r == slice(None)):
                cur().flag('row label')
            return f[c]
        cur().flag('loc')


class MaskStack(Sym):
    """np.array([row masks])"""

    def __init__(self, masks):
        self.masks = masks

    def all(self, axis=None, **_k):
        if axis != 0:
            cur().flag('all() over a stack of masks')
        m = self.masks[0]
        for x in self.masks[1:]:
            m = m & x
        return m


class PandasModel:
    """pandas: symbolic frames come from read_csv of a modelled file; everything concrete is the real library."""

    def __getattr__(self, n):
        v = getattr(real_pd, n)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            if any(isinstance(x, (Sym, FVec)) for x in a):
                cur().flag('pandas.%s has no contract' % n)
            return v(*a, **k)
        f.__name__ = n
        return f

    @staticmethod
    def read_csv(path, *a, **k):
        w = cur()
        if w is not None:
            if path in w.inputs:
                return w.inputs[path]()
            if w.inputs:
                raise FileNotFoundError(path)
        return real_pd.read_csv(path, *a, **k)

    class Series(real_pd.Series):
        __realclass__ = real_pd.Series

        def __new__(cls, data=None, *a, **k):
            if isinstance(data, (Sym, FVec)):
                return data.astype(k['dtype']) if k.get('dtype') is not None else data
            return real_pd.Series(data, *a, **k)

    @staticmethod
    def concat(objs, *a, **k):
        objs = list(objs)
        if any(isinstance(o, (Sym, FVec)) for o in objs):
            if all(isinstance(o, (Text, Several)) for o in objs):
                return Several(objs)
            if isinstance(objs[-1], SFrame) and all(isinstance(o, real_pd.DataFrame) and o.empty and not len(o.columns) for o in objs[:-1]):
                return objs[-1].copy()
            cur().flag('pandas.concat of symbolic frames')
        return real_pd.concat(objs, *a, **k)

    @staticmethod
    def isnull(x):
        if isinstance(x, SReal):
            return False
        if isinstance(x, FVec):
            return x.isnull()
        return real_pd.isnull(x)
    isna = isnull


_to_csv = real_pd.DataFrame.to_csv


def _captured(self, path=None, **k):
    w = cur()
    if w is None:
        return _to_csv(self, path, **k)
    w.outputs.append((path, self.copy(), k))


def install():
    """Frames written while a path is explored are recorded instead of written."""
    real_pd.DataFrame.to_csv = _captured
