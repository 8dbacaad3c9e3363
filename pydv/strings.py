"""Functions of one text: executed on a symbolic string, whose tests are decided by the string theory of z3.

Characters are those of ASCII.  Paths are explored by re-execution; every decision that both ways are possible for forks."""
import time
import z3
from . import loader as L
from . import prove as P


class Unsupported(BaseException):
    pass


SECOND = []


def second(text, timeout):
    """cvc5 on the same query: is it unsatisfiable"""
    import cvc5
    try:
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        slv.setOption('strings-exp', 'true')
        slv.setLogic('ALL')
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '\n'.join(x for x in text.splitlines() if not x.startswith(('(set-', '(get-', '(check-sat'))), 'q')
        sm = ip.getSymbolManager()
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        return slv.checkSat().isUnsat()
    except Exception:
        return False


class Explorer:
    current = None

    def __init__(self, prefix, assume, timeout):
        self.prefix, self.taken, self.pc, self.timeout = prefix, [], list(assume), timeout
        self.parts, self.n = {}, 0

    def split(self, v, shape):
        """an unknown text is the concatenation of literals and fresh unknown texts"""
        out = []
        for p in shape:
            if p is None:
                self.n += 1
                p = z3.String('text!%d' % self.n)
                self.pc.append(z3.InRe(p, ASCII))
            out.append(p)
        zs = [z3.StringVal(p) if isinstance(p, str) else p for p in out]
        self.pc.append(v == (zs[0] if len(zs) == 1 else z3.Concat(*zs)))
        self.parts[v.get_id()] = out
        self.keep = getattr(self, 'keep', []) + [v]
        return out

    def pieces(self, v):
        got = self.parts.get(v.get_id())
        return [v] if got is None else [x for p in got for x in (self.pieces(p) if not isinstance(p, str) else [p])]

    def sat(self, *extra):
        s = z3.Solver()
        s.set('timeout', self.timeout // 4)
        s.add(*self.pc, *extra)
        r = s.check()
        if r == z3.unknown and second(s.to_smt2(), self.timeout):
            r = z3.unsat
            SECOND.append(1)
        return r, s

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            return z3.is_true(cond)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = self.sat(cond)[0] != z3.unsat
        self.taken.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        return v


def decide(c):
    return Explorer.current.decide(c)


def re_union(*a):
    return a[0] if len(a) == 1 else z3.Union(*a)


def chars(s):
    return re_union(*[z3.Re(c) for c in s])


DIGIT = z3.Range('0', '9')
ASCII = z3.Star(z3.Range(chr(0), chr(127)))
SPACE = chars(' \t\n\r\f\v\x1c\x1d\x1e\x1f')
UNSIGNED = z3.Concat(DIGIT, z3.Star(z3.Concat(z3.Option(z3.Re('_')), DIGIT)))
SIGN = z3.Option(chars('+-'))
INTEGER = z3.Concat(z3.Star(SPACE), SIGN, UNSIGNED, z3.Star(SPACE))


class SInt:
    """The number a text is read as; only that there is one is known."""


class SStr:
    """A concatenation of literals and unknown texts; a decision about its structure splits an unknown text."""

    def __init__(self, *parts):
        self.parts = [p for p in parts if p is not None and not (isinstance(p, str) and p == '')]

    def atoms(self):
        """the parts, with split texts replaced by their pieces"""
        out = []
        for p in self.parts:
            out += Explorer.current.pieces(p) if not isinstance(p, str) else [p]
        return [p for p in out if not (isinstance(p, str) and p == '')]

    @property
    def z(self):
        a = [z3.StringVal(p) if isinstance(p, str) else p for p in self.atoms()]
        return z3.StringVal('') if not a else a[0] if len(a) == 1 else z3.Concat(*a)

    @staticmethod
    def lift(x):
        if isinstance(x, SStr):
            return x.z
        if isinstance(x, str):
            return z3.StringVal(x)
        raise Unsupported('text and %r' % type(x).__name__)

    def head(self, p):
        """does it start with the literal; if so an unknown first part is split"""
        a = self.atoms()
        if not p:
            return True
        if not a:
            return False
        if isinstance(a[0], str):
            if a[0].startswith(p):
                return True
            if not p.startswith(a[0]):
                return False
            return SStr(*a[1:]).head(p[len(a[0]):])
        if len(a) > 1 and len(p) > 1:
            raise Unsupported('prefix of a concatenation')
        if len(a) > 1 and decide(z3.Length(a[0]) == 0):
            Explorer.current.split(a[0], [''])
            return SStr(*a[1:]).head(p)
        if not decide(z3.PrefixOf(z3.StringVal(p), a[0])):
            return False
        Explorer.current.split(a[0], [p, None])
        return True

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith with positions')
        return any(self.head(q) for q in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith with positions')
        return decide(z3.Or(*[z3.SuffixOf(self.lift(q), self.z) for q in (p if isinstance(p, tuple) else (p,))]))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def __contains__(self, p):
        if len(p) != 1:
            return decide(z3.Contains(self.z, self.lift(p)))
        return self.first(p) is not None

    def first(self, c):
        """(before, after) the first occurrence of a character"""
        a = self.atoms()
        for i, p in enumerate(a):
            if isinstance(p, str):
                if c in p:
                    x, _, y = p.partition(c)
                    return SStr(*a[:i], x), SStr(y, *a[i + 1:])
            elif decide(z3.Contains(p, z3.StringVal(c))):
                x, _, y = Explorer.current.split(p, [None, c, None])
                Explorer.current.pc.append(z3.Not(z3.Contains(x, z3.StringVal(c))))
                return SStr(*a[:i], x), SStr(y, *a[i + 1:])
        return None

    def __eq__(self, o):
        return decide(self.z == self.lift(o)) if isinstance(o, (str, SStr)) else False

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return decide(z3.Length(self.z) > 0)

    def __add__(self, o): return SStr(*self.atoms(), *(o.atoms() if isinstance(o, SStr) else [o]))
    def __radd__(self, o): return SStr(o, *self.atoms())

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None and i.stop is None and isinstance(i.start, int) and i.start >= 0:
            a = self.atoms()
            if a and isinstance(a[0], str) and len(a[0]) >= i.start:
                return SStr(a[0][i.start:], *a[1:])
            return SStr(z3.SubString(self.z, i.start, z3.Length(self.z)))
        if isinstance(i, slice) and i.step is None and i.start in (None, 0) and isinstance(i.stop, int) and i.stop >= 0:
            return SStr(z3.SubString(self.z, 0, i.stop))
        if isinstance(i, int) and i >= 0:
            if decide(z3.Length(self.z) <= i):
                raise IndexError('string index out of range')
            return SStr(z3.SubString(self.z, i, 1))
        raise Unsupported('part of a text')

    def replace(self, a, b, count=-1):
        if count != 1 or len(a) != 1:
            raise Unsupported('replacement of every occurrence')
        f = self.first(a)
        return self if f is None else f[0] + b + f[1]

    def partition(self, c):
        if len(c) != 1:
            raise Unsupported('partition at a text')
        f = self.first(c)
        return (self, '', '') if f is None else (f[0], c, f[1])

    def isdecimal(self):
        a = self.atoms()
        if not all(p.isdecimal() for p in a if isinstance(p, str)):
            return False
        free = [p for p in a if not isinstance(p, str)]
        if not all(decide(z3.InRe(p, z3.Star(DIGIT))) for p in free):
            return False
        return len(free) < len(a) or any(decide(z3.Length(p) > 0) for p in free)
    isdigit = isnumeric = isdecimal

    def isascii(self): return True
    def __str__(self): raise Unsupported('text as a plain string')
    def __repr__(self): return 'SStr'
    def __iter__(self): raise Unsupported('characters of a text')
    def __len__(self): raise Unsupported('length of a text')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('str.%s' % n)


class SDict(dict):
    """A table of the module with plain strings as keys."""

    def _find(self, k):
        if isinstance(k, SStr):
            for key in dict.keys(self):
                if k == key:
                    return key
            return None
        return k if dict.__contains__(self, k) else None

    def __contains__(self, k):
        return self._find(k) is not None if isinstance(k, SStr) else dict.__contains__(self, k)

    def get(self, k, d=None):
        if not isinstance(k, SStr):
            return dict.get(self, k, d)
        key = self._find(k)
        return d if key is None else dict.__getitem__(self, key)

    def __getitem__(self, k):
        if not isinstance(k, SStr):
            return dict.__getitem__(self, k)
        key = self._find(k)
        if key is None:
            raise KeyError(k)
        return dict.__getitem__(self, key)


class _Int(type):
    def __instancecheck__(cls, x): return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if not isinstance(x, SStr):
            return int(x, *a)
        if a:
            raise Unsupported('int with a base')
        if decide(z3.InRe(x.z, INTEGER)):
            return SInt()
        raise ValueError('invalid literal for int()')


class Int(metaclass=_Int):
    pass


class _Str(type):
    def __instancecheck__(cls, x): return isinstance(x, (str, SStr))
    def __call__(cls, x='', *a): return x if isinstance(x, SStr) else str(x, *a)


class Str(metaclass=_Str):
    pass


class _Float(type):
    def __instancecheck__(cls, x): return isinstance(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SStr):
            raise Unsupported('float of a text')
        return float(x)


class Float(metaclass=_Float):
    pass


def load(module):
    """The module, with the readers of texts bound to their contracts and its tables able to look up a symbolic text."""
    ld = L.Loader()
    ld.builtins.update(int=Int, str=Str, float=Float)
    m = ld.load(module)
    for k, v in list(vars(m).items()):
        if type(v) is dict and v and k != '__builtins__' and all(isinstance(x, str) for x in v):
            setattr(m, k, SDict(v))
    return m


def prove(name, fn, spec, budget=40, timeout=6000, assume=None, max_paths=200):
    """spec(z) -> list of (condition, wanted) that cover every text; wanted is a bool, None or 'same' (the text itself)."""
    res = P.Result(name)
    t0 = time.time()
    z = z3.String('text')
    base = [z3.InRe(z, ASCII)] + ([assume(z)] if assume else [])
    todo, solver = [[]], 0.0
    while todo:
        if time.time() - t0 > budget or res.paths > max_paths:
            res.unknown('budget')
            break
        prefix = todo.pop()
        w = Explorer.current = Explorer(prefix, base, timeout)
        exc = out = None
        try:
            out = fn(SStr(z))
        except Unsupported as e:
            res.unknown('unsupported: %s' % e)
            continue
        except (Exception, SystemExit) as e:
            exc = e
        finally:
            Explorer.current = None
        zz = whole(w, z)
        for i in range(len(prefix), len(w.taken)):
            todo.append(w.taken[:i] + [not w.taken[i]])
        if w.sat()[0] == z3.unsat:
            continue
        res.paths += 1
        res.cover['value'] += 1
        if exc is not None and P.PROXY.search(str(exc)):
            res.unknown('unsupported: %s' % exc)
            continue
        for cond, want in spec(zz):
            if exc is None and same(out, want, z):
                res.ok('direct')
                continue
            s0, n0 = time.time(), len(SECOND)
            if exc is None and want == 'same' and isinstance(out, SStr):
                r, s = z3.unknown, None
            else:
                r, s = w.sat(cond)
            solver += time.time() - s0
            what = '%s: %s when %s' % (name, 'raises %s' % type(exc).__name__ if exc is not None else 'gives %r instead of %r' % (out, want), str(z3.simplify(cond))[:200])
            if r == z3.unsat:
                res.ok('cvc5' if len(SECOND) > n0 else 'z3')
            elif r == z3.sat:
                res.refute(what, {'text': text_of(s.model(), z)}, {}, None)
            else:
                res.unknown('undecided: ' + what)
    res.wall = time.time() - t0
    return res


def whole(w, z):
    Explorer.current = w
    try:
        return SStr(z).z
    finally:
        Explorer.current = None


def same(out, want, z):
    if want == 'same':
        return isinstance(out, SStr) and len(out.parts) == 1 and not isinstance(out.parts[0], str) and out.parts[0].eq(z)
    return isinstance(out, bool) and out is want or out is None and want is None


def text_of(m, z):
    v = m.eval(z, model_completion=True)
    s = v.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda g: chr(int(g.group(1), 16)), s)
