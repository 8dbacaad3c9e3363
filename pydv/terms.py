"""Symbolic real terms (hash-consed DAG) with an exact rational-function normal form.

Floats of the program are read as mathematical reals.  A term is a constant (Fraction), an
atom (a named unknown, or an application of an uninterpreted function to a term), or
add / mul / div / integer power of terms.  Every division node is only ever built on a path
whose condition makes the divisor non-zero.
"""
from fractions import Fraction
import math

_table = {}
_atoms = []            # atom id -> Term
_uf_by_name = {}       # (fn, extra) -> list of atom terms


class Term:
    __slots__ = ('op', 'args', 'id', '_canon', '_z3', 'aid', 'isint', 'size')

    def __repr__(self):
        return show(self)


def reset():
    _table.clear(); _atoms.clear(); _uf_by_name.clear()
    global ZERO, ONE
    ZERO = const(0); ONE = const(1)


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, Term) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op; t.args = args; t.id = len(_table); t._canon = None; t._z3 = None
        t.aid = None; t.isint = False
        t.size = 1 + sum(a.size for a in args if isinstance(a, Term))
        _table[key] = t
    return t


class Rat(float):
    """A quotient of plain numbers, kept exact."""
    __slots__ = ('frac',)

    def __new__(cls, f):
        r = float.__new__(cls, f)
        r.frac = f
        return r

    def _op(self, o, fn, native):
        if type(o) in (int, bool, float, Rat) and (type(o) is not float or math.isfinite(o)):
            return Rat(fn(self.frac, frac(o)))
        return native(self, o)

    def __add__(self, o): return self._op(o, lambda a, b: a + b, float.__add__)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a, float.__radd__)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b, float.__sub__)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a, float.__rsub__)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b, float.__mul__)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a, float.__rmul__)
    def __neg__(self): return Rat(-self.frac)
    def __abs__(self): return Rat(abs(self.frac))
    def __reduce__(self): return (Rat, (self.frac,))

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b, float.__truediv__) if o != 0 else float(self) / o

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a, float.__rtruediv__) if self != 0 else o / float(self)


def frac(x):
    """The rational a Python number denotes when floats are read as reals (literals as written)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if type(x) is Rat:
        return x.frac
    return Fraction(repr(float(x)))


def const(x):
    f = frac(x)
    return _mk('c', (f,))


def var(name, isint=False):
    t = _mk('v', (name,))
    if t.aid is None:
        t.aid = len(_atoms); _atoms.append(t); t.isint = isint
    return t


def as_var(t):
    """The name when the term is a variable."""
    return t.args[0] if t.op == 'v' else None


def is_const(t):
    return t.op == 'c'


def add(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    if a.op == 'c' and a.args[0] == 0:
        return b
    if b.op == 'c' and b.args[0] == 0:
        return a
    return _mk('+', (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'c':
            if x.args[0] == 0:
                return const(0)
            if x.args[0] == 1:
                return y
    return _mk('*', (a, b))


def div(a, b):
    if b.op == 'c':
        return mul(const(1 / b.args[0]), a)
    return _mk('/', (a, b))


def powi(a, n):
    if n == 0:
        return const(1)
    if n < 0:
        return div(const(1), powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def uf(fn, *args):
    """Application of an uninterpreted function; arguments equal as rational functions share the atom."""
    args = tuple(args)
    cand = _uf_by_name.setdefault((fn, len(args)), [])
    for t in cand:
        if all((x is y) or (isinstance(x, Term) and isinstance(y, Term) and equal(x, y))
               or (not isinstance(x, Term) and not isinstance(y, Term) and x == y)
               for x, y in zip(t.args[1:], args)):
            return t
    t = _mk('f', (fn,) + args)
    t.aid = len(_atoms); _atoms.append(t); t.isint = fn in ('floor',)
    cand.append(t)
    return t


def poly_term(p):
    t = const(0)
    for m, c in sorted(p.items()):
        x = const(c)
        for a, e in m:
            x = mul(x, powi(_atoms[a], e))
        t = add(t, x)
    return t


NONNEG = set()         # atom names known to be non-negative


def _nonneg_atom(a):
    t = _atoms[a]
    return t.op == 'v' and t.args[0] in NONNEG or t.op == 'f' and t.args[0] in ('sqrt', 'exp', 'abs')


def _content(p):
    """Positive rational content of a polynomial (coefficients become coprime integers)."""
    a = b = 0
    for c in p.values():
        a = math.gcd(a, c.numerator); b = math.lcm(b, c.denominator) if b else c.denominator
    return Fraction(a, b)


def _squares(n):
    """(s, f) with n == s*s*f; square factors below a bound are taken out."""
    s, q = 1, 2
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    f = n
    while q * q <= f and q < 2000:
        while f % (q * q) == 0:
            f //= q * q; s *= q
        q += 1
    return s, f


def sqrt_term(t):
    """sqrt(t) with fourth powers (and squares of non-negative atoms) taken out of the root."""
    try:
        n, d = canon(t)
    except TooBig:
        return uf('sqrt', t)
    if not n:
        return const(0)
    k = _content(n) / _content(d)
    root = const(1)
    if k != 1:
        # rational factor: sqrt(a/b) = sqrt(a*b)/b, squares taken out
        sq, free = _squares(k.numerator * k.denominator)
        c = {m: x / _content(n) for m, x in n.items()}, {m: x / _content(d) for m, x in d.items()}
        root = mul(const(Fraction(sq, k.denominator)), const(1) if free == 1 else uf('sqrt', const(free)))
        n, d = c
        if len(n) == 1 and n.get(()) == 1 and len(d) == 1 and d.get(()) == 1:
            return root
        t = poly_term(n)
        if not (len(d) == 1 and d.get(()) == 1):
            t = div(t, poly_term(d))
    outs = []
    for p in (n, d):
        o, rem = [], []
        for a, e in _mono_content(p):
            k = e // 2 if _nonneg_atom(a) else 2 * (e // 4)
            if k:
                o.append((a, k)); rem.append((a, 2 * k))
        outs.append((tuple(o), _mono_div(p, tuple(rem))))
    if not outs[0][0] and not outs[1][0]:
        return mul(root, uf('sqrt', t))
    (on, n), (od, d) = outs
    inner = poly_term(n)
    if not (len(d) == 1 and d.get(()) == 1):
        inner = div(inner, poly_term(d))
    r = const(1) if inner.op == 'c' and inner.args[0] == 1 else uf('sqrt', inner)
    return mul(root, div(mul(poly_term({on: Fraction(1)}), r), poly_term({od: Fraction(1)})))


# ---- polynomials -------------------------------------------------------------------------
class TooBig(Exception):
    pass


MAXTERMS = 60000


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


P1 = {(): Fraction(1)}


def _mono_content(p):
    """The largest monomial dividing every term."""
    it = iter(p)
    common = dict(next(it))
    for m in it:
        if not common:
            return ()
        d = dict(m)
        for a in list(common):
            e = min(common[a], d.get(a, 0))
            if e:
                common[a] = e
            else:
                del common[a]
    return tuple(sorted(common.items()))


def _mono_div(p, m):
    if not m:
        return p
    dm = dict(m)
    r = {}
    for k, c in p.items():
        r[tuple((a, e - dm.get(a, 0)) for a, e in k if e - dm.get(a, 0))] = c
    return r


def _reduce_pair(n, d):
    """Cancel common monomials, a scalar factor, and full cancellation n = c*d."""
    if not n:
        return {}, P1
    if len(d) == 1:
        (dm, dc), = d.items()
        if dc != 1:
            n = {m: c / dc for m, c in n.items()}; d = {dm: Fraction(1)}
    cn, cd = _mono_content(n), dict(_mono_content(d))
    com = tuple((a, min(e, cd[a])) for a, e in cn if a in cd)
    if com:
        n, d = _mono_div(n, com), _mono_div(d, com)
    if len(n) == len(d) and len(d) > 1:
        m0 = next(iter(d))
        if m0 in n:
            q = n[m0] / d[m0]
            if all(n.get(m) == q * c for m, c in d.items()):
                return p_const(q), P1
    return n, d


def _sqrt_arg(aid):
    t = _atoms[aid]
    if t.op == 'f' and t.args[0] == 'sqrt':
        return t.args[1]
    return None


def _sqrt_reduce(p):
    """Rewrite sqrt(t)^2 -> t in p (given as numerator); returns (num, den)."""
    den = P1
    while True:
        target = None
        for m in p:
            for a, e in m:
                if e >= 2 and _sqrt_arg(a) is not None:
                    target = a if target is None else max(target, a)   # newest (outermost) first
        if target is None:
            return p, den
        an, ad = canon(_sqrt_arg(target))
        # p = sum_k s^k c_k ; replace s^(2j+r) by (an/ad)^j s^r
        by = {}
        for m, c in p.items():
            e = dict(m).get(target, 0)
            rest = tuple((a, x) for a, x in m if a != target)
            j, r = divmod(e, 2)
            if r:
                rest = tuple(sorted(rest + ((target, 1),)))
            by.setdefault(j, {})
            by[j][rest] = by[j].get(rest, 0) + c
        J = max(by)
        new = {}
        for j, q in by.items():
            for _ in range(j):
                q = p_mul(q, an)
            for _ in range(J - j):
                q = p_mul(q, ad)
            new = p_add(new, q)
        p = new
        for _ in range(J):
            den = p_mul(den, ad)


def canon(t):
    """(numerator, denominator) polynomials over atom ids."""
    if t._canon is not None:
        return t._canon
    op = t.op
    if op == 'c':
        r = (p_const(t.args[0]), P1)
    elif op in ('v', 'f'):
        r = ({((t.aid, 1),): Fraction(1)}, P1)
    else:
        (an, ad), (bn, bd) = canon(t.args[0]), canon(t.args[1])
        if op == '+':
            if ad == bd:
                n, d = p_add(an, bn), ad
            else:
                n, d = p_add(p_mul(an, bd), p_mul(bn, ad)), p_mul(ad, bd)
        elif op == '*':
            an, bd = _reduce_pair(an, bd)
            bn, ad = _reduce_pair(bn, ad)
            n, d = p_mul(an, bn), p_mul(ad, bd)
        else:
            an, bn = _reduce_pair(an, bn)
            bd, ad = _reduce_pair(bd, ad)
            n, d = p_mul(an, bd), p_mul(ad, bn)
        n, e = _sqrt_reduce(n)
        if e is not P1:
            d = p_mul(d, e)
        d, e = _sqrt_reduce(d)
        if e is not P1:
            n = p_mul(n, e)
        r = _reduce_pair(n, d)
    t._canon = r
    return r


def negative_lead(t):
    """Exactly one of t and -t has this (when t is not zero)."""
    try:
        n, d = canon(t)
    except TooBig:
        return False
    return bool(n) and (n[min(n)] < 0) != (d[min(d)] < 0)


def equal(a, b):
    """Exact identity of rational functions (sound: True means equal wherever both are defined)."""
    if a is b:
        return True
    try:
        if modeval(a) is not None and modeval(b) is not None and modeval(a) != modeval(b):
            return False
        an, ad = canon(a)
        bn, bd = canon(b)
        if an == bn and ad == bd:
            return True
        n = p_add(p_mul(an, bd), p_neg(p_mul(bn, ad)))
        n, _ = _sqrt_reduce(n)
        return not n
    except TooBig:
        return False


_PR = (1 << 61) - 1
_mod = {}


def _h(x):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr(x).encode()).digest()[:8], 'big') % _PR


def modeval(t):
    """Fingerprint modulo a prime (None when a square root makes it unusable)."""
    k = t.id
    if k in _mod and _mod[k][0] is t:
        return _mod[k][1]
    op = t.op
    if op == 'c':
        f = t.args[0]
        v = f.numerator % _PR * pow(f.denominator, -1, _PR) % _PR
    elif op == 'v':
        v = _h(('v', t.args[0]))
    elif op == 'f':
        v = None if t.args[0] == 'sqrt' else _h(('f', t.aid))
    else:
        a, b = modeval(t.args[0]), modeval(t.args[1])
        if a is None or b is None:
            v = None
        elif op == '+':
            v = (a + b) % _PR
        elif op == '*':
            v = a * b % _PR
        else:
            v = None if b == 0 else a * pow(b, -1, _PR) % _PR
    _mod[k] = (t, v)
    return v


# ---- evaluation --------------------------------------------------------------------------
class EvalError(Exception):
    pass


def _f_pow(x, y):
    try:
        r = x ** y
        if isinstance(r, complex):
            raise EvalError()
        return r
    except (OverflowError, ZeroDivisionError, ValueError):
        raise EvalError()


def _dist(name, fn):
    def f(*a):
        import scipy.stats
        return float(getattr(getattr(scipy.stats, name), fn)(*a))
    return f


UF_EVAL = {
    'tcdf': _dist('t', 'cdf'), 'tppf': _dist('t', 'ppf'), 'normcdf': _dist('norm', 'cdf'), 'normppf': _dist('norm', 'ppf'),
    'sqrt': lambda x: math.sqrt(x), 'log': lambda x: math.log(x), 'exp': lambda x: math.exp(x),
    'floor': lambda x: math.floor(x + 1e-12), 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'atan2': math.atan2, 'atan': math.atan, 'acos': math.acos, 'asin': math.asin, 'abs': abs, 'pow': _f_pow,
    'mod': lambda x, y: x - y * math.floor(x / y), 'rounde': lambda x, n: round(x, int(n)),
}


def evaluate(t, env, memo=None):
    """Float value of t with atoms looked up in env (by Term of op 'v')."""
    if memo is None:
        memo = {}
    v = memo.get(t.id)
    if v is not None:
        return v
    op = t.op
    if op == 'c':
        v = float(t.args[0])
    elif op == 'v':
        if t.args[0] not in env:
            raise EvalError('no value for %r' % (t.args[0],))
        v = env[t.args[0]]
    elif op == 'f':
        fn = UF_EVAL.get(t.args[0])
        if fn is None:
            raise EvalError(t.args[0])
        try:
            v = fn(*[evaluate(a, env, memo) if isinstance(a, Term) else a for a in t.args[1:]])
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise EvalError()
    else:
        a, b = evaluate(t.args[0], env, memo), evaluate(t.args[1], env, memo)
        try:
            v = a + b if op == '+' else a * b if op == '*' else a / b
        except (ZeroDivisionError, OverflowError):
            raise EvalError()
    memo[t.id] = v
    return v


def atoms_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op in ('v', 'f'):
        acc.add(t)
    for a in t.args:
        if isinstance(a, Term):
            atoms_of(a, acc, seen)
    return acc


def show(t, depth=6):
    op = t.op
    if op == 'c':
        return str(t.args[0])
    if op == 'v':
        return t.args[0] if isinstance(t.args[0], str) else '.'.join(map(str, t.args[0]))
    if depth == 0:
        return '...'
    if op == 'f':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth - 1) if isinstance(a, Term) else str(a) for a in t.args[1:]))
    return '(%s %s %s)' % (show(t.args[0], depth - 1), op, show(t.args[1], depth - 1))


reset()
