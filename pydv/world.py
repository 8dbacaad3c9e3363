"""Path exploration: the extracted code is re-executed once per path, every branch on a symbolic
condition is decided by the world (both sides are explored when both are feasible)."""
import warnings
import z3
from fractions import Fraction
from . import terms as T


class Unsupported(BaseException):
    """The code left the subset the models cover: the function is undecided (never a violation)."""


class PathAbort(BaseException):
    pass


class Budget(BaseException):
    pass


# ---- formulas ------------------------------------------------------------------------------
# ('b', name) | ('eq'|'lt'|'le', Term) meaning Term == / < / <= 0 | ('not', f) | ('and', f, g) | ('or', f, g)
TRUE, FALSE = ('true',), ('false',)


def f_not(f):
    if f == TRUE:
        return FALSE
    if f == FALSE:
        return TRUE
    return f[1] if f[0] == 'not' else ('not', f)


def f_and(f, g):
    if f == FALSE or g == FALSE:
        return FALSE
    if f == TRUE:
        return g
    if g == TRUE:
        return f
    return ('and', f, g)


def f_or(f, g):
    return f_not(f_and(f_not(f), f_not(g)))


def _norm_poly(p):
    m = min(p)
    c = abs(p[m])
    return tuple(sorted((k, v / c) for k, v in p.items()))


def cmp_formula(op, t):
    """Simplified comparison of t with zero."""
    try:
        n, d = T.canon(t)
    except T.TooBig:
        return (op, t)
    if not n or (len(n) == 1 and () in n and len(d) == 1 and () in d):
        v = (n.get((), 0) / d[()]) if n and () in d else Fraction(0)
        r = v == 0 if op == 'eq' else v < 0 if op == 'lt' else v <= 0
        return TRUE if r else FALSE
    if op == 'eq':
        if len(n) == 1 and () in n:
            return FALSE
    return (op, t)


def _atom_sign(a):
    """(non-negative, positive) of an atom."""
    t = T._atoms[a]
    if t.op == 'v':
        b = BOUNDS.get(t.args[0])
        if b is None or b[0] is None:
            return False, False
        return b[0] >= 0, b[0] > 0 or (b[0] == 0 and b[2])
    if t.args[0] == 'exp':
        return True, True
    if t.args[0] == 'sqrt':
        return True, _positive(t.args[1])
    if t.args[0] == 'abs':
        return True, False
    return False, False


def _positive(t):
    try:
        n, d = T.canon(t)
    except T.TooBig:
        return False
    return _poly_sign(n) == 'pos' and _poly_sign(d) == 'pos'


def _poly_sign(p):
    """'pos', 'nonneg', 'neg', 'nonpos' or None, by signs of monomials."""
    s = None
    strict = False
    for m, c in p.items():
        pos = True
        for a, e in m:
            nn, po = _atom_sign(a)
            if e % 2 and not nn:
                return None
            if not po:
                pos = False
        g = c > 0
        if s is None:
            s = g
        elif s != g:
            return None
        strict = strict or pos
    if s is None:
        return None
    return ('pos' if strict else 'nonneg') if s else ('neg' if strict else 'nonpos')


def nonneg(t, memo=None):
    """Non-negative by construction (sums of squares and the like)."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        if t.op == 'c':
            r = t.args[0] >= 0
        elif t.op in ('v', 'f'):
            r = _atom_sign(t.aid)[0]
        elif t.op == '+':
            r = nonneg(t.args[0], memo) and nonneg(t.args[1], memo)
        elif t.op == '*' and t.args[0] is t.args[1]:
            r = True
        else:
            r = nonneg(t.args[0], memo) and nonneg(t.args[1], memo)
        memo[t.id] = r
    return r


def quick(f):
    """Truth value of an atomic comparison decided by signs of monomials, or None."""
    if f[0] not in ('eq', 'lt', 'le'):
        return None
    if f[0] == 'lt' and f[1].size < 100000 and nonneg(f[1]):
        return False
    try:
        n, d = T.canon(f[1])
    except T.TooBig:
        return None
    sn = _poly_sign(n)
    if sn is None:
        return None
    if f[0] == 'eq':
        return False if sn in ('pos', 'neg') else None
    if not (len(d) == 1 and () in d):
        sd = _poly_sign(d)
        if sd in ('neg', 'nonpos'):
            sn = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[sn]
        elif sd is None:
            return None
    elif d[()] < 0:
        sn = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[sn]
    if f[0] == 'lt':
        return {'pos': False, 'nonneg': False, 'neg': True}.get(sn)
    return {'pos': False, 'neg': True, 'nonpos': True}.get(sn)


def key(f):
    """Canonical key of an atomic formula (equal keys => equivalent)."""
    if f[0] == 'b':
        return f
    if f[0] in ('eq', 'lt', 'le'):
        try:
            n, d = T.canon(f[1])
        except T.TooBig:
            return (f[0], f[1].id)
        if f[0] == 'eq':
            p = _norm_poly(n)
            if p[0][1] < 0:
                p = tuple((k, -v) for k, v in p)
            return ('eq', p)
        return (f[0], _norm_poly(n), _norm_poly(d) if () not in d or len(d) > 1 else
                (1 if d[()] > 0 else -1))
    if f[0] == 'not':
        return ('not', key(f[1]))
    return (f[0],) + tuple(key(g) for g in f[1:])


def show_f(f):
    if f[0] == 'b':
        return str(f[1]) if not isinstance(f[1], tuple) else '.'.join(map(str, f[1]))
    if f[0] in ('eq', 'lt', 'le'):
        return '%s %s 0' % (T.show(f[1]), {'eq': '==', 'lt': '<', 'le': '<='}[f[0]])
    if f[0] == 'not':
        return 'not(%s)' % show_f(f[1])
    return '(' + (' %s ' % f[0]).join(show_f(g) for g in f[1:]) + ')'


# ---- z3 --------------------------------------------------------------------------------------
_z3vars = {}
_z3bools = {}


def zreset():
    _z3vars.clear(); _z3bools.clear(); _lin.clear()


def zterm(t, axioms):
    """z3 term of t; axioms of function atoms are appended to the dict `axioms` (keyed by atom id)."""
    if t.op == 'c':
        f = t.args[0]
        return z3.Q(f.numerator, f.denominator)
    if t.op in ('v', 'f'):
        v = _z3vars.get(t.aid)
        if v is None:
            v = z3.Real('a%d' % t.aid)
            _z3vars[t.aid] = v
        if t.aid not in axioms:
            axioms[t.aid] = True          # guards recursion
            ax = []
            if t.op == 'f':
                ax = _uf_axioms(t, v, axioms)
            elif t.isint:
                ax = [z3.IsInt(v)]
            lb = BOUNDS.get(t.args[0]) if t.op == 'v' else None
            if lb is not None:
                if lb[0] is not None:
                    ax = ax + [v > lb[0] if lb[2] else v >= lb[0]]
                if lb[1] is not None:
                    ax = ax + [v <= lb[1]]
            axioms[t.aid] = ax
        return v
    a, b = zterm(t.args[0], axioms), zterm(t.args[1], axioms)
    return a + b if t.op == '+' else a * b if t.op == '*' else a / b


BOUNDS = {}     # var name -> (lower or None, upper or None, strict lower?)


def _partner(other):
    o = _z3vars.get(other.aid)
    if o is None:
        o = z3.Real('a%d' % other.aid); _z3vars[other.aid] = o
    return o


def _uf_axioms(t, v, axioms):
    fn = t.args[0]
    a = [zterm(x, axioms) if isinstance(x, T.Term) else x for x in t.args[1:]]
    if fn == 'sqrt':
        return [v >= 0, v * v == a[0]]
    if fn == 'floor':
        return [z3.IsInt(v), v <= a[0], a[0] < v + 1]
    if fn == 'exp':
        return [v > 0]
    if fn == 'rounde':
        u = z3.Q(1, 2 * 10 ** t.args[2]) if t.args[2] >= 0 else z3.RealVal(10 ** -t.args[2]) / 2
        return [v - a[0] <= u, a[0] - v <= u]
    if fn in ('tcdf', 'normcdf'):
        o = _partner(T.uf(fn, T.neg(t.args[1]), *t.args[2:]))
        return [v >= 0, v <= 1, v + o == 1, z3.Implies(a[0] >= 0, v * 2 >= 1), z3.Implies(a[0] <= 0, v * 2 <= 1)]
    if fn in ('tppf', 'normppf'):
        o = _partner(T.uf(fn, T.sub(T.const(1), t.args[1]), *t.args[2:]))
        return [v + o == 0, z3.Implies(a[0] * 2 >= 1, v >= 0), z3.Implies(a[0] * 2 <= 1, v <= 0)]
    if fn == 'atan2':
        pi = zterm(T.var('PI'), axioms)
        return [v <= pi, v > -pi, z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0),
                z3.Implies(z3.And(a[0] == 0, a[1] > 0), v == 0), z3.Implies(z3.And(a[0] == 0, a[1] < 0), v == pi)]
    if fn == 'log':
        return [z3.Implies(a[0] == 1, v == 0), z3.Implies(a[0] > 1, v > 0), z3.Implies(a[0] < 1, v < 0)]
    if fn in ('sin', 'cos'):
        o = _partner(T.uf('cos' if fn == 'sin' else 'sin', t.args[1]))
        return [v * v + o * o == 1]
    return []


def zformula(f, axioms):
    if f == TRUE:
        return z3.BoolVal(True)
    if f == FALSE:
        return z3.BoolVal(False)
    k = f[0]
    if k == 'b':
        v = _z3bools.get(f[1])
        if v is None:
            v = z3.Bool('b%d' % len(_z3bools)); _z3bools[f[1]] = v
        return v
    if k in ('eq', 'lt', 'le'):
        t = f[1]
        try:
            n, d = T.canon(t)
            if sum(len(m) for m in n) < 400:
                zn = _zpoly(n, axioms)
                if k == 'eq':
                    return zn == 0
                if len(d) == 1 and () in d:
                    z = zn if d[()] > 0 else -zn
                else:
                    z = zn * _zpoly(d, axioms)
                return z < 0 if k == 'lt' else z <= 0
        except T.TooBig:
            pass
        z = zterm(t, axioms)
        return z == 0 if k == 'eq' else z < 0 if k == 'lt' else z <= 0
    if k == 'not':
        return z3.Not(zformula(f[1], axioms))
    return (z3.And if k == 'and' else z3.Or)([zformula(g, axioms) for g in f[1:]])


def _zpoly(p, axioms):
    out = []
    for m, c in p.items():
        fac = [z3.Q(c.numerator, c.denominator)] if c != 1 or not m else []
        for a, e in m:
            v = zterm(T._atoms[a], axioms)
            fac.extend([v] * e)
        t = fac[0]
        for x in fac[1:]:
            t = t * x
        out.append(t)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def _flat_axioms(axioms):
    return [x for v in axioms.values() if v is not True for x in v]


# ---- linear abstraction (path pruning only: what it refutes is infeasible) ------------------------
_lin = {}


def _lvar(k):
    v = _lin.get(k)
    if v is None:
        v = _lin[k] = z3.Real('l%d' % len(_lin))
    return v


def _latom(t, ax):
    k = ('a', t.aid)
    v = _lvar(k)
    if k not in ax:
        ax[k] = []
        out = []
        if t.op == 'v':
            lb = BOUNDS.get(t.args[0])
            if lb is not None:
                if lb[0] is not None:
                    out.append(v > lb[0] if lb[2] else v >= lb[0])
                if lb[1] is not None:
                    out.append(v <= lb[1])
        else:
            fn = t.args[0]
            a = [lterm(x, ax) if isinstance(x, T.Term) else x for x in t.args[1:]]
            if fn == 'sqrt':
                out += [v >= 0, (v == 0) == (a[0] == 0)]
                if t.args[1].op == 'c':
                    f = Fraction(repr(float(t.args[1].args[0]) ** 0.5))
                    out += [v > z3.Q(f.numerator * 10 ** 6 - f.denominator, f.denominator * 10 ** 6), v < z3.Q(f.numerator * 10 ** 6 + f.denominator, f.denominator * 10 ** 6)]
            elif fn == 'floor':
                out += [v <= a[0], a[0] < v + 1]
            elif fn == 'exp':
                out += [v > 0]
            elif fn == 'rounde':
                u = z3.Q(1, 2 * 10 ** t.args[2]) if t.args[2] >= 0 else z3.RealVal(10 ** -t.args[2]) / 2
                out += [v - a[0] <= u, a[0] - v <= u]
            elif fn in ('tcdf', 'normcdf'):
                out += [v >= 0, v <= 1, z3.Implies(a[0] >= 0, v * 2 >= 1), z3.Implies(a[0] <= 0, v * 2 <= 1)]
            elif fn in ('tppf', 'normppf'):
                out += [z3.Implies(a[0] * 2 >= 1, v >= 0), z3.Implies(a[0] * 2 <= 1, v <= 0)]
            elif fn == 'log':
                out += [z3.Implies(a[0] == 1, v == 0), z3.Implies(a[0] > 1, v > 0), z3.Implies(a[0] < 1, v < 0)]
            elif fn in ('sin', 'cos'):
                out += [v >= -1, v <= 1]
        ax[k] = out
    return v


def _lpoly(p, ax):
    out = z3.RealVal(0)
    for m, c in p.items():
        q = z3.Q(c.numerator, c.denominator)
        if not m:
            out = out + q
            continue
        if len(m) == 1 and m[0][1] == 1:
            out = out + q * _latom(T._atoms[m[0][0]], ax)
            continue
        k = ('m', m)
        v = _lvar(k)
        if k not in ax:
            if all(e % 2 == 0 or _atom_sign(a)[0] for a, e in m):
                ax[k] = [v >= 0]
                if all(_atom_sign(a)[1] for a, e in m):
                    ax[k] = [v > 0]
            else:
                ax[k] = []
        out = out + q * v
    return out


def lterm(t, ax):
    try:
        n, d = T.canon(t)
    except T.TooBig:
        return _lvar(('t', t.id))
    if not n:
        return z3.RealVal(0)
    if len(d) == 1 and () in d:
        return _lpoly({m: c / d[()] for m, c in n.items()}, ax)
    cn, cd = T._content(n), T._content(d)
    if n[min(n)] < 0:
        cn = -cn
    if d[min(d)] < 0:
        cd = -cd
    n = {m: c / cn for m, c in n.items()}
    d = {m: c / cd for m, c in d.items()}
    k = ('q', tuple(sorted(n.items())), tuple(sorted(d.items())))
    v = _lvar(k)
    if k not in ax:
        ax[k] = []
        ln, ld = _lpoly(n, ax), _lpoly(d, ax)
        ax[k] = [(v == 0) == (ln == 0), (v > 0) == z3.Or(z3.And(ln > 0, ld > 0), z3.And(ln < 0, ld < 0)), ld != 0]
    c = cn / cd
    return z3.Q(c.numerator, c.denominator) * v


def lformula(f, ax):
    if f == TRUE:
        return z3.BoolVal(True)
    if f == FALSE:
        return z3.BoolVal(False)
    k = f[0]
    if k == 'b':
        v = _z3bools.get(f[1])
        if v is None:
            v = z3.Bool('b%d' % len(_z3bools)); _z3bools[f[1]] = v
        return v
    if k in ('eq', 'lt', 'le'):
        z = lterm(f[1], ax)
        return z == 0 if k == 'eq' else z < 0 if k == 'lt' else z <= 0
    if k == 'not':
        return z3.Not(lformula(f[1], ax))
    return (z3.And if k == 'and' else z3.Or)([lformula(g, ax) for g in f[1:]])


STATS = {'z3_checks': 0, 'z3_time': 0.0, 'cvc5_checks': 0}


def zcheck(formulas, timeout=1000):
    """z3 verdict ('sat'/'unsat'/'unknown', model) for a conjunction of formulas."""
    import time
    s = z3.Solver()
    s.set('timeout', timeout)
    ax = {}
    zs = [zformula(f, ax) for f in formulas]
    s.add(*zs)
    s.add(*_flat_axioms(ax))
    t0 = time.time()
    r = s.check()
    STATS['z3_checks'] += 1
    STATS['z3_time'] += time.time() - t0
    return str(r), (s.model() if r == z3.sat else None), s


def model_env(model):
    """{var name: float} and {bool name: bool} of a z3 model."""
    env, benv = {}, {}
    for aid, v in _z3vars.items():
        t = T._atoms[aid] if aid < len(T._atoms) else None
        if t is None or t.op != 'v':
            continue
        m = model.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(m):
                m = m.approx(20)
            env[t.args[0]] = float(m.as_fraction())
        except Exception:
            env[t.args[0]] = 0.0
    for n, v in _z3bools.items():
        benv[n] = z3.is_true(model.eval(v, model_completion=True))
    return env, benv


# ---- the world -------------------------------------------------------------------------------
class World:
    """One path.  `prefix` is the list of decisions to replay."""
    current = None

    def __init__(self, prefix=(), assumptions=(), feas_timeout=400, light=False):
        self.formula = lformula if light else zformula
        self.prefix = list(prefix)
        self.trace = []            # (value, forced, formula)
        self.pc = list(assumptions)
        self.known = {}
        for f in self.pc:
            self._learn(f, True)
        self.solver = None
        self.unsupported = None
        self._warn = 'default'
        self.np_err = {'divide': 'warn', 'invalid': 'warn', 'over': 'warn', 'under': 'ignore'}
        self.events = []           # observable effects (ghost log)
        self.draws = None
        self.exact_pi = False      # pi is a symbol, so that trigonometric identities hold exactly
        self.inputs = {}           # modelled files: path -> frame
        self.outputs = []          # frames written: (path, frame, options)
        self.mutated = []
        self.feas_timeout = feas_timeout
        self.fresh = {}
        self.maxdec = 4000

    @property
    def warn(self):
        return self._warn

    @warn.setter
    def warn(self, mode):
        # numpy's own arithmetic on concrete nan/inf follows the modelled filter
        import warnings
        self._warn = mode
        if World.current is self:
            warnings.simplefilter('error' if mode == 'error' else 'ignore')

    # -- helpers
    def _learn(self, f, val):
        if not val:
            f = f_not(f)
        if f[0] == 'and':
            self._learn(f[1], True); self._learn(f[2], True); return
        val = True
        if f[0] == 'not':
            f, val = f[1], False
        self.known[key(f)] = val
        if f[0] in ('lt', 'le', 'eq'):
            # everything this says about the sign of the term
            k = self.known
            n = T.neg(f[1])
            lt, le, eq = key(('lt', f[1])), key(('le', f[1])), key(('eq', f[1]))
            gt, ge = key(('lt', n)), key(('le', n))
            if k.get(le) is False:
                k[gt] = True
            if k.get(ge) is False:
                k[lt] = True
            if k.get(lt) is False:
                k[ge] = True
            if k.get(gt) is False:
                k[le] = True
            if k.get(le) is True and (k.get(ge) is True):
                k[eq] = True
            if k.get(eq) is False:
                if k.get(le) is True:
                    k[lt] = True
                if k.get(ge) is True:
                    k[gt] = True
            if k.get(lt) is True:
                k[le], k[eq], k[gt], k[ge] = True, False, False, False
            if k.get(gt) is True:
                k[ge], k[eq], k[lt], k[le] = True, False, False, False
            if k.get(eq) is True:
                k[le], k[ge], k[lt], k[gt] = True, True, False, False

    def _solver(self):
        if self.solver is None:
            s = z3.Solver(); s.set('timeout', self.feas_timeout)
            self._ax = {}
            self._axdone = set()
            self.solver = s
            for f in self.pc:
                self._push(f)
        return self.solver

    def _push(self, f):
        z = self.formula(f, self._ax)
        for a, x in list(self._ax.items()):
            if a not in self._axdone and x is not True:
                self._axdone.add(a)
                self.solver.add(*x)
        self.solver.add(z)

    def feasible(self, f):
        import time
        s = self._solver()
        s.push()
        z = self.formula(f, self._ax)
        extra = [x for a, xs in self._ax.items() if a not in self._axdone and xs is not True for x in xs]
        s.add(z, *extra)
        t0 = time.time()
        r = s.check()
        STATS['z3_checks'] += 1
        STATS['z3_time'] += time.time() - t0
        s.pop()
        return r != z3.unsat

    def assume(self, f):
        if f == TRUE:
            return
        if f == FALSE:
            raise PathAbort()
        self.pc.append(f)
        self._learn(f, True)
        if self.solver is not None:
            self._push(f)

    def decide(self, f):
        if f == TRUE:
            return True
        if f == FALSE:
            return False
        neg = False
        while f[0] == 'not':
            f = f[1]; neg = not neg
        k = key(f)
        if k in self.known:
            return self.known[k] != neg
        q = quick(f)
        if q is None and f[0] == 'b' and isinstance(f[1], tuple) and f[1][0] in ('allnan', 'anynan'):
            q = self._missing_fact(f[1])
        if q is not None:
            return q != neg
        i = len(self.trace)
        if i > self.maxdec:
            raise Budget()
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            simple = f[0] == 'b'
            t_ok = True if simple else self.feasible(f)
            f_ok = True if simple else self.feasible(f_not(f))
            if t_ok and f_ok:
                val, forced = True, False
            elif t_ok:
                val, forced = True, True
            elif f_ok:
                val, forced = False, True
            else:
                raise PathAbort()
        self.trace.append((val, forced))
        g = f if val else f_not(f)
        self.pc.append(g)
        self._learn(g, True)
        if self.solver is not None:
            self._push(g)
        if f[0] == 'b' and isinstance(f[1], tuple) and f[1][0] in ('allnan', 'anynan'):
            self._missing_learn(f[1], val)
        return val != neg

    # a column of an empty table has no missing cell and no present cell
    def _rows(self, n):
        return ('eq', T.var(('sum', n[1], n[2], (), '1', '1'), True))

    def _missing_fact(self, n):
        if self.known.get(key(self._rows(n))) is True:
            return n[0] == 'allnan'
        return None

    def _missing_learn(self, n, val):
        other = self.known.get(('b', ('anynan' if n[0] == 'allnan' else 'allnan',) + n[1:]))
        alln, anyn = (val, other) if n[0] == 'allnan' else (other, val)
        r = self._rows(n)
        if alln is True and anyn is False:
            self.assume(r)
        elif alln is False or anyn is True:
            self.known.setdefault(key(r), False)

    def flag(self, why):
        if self.unsupported is None:
            self.unsupported = why
        raise Unsupported(why)


def cur():
    return World.current


class SBool:
    """A symbolic truth value."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return cur().decide(self.f)

    def __and__(self, o):
        return mkbool(f_and(self.f, _bf(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or(self.f, _bf(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            a, b = self.f, _bf(o)
            return mkbool(f_or(f_and(a, b), f_and(f_not(a), f_not(b))))
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        cur().flag('hash of symbolic bool')

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        return '<SBool>'


def _bf(o):
    if isinstance(o, SBool):
        return o.f
    return TRUE if o else FALSE


def mkbool(f):
    if f == TRUE:
        return True
    if f == FALSE:
        return False
    return SBool(f)


def explore(run, assumptions=(), max_paths=3000, feas_timeout=400, deadline=None, light=False):
    """Run `run(world)` once per path; yields (world, outcome, exception)."""
    import time
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths or (deadline and time.time() > deadline):
            raise Budget('more than %d paths' % max_paths)
        w = World(prefix, assumptions, feas_timeout, light)
        World.current = w
        out, exc = None, None
        saved = warnings.catch_warnings()
        saved.__enter__()
        warnings.simplefilter('ignore')
        try:
            out = run(w)
        except PathAbort:
            out = exc = None
            w.aborted = True
        except Unsupported as e:
            exc = e
        except Budget:
            raise
        except (Exception, SystemExit) as e:
            exc = e
        finally:
            World.current = None
            saved.__exit__(None, None, None)
        for i in range(len(prefix), len(w.trace)):
            v, forced = w.trace[i]
            if not forced and v:
                stack.append([tuple(x) for x in w.trace[:i]] + [(False, False)])
        if getattr(w, 'aborted', False):
            continue
        if w.unsupported is not None and not isinstance(exc, Unsupported):
            exc = Unsupported(w.unsupported)       # swallowed by a bare except
        yield w, out, exc
