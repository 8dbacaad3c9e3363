"""Obligations and their discharge."""
import random
import re
import time
from . import terms as T
from . import world as W
from . import values as V
from .world import explore, cmp_formula, f_not, TRUE, FALSE, zcheck, model_env, Unsupported, Budget, STATS
from .values import SReal, is_num, issp
from . import spec as S

PROXY = re.compile(r"\b(Vec|FVec|STable|SFrame|SReal|SBool|SArr|RowMask|NanMask|ColNames|ColMask|ColIdx|ColRef|FCols|Text|KeySet|Several|SubFrame"
                   r"|MaskStack|_Loc|_Opaque|NPFuncs|NumpyModel|PandasModel|MathModel|Guard|_TypeLike|LowArr|SStr|SInt|SCpx|FourierModel|SignalModel)\b|'function' object has no attribute")
BACKENDS = {'normaliser': 0, 'z3': 0, 'cvc5': 0, 'direct': 0}


class Result:
    """Outcome for one function contract."""

    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.paths = 0
        self.undecided = []      # reasons
        self.refuted = []        # (what, env, benv, extra)
        self.assumptions = set()
        self.solver_s = 0.0
        self.wall = 0.0
        self.cover = {'value': 0, 'missing': 0}
        self.kind = 'proof'

    def ok(self, backend):
        self.obligations += 1
        self.discharged += 1
        self.backends[backend] = self.backends.get(backend, 0) + 1

    def unknown(self, why):
        self.obligations += 1
        self.undecided.append(why)

    def refute(self, what, env=None, benv=None, extra=None):
        self.obligations += 1
        self.refuted.append((what, env, benv, extra))

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.undecided or not self.obligations:
            return 'undecided'
        return 'proved'

    def as_dict(self):
        return {'function': self.name, 'status': self.status, 'kind': self.kind, 'obligations': self.obligations,
                'discharged': self.discharged, 'backends': self.backends, 'paths': self.paths,
                'undecided': self.undecided[:5], 'refuted': [str(r[0])[:300] for r in self.refuted[:3]],
                'assumptions': sorted(self.assumptions), 'wall_s': round(self.wall, 3), 'cover': self.cover}


# ---- entailment under a path condition ----------------------------------------------------------
def _unround(t):
    """(k, inner) when t is floor(inner)/k, so equal inners give equal roundings."""
    if t.op == 'f' and t.args[0] in ('floor',):
        return ('floor', T.const(1), t.args[1])
    if t.op == '*' and t.args[0].op == 'c' and t.args[1].op == 'f' and t.args[1].args[0] == 'floor':
        return ('floor', t.args[0], t.args[1].args[1])
    return None


def entails_eq(pc, a, b, timeout=2500):
    """'proved:<backend>' | 'refuted' with env | 'unknown' that a == b under pc."""
    if T.equal(a, b):
        return 'proved', 'normaliser', None
    ua, ub = _unround(a), _unround(b)
    if ua and ub and ua[1] is ub[1]:
        if T.equal(ua[2], ub[2]):
            return 'proved', 'normaliser', None
        r = entails(pc, cmp_formula('eq', T.sub(ua[2], ub[2])), timeout)
        if r[0] == 'proved':
            return r
    return entails(pc, cmp_formula('eq', T.sub(a, b)), timeout, ne=(a, b))


def _terms_of(f, acc):
    if f[0] in ('eq', 'lt', 'le'):
        acc.append(f[1])
    elif f[0] in ('not', 'and', 'or'):
        for g in f[1:]:
            _terms_of(g, acc)


def _bools_of(f, acc):
    if f[0] == 'b':
        acc.add(f[1])
    elif f[0] in ('not', 'and', 'or'):
        for g in f[1:]:
            _bools_of(g, acc)


def eval_f(f, env, benv, memo):
    k = f[0]
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'b':
        return benv.get(f[1], False)
    if k in ('eq', 'lt', 'le'):
        v = T.evaluate(f[1], env, memo)
        tol = 1e-9
        return abs(v) <= tol if k == 'eq' else v < -tol if k == 'lt' else v <= tol
    if k == 'not':
        return not eval_f(f[1], env, benv, memo)
    if k == 'and':
        return all(eval_f(g, env, benv, memo) for g in f[1:])
    return any(eval_f(g, env, benv, memo) for g in f[1:])


def sample_refute(pc, goal, tries=400, seed=0):
    """Search a valuation satisfying pc and not goal."""
    rng = random.Random(seed)
    ts = []
    for f in list(pc) + [goal]:
        _terms_of(f, ts)
    atoms = set()
    for t in ts:
        T.atoms_of(t, atoms)
    vs = [a for a in atoms if a.op == 'v']
    if any(a.op == 'f' and a.args[0] not in T.UF_EVAL for a in atoms):
        return None
    eqs = [f[1] for f in pc if f[0] == 'eq' and f[1].op == 'v']
    benv = {}
    for f in pc:
        if f[0] == 'b':
            benv[f[1]] = True
        elif f[0] == 'not' and f[1][0] == 'b':
            benv[f[1][1]] = False
    for i in range(tries):
        env = {}
        for a in vs:
            n = a.args[0]
            if n == 'PI':
                env[n] = 3.141592653589793
                continue
            lo, hi, strict = W.BOUNDS.get(n, (None, None, False))
            mode = rng.random()
            if a.isint:
                x = rng.randint(0 if lo is None else int(lo), 40 if hi is None else int(hi))
            elif mode < 0.15:
                x = 0.0
            elif mode < 0.55:
                x = float(rng.randint(-6, 60))
            else:
                x = rng.uniform(-20, 80)
            if lo is not None and x < lo:
                x = abs(x) + lo
            if hi is not None and x > hi:
                x = hi * rng.random()
            env[n] = x
        for t in eqs:
            env[t.args[0]] = 0.0
        memo = {}
        try:
            if all(eval_f(f, env, benv, memo) for f in pc) and not eval_f(goal, env, benv, memo):
                return env, benv
        except (T.EvalError, OverflowError):
            continue
    return None


def _cvc5(solver, timeout):
    """Second opinion on an SMT-LIB dump of the same query."""
    try:
        import cvc5
        txt = solver.to_smt2()
        s = cvc5.Solver()
        s.setOption('tlimit-per', str(timeout))
        s.setLogic('ALL')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(s, sm)
            if str(out).strip():
                res = str(out).strip()
        STATS['cvc5_checks'] += 1
        return res
    except Exception:
        return None


def entails(pc, goal, timeout=2500, ne=None):
    if goal == TRUE:
        return 'proved', 'normaliser', None
    samp = sample_refute(pc, goal, 60)
    if samp is not None:
        return 'refuted', 'sampling', samp
    r, m, s = zcheck(list(pc) + [f_not(goal)], timeout)
    if r == 'unsat':
        return 'proved', 'z3', None
    if r == 'sat':
        return 'refuted', 'z3', model_env(m)
    c = _cvc5(s, timeout)
    if c == 'unsat':
        return 'proved', 'cvc5', None
    samp = sample_refute(pc, goal, 600, 1)
    if samp is not None:
        return 'refuted', 'sampling', samp
    return 'unknown', None, None


def feasible_model(pc, timeout=2500):
    """A valuation of the path condition, or 'unsat', or None."""
    samp = sample_refute(pc, FALSE, 200)
    if samp is not None:
        return samp
    r, m, _s = zcheck(list(pc), timeout)
    if r == 'unsat':
        return 'unsat'
    if r == 'sat':
        return model_env(m)
    samp = sample_refute(pc, FALSE, 1500, 3)
    return samp


# ---- contract checking ---------------------------------------------------------------------------
def compare(res, w, got, want, what, extra=None):
    """One obligation: got (code) equals want (specification) on the path of w."""
    def fail(msg):
        mv = feasible_model(w.pc)
        if mv == 'unsat':
            res.ok('z3')
            return
        env, benv = mv if mv else ({}, _path_bools(w.pc))
        if mv is None:
            res.unknown('%s: %s (path feasibility undecided)' % (what, msg))
            res.soft = getattr(res, 'soft', []) + [(what, env, benv, extra)]
            return
        res.refute('%s: %s' % (what, msg), env, benv, extra)

    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list, V.real_np.ndarray)) or len(got) != len(want):
            return fail('result %r has another shape than specified %r' % (got, want))
        for i, (g, x) in enumerate(zip(got, want)):
            compare(res, w, g, x, '%s[%d]' % (what, i), extra)
        return
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return fail('result %r is not a mapping' % (got,))
        for k, x in want.items():
            if k not in got:
                return fail('key %r absent' % k)
            compare(res, w, got[k], x, '%s[%s]' % (what, k), extra)
        return
    if want is None or got is None:
        if want is None and got is None:
            res.ok('direct')
            return
        return fail('code gives %s, specification gives %s' % (_d(got), _d(want)))
    if isinstance(want, (bool, W.SBool)) and isinstance(got, (bool, W.SBool, V.real_np.bool_)):
        gw, ww = W._bf(got), W._bf(want)
        iff = W.f_or(W.f_and(gw, ww), W.f_and(f_not(gw), f_not(ww)))
        r = entails(w.pc, iff)
        return _record(res, r, what, extra)
    if isinstance(want, str) or isinstance(got, str):
        if isinstance(want, str) and isinstance(got, str) and want == got:
            res.ok('direct')
            return
        return fail('code gives %r, specification gives %r' % (got, want))
    if issp(got) or issp(want):
        if issp(got) and issp(want) and (got == want or (got != got and want != want)):
            res.ok('direct')
            return
        return fail('code gives %s, specification gives %s' % (_d(got), _d(want)))
    if (isinstance(got, SReal) or is_num(got)) and (isinstance(want, SReal) or is_num(want)):
        a, b = V.term(got), V.term(want)
        st, be, mv = entails_eq(w.pc, a, b)
        return _record(res, (st, be, mv), '%s: %s == %s' % (what, T.show(a, 4), T.show(b, 4)), extra)
    return fail('code gives %r' % (got,))


def _record(res, r, what, extra):
    st, be, mv = r
    if st == 'proved':
        res.ok(be)
    elif st == 'refuted':
        res.refute(what, mv[0], mv[1], extra)
    else:
        res.unknown('undecided: %s' % what[:200])
        res.soft = getattr(res, 'soft', []) + [(what, None, None, extra)]


def _d(x):
    return 'a value' if isinstance(x, SReal) else repr(x)


def _path_bools(pc):
    b = {}
    for f in pc:
        if f[0] == 'b':
            b[f[1]] = True
        elif f[0] == 'not' and f[1][0] == 'b':
            b[f[1][1]] = False
    return b


def check_contract(name, run, spec, assumptions=(), modes=('default', 'error'), max_paths=2500, budget=60,
                   post=None, allow_raise=(), light=False):
    """Verify `run(world)` against `spec(world, outcome)` on every path.

    run    -> outcome of the code (the spec is run afterwards in the same world, so that its own
              case distinctions extend the path)
    spec   -> wanted outcome, or None for "no functional obligation"
    post   -> post(world, res, outcome) may add further obligations
    """
    res = Result(name)
    t0 = time.time()
    z0 = STATS['z3_time']
    for mode in modes:
        def body(w, mode=mode):
            w.warn = mode
            try:
                got = run(w)
                exc = None
            except S.Skip:
                raise
            except (Exception, SystemExit) as e:      # an exception of the code under contract
                got, exc = None, e
            w.after_warn = w.warn
            w.warn = 'default'
            if w.unsupported is not None:
                raise Unsupported(w.unsupported)
            want = S.evaluate(lambda: spec(w)) if spec is not None and exc is None else None
            return got, exc, want
        try:
            for w, out, exc in explore(body, assumptions, max_paths, deadline=t0 + budget, light=light):
                res.paths += 1
                for e in w.events:
                    if e[0] == 'assume':
                        res.assumptions.add(e[1])
                if isinstance(exc, Unsupported):
                    res.unknown('unsupported: %s' % exc)
                    continue
                if isinstance(exc, S.Skip):
                    res.skipped = getattr(res, 'skipped', 0) + 1
                    continue
                if exc is not None:
                    res.unknown('specification raised %r' % (exc,))
                    continue
                got, cexc, want = out
                if isinstance(cexc, (RecursionError, MemoryError)) or isinstance(cexc, (AttributeError, TypeError)) and PROXY.search(str(cexc)):
                    res.unknown('unsupported: %s' % cexc)
                    continue
                if cexc is not None and not isinstance(cexc, allow_raise):
                    W.World.current = None
                    mv = feasible_model(w.pc)
                    if mv == 'unsat':
                        res.ok('z3')
                    elif mv is None:
                        res.unknown('may raise %r' % (cexc,))
                        res.soft = getattr(res, 'soft', []) + [('raises', None, _path_bools(w.pc), mode)]
                    else:
                        res.refute('%s raises %s: %s' % (name, type(cexc).__name__, cexc), mv[0], mv[1], mode)
                    continue
                res.cover['missing' if got is None else 'value'] += 1
                if spec is not None:
                    compare(res, w, got, want, '%s(warnings=%s)' % (name, mode), mode)
                # frame
                if w.mutated:
                    mv = feasible_model(w.pc)
                    if mv and mv != 'unsat':
                        res.refute('%s modifies its arguments (%s)' % (name, w.mutated[0]), mv[0], mv[1], mode)
                    else:
                        res.unknown('argument modified on an undecided path')
                else:
                    res.ok('direct')
                if post is not None:
                    post(w, res, got)
        except Budget as e:
            res.unknown('budget: %s' % e)
        if res.refuted:
            break
    res.wall = time.time() - t0
    res.solver_s = STATS['z3_time'] - z0
    return res
