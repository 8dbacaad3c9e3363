"""Contracts: an obligation side (symbolic, every path of the current source) and a run-time side
(the same specification evaluated on concrete inputs of the real code)."""
import contextlib
import io
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

from . import prove as P
from . import world as W
from . import terms as T

REPO = os.environ.get('VERIF_REPO', '/repo')


class SkipCase(Exception):
    """The concrete input is outside the precondition or too close to a decision to judge."""


class Timeout(BaseException):
    pass


_real_path = False


def real(modname):
    """The real module of the working tree, imported as is."""
    global _real_path
    import importlib
    if not _real_path:
        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        _real_path = True
    if modname not in sys.modules:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            importlib.import_module(modname)
    return sys.modules[modname]


_loader = None


def loader():
    """The extraction of the working tree's current source (one per process)."""
    global _loader
    if _loader is None:
        from .loader import Loader
        _loader = Loader(REPO)
    return _loader


@contextlib.contextmanager
def time_limit(seconds):
    def h(*_a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def entry_filter(mode):
    """Interpreter warning state at the call; everything is restored afterwards."""
    import numpy as np
    with warnings.catch_warnings(), np.errstate(), contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.resetwarnings()
        warnings.simplefilter(mode)
        yield


class Contract:
    prop = ''
    name = ''
    functions = ()            # real functions under this contract
    assumptions = ()          # unchecked assumptions of this contract
    budget = 60               # seconds for the proof
    proof = True
    bound = ''                # what the run-time side covers
    quick_cases, thorough_cases = 60, 400

    def prove(self):
        """Result of the deductive side."""
        raise NotImplementedError

    def concretise(self, env, benv, extra):
        """Concrete cases for a counter-model (any iterable; may be empty)."""
        return ()

    def cases(self, rng, n):
        return ()

    def judge(self, case):
        """None when the real code meets the specification on the case, else what failed."""
        return None

    def known(self, case, why):
        """Text of the known finding this failure is, or None."""
        return None


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


SWALLOWED = re.compile(r'code gives None, specification gives a value')
RAISED = re.compile(r"code gives 'raise'|\[1\]: result '\w+(Error|Exception)\b|\) raises \w+:|^\S.* raises \w+: ")


def from_code(e):
    """The exception comes out of the code under contract, not out of the harness."""
    own, t = os.path.join(REPO, 'metcalcpy') + os.sep, e.__traceback__
    while t is not None:
        if t.tb_frame.f_code.co_filename.startswith(own):
            return True
        t = t.tb_next
    return False


def run_case(c, case, limit=60):
    """(verdict, text): 'ok' | 'skip' | 'fail'."""
    try:
        with time_limit(limit):
            why = c.judge(case)
    except SkipCase as e:
        return 'skip', str(e)
    except Timeout:
        return 'fail', 'no result within %d s' % limit
    except (Exception, SystemExit) as e:
        if not from_code(e):
            raise
        return 'fail', 'raises %s: %s' % (type(e).__name__, e)
    return ('ok', '') if why is None else ('fail', why)


def run_contract(c, seed, tier):
    """Everything about one contract; returns a plain dict."""
    t0 = time.time()
    out = {'contract': c.name, 'functions': list(c.functions), 'failures': [], 'known': [],
           'cross_checked': 0, 'cross_skipped': 0, 'proof': None, 'error': None, 'assumptions': set(c.assumptions)}
    r = None
    if c.proof:
        s0 = dict(W.STATS)
        try:
            with time_limit(c.budget * 2 + 30):
                r = c.prove()
        except Timeout:
            r = P.Result(c.name)
            r.unknown('time limit of the proof')
        except W.Unsupported as e:
            r = P.Result(c.name)
            r.unknown('unsupported: %s' % e)
        except (Exception, SystemExit) as e:       # extraction failed: the function left the supported subset
            r = P.Result(c.name)
            r.unknown('extraction: %s: %s' % (type(e).__name__, str(e)[:200]))
            out['trace'] = traceback.format_exc()[-1500:]
        finally:
            W.World.current = None
        out['proof'] = r.as_dict()
        out['proof']['solver_s'] = round(W.STATS['z3_time'] - s0['z3_time'], 3)
        out['assumptions'] |= set(r.assumptions)
    seen = set()

    def note(case, why, source):
        k = c.known(case, why)
        if k:
            if k not in out['known']:
                out['known'].append(k)
            return False
        key = why[:80]
        if key in seen:
            return True
        seen.add(key)
        out['failures'].append({'source': source, 'case': jsonable(case), 'why': why})
        return True

    # counter-models are replayed on the real code
    confirmed, spurious = False, set()
    if r is not None and (r.refuted or getattr(r, 'soft', None)):
        for what, env, benv, extra in (r.refuted + getattr(r, 'soft', []))[:12]:
            try:
                cs = list(c.concretise(env or {}, benv or {}, extra))
            except Exception as e:
                out.setdefault('concretise_error', '%s: %s' % (type(e).__name__, e))
                cs = []
            for case in cs[:20]:
                v, why = run_case(c, case)
                if v == 'ok' and SWALLOWED.search(str(what)):
                    spurious.add(str(what))
                if v == 'fail' and note(case, '%s [obligation: %s]' % (why, str(what)[:200]), 'counter-model'):
                    confirmed = True
                    break
            if confirmed:
                break
    # run-time check of the same specification
    n = c.quick_cases if tier == 'quick' else c.thorough_cases
    undecided = r is not None and r.status != 'proved'
    if undecided:
        n = max(n * 10, 600)
    rng = random.Random('%s/%s' % (seed, c.name))
    limit = time.time() + (40 if undecided else 25 if tier == 'quick' else 120)
    distinct = set()
    for case in c.cases(rng, n):
        if time.time() > limit:
            break
        v, why = run_case(c, case)
        if v == 'skip':
            out['cross_skipped'] += 1
            continue
        out['cross_checked'] += 1
        text = json.dumps(jsonable(case), sort_keys=True, default=str)
        distinct.add(hash(text))
        if 'sample' not in out or len(text) < len(out['sample']):
            out['sample'] = text
        if v == 'fail' and note(case, why, 'generated input') and len(out['failures']) >= 3:
            break
    out['cross_distinct'] = len(distinct)
    # an exception that the real code does not raise on the input of the counter-model is one of the model's own
    # (also when the code turns it into a missing value)
    hard = [x for x in (r.refuted if r is not None else []) if not RAISED.search(str(x[0])) and str(x[0]) not in spurious]
    if hard and not out['failures'] and not out['known']:
        out['unconfirmed'] = {'obligation': str(hard[0][0])[:600], 'model': jsonable(hard[0][1] or {}),
                              'bools': jsonable({str(k): v for k, v in (hard[0][2] or {}).items()})}
    out['assumptions'] = sorted(out['assumptions'])
    out['wall_s'] = round(time.time() - t0, 3)
    return out
