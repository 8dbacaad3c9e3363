#!/usr/bin/env python
"""Decide one property:  check.py <id>      (VERIF_SEED, VERIF_TIER=quick|thorough)
   replay one finding:   check.py --replay <file>"""
import sys
sys.dont_write_bytecode = True
import importlib
import json
import multiprocessing as mp
import os
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.setrecursionlimit(20000)
import pydv                                           # noqa: E402
from pydv import contract as C                        # noqa: E402
from specs import registry                            # noqa: E402

EV = os.path.join(HERE, 'evidence')


def one(args):
    prop, i, seed, tier = args
    c = CONTRACTS[i]
    try:
        return C.run_contract(c, seed, tier)
    except (Exception, SystemExit) as e:
        import traceback
        return {'contract': c.name, 'functions': list(c.functions), 'failures': [], 'known': [], 'cross_checked': 0,
                'cross_skipped': 0, 'cross_distinct': 0, 'proof': None, 'error': traceback.format_exc()[-2500:],
                'assumptions': [], 'wall_s': 0}


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(registry.MODULES[d['property']])
    for c in mod.contracts(d['property']):
        if c.name == d['contract']:
            v, why = C.run_case(c, d['case'])
            print('%s: %s' % (v, why))
            return 1 if v == 'fail' else 0
    print('unknown contract')
    return 2


def main():
    global CONTRACTS
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    mod = importlib.import_module(registry.MODULES[prop])
    CONTRACTS = [c for c in mod.contracts(prop) if only is None or only in c.name]
    if getattr(mod, 'preload', None):
        mod.preload(prop)
    order = sorted(range(len(CONTRACTS)), key=lambda i: -getattr(CONTRACTS[i], 'cost', 1))
    jobs = [(prop, i, seed, tier) for i in order]
    ncpu = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if ncpu > 1:
        with mp.get_context('fork').Pool(ncpu) as pool:
            res = pool.map(one, jobs, chunksize=1)
    else:
        res = [one(j) for j in jobs]
    res.sort(key=lambda r: r['contract'])
    return report(prop, seed, tier, mod, res, time.time() - t0, only)


def report(prop, seed, tier, mod, res, wall, only):
    info = mod.info(prop)
    ob = sum(r['proof']['obligations'] for r in res if r['proof'])
    di = sum(r['proof']['discharged'] for r in res if r['proof'])
    back = {}
    for r in res:
        for k, v in (r['proof'] or {}).get('backends', {}).items():
            back[k] = back.get(k, 0) + v
    proved = sorted(r['contract'] for r in res if r['proof'] and r['proof']['status'] == 'proved')
    undec = {r['contract']: r['proof']['undecided'][:2] + r['proof']['refuted'][:2]
             for r in res if r['proof'] and r['proof']['status'] != 'proved'}
    bounded = sorted(r['contract'] for r in res if not r['proof'])
    cov = {'obligations': ob, 'discharged': di,
           'checker_cmd': '/opt/venv/bin/python check.py %s' % prop,
           'trusted_base': registry.TRUSTED,
           'contracts': len(res), 'contracts_proved': len(proved), 'contracts_undecided': undec,
           'contracts_bounded_only': bounded,
           'functions_under_contract': sorted({f for r in res if r['proof'] for f in r['functions']}),
           'functions_bounded': sorted({f for r in res if not r['proof'] for f in r['functions']}),
           'paths': sum(r['proof']['paths'] for r in res if r['proof']),
           'discharged_by': back,
           'solver_s': round(sum(r['proof'].get('solver_s', 0) for r in res if r['proof']), 2),
           'vacuity': {'paths_with_value': sum(r['proof']['cover'].get('value', 0) for r in res if r['proof']),
                       'paths_with_missing': sum(r['proof']['cover'].get('missing', 0) for r in res if r['proof'])},
           'runtime_check': {'evaluations': sum(r['cross_checked'] for r in res),
                             'distinct': sum(r.get('cross_distinct', 0) for r in res),
                             'skipped': sum(r['cross_skipped'] for r in res),
                             'bound': info.get('bound', '')},
           'per_contract': [{'contract': r['contract'], 'status': (r['proof'] or {}).get('status', 'bounded'),
                             'obligations': (r['proof'] or {}).get('obligations', 0), 'cases': r['cross_checked'],
                             'wall_s': r['wall_s']} for r in res],
           # exploration vocabulary
           'evaluations': sum(r['cross_checked'] for r in res) + ob,
           'distinct_nontrivial': sum(r.get('cross_distinct', 0) for r in res),
           'rule': info.get('bound', ''),
           'samples': ['%s: %s' % (r['contract'], r.get('sample', 'no run-time case')[:2000]) for r in res][:10],
           'explanation': info.get('explanation', '')}
    lines, nviol = [], 0
    rd = os.path.join(EV, 'replays')
    os.makedirs(rd, exist_ok=True)
    for old in os.listdir(rd):
        if old.startswith(prop + '-'):
            os.remove(os.path.join(rd, old))
    for r in res:
        for i, f in enumerate(r['failures'][:1]):
            nviol += 1
            p = os.path.join(rd, '%s-%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['contract'])[:120]))
            json.dump({'property': prop, 'contract': r['contract'], 'functions': r['functions'], 'found_by': f['source'],
                       'case': f['case'], 'why': f['why'], 'proof': r['proof'],
                       'rerun': '/opt/venv/bin/python check.py --replay %s' % p}, open(p, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        if r.get('unconfirmed') and not r['failures']:
            nviol += 1
            p = os.path.join(rd, '%s-%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in r['contract'])[:120]))
            json.dump({'property': prop, 'contract': r['contract'], 'functions': r['functions'],
                       'failed_obligation': r['unconfirmed']['obligation'], 'verifier_output': r['unconfirmed'],
                       'proof': r['proof']}, open(p, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    lines.sort(key=lambda s: s.endswith('found'))
    errors = [r for r in res if r['error']]
    known = sorted({k for r in res for k in r['known']})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov,
          'wall_s': round(wall, 2), 'violations': nviol,
          'assumptions': sorted(set(info.get('assumptions', [])) | {a for r in res for a in r['assumptions']}),
          'known_findings': known, 'errors': [r['error'][-600:] for r in errors][:5]}
    if only is None:
        json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d contracts, %d proved, %d bounded only, %d undecided; %d/%d obligations; %d run-time evaluations (%d skipped); %.1f s'
          % (prop, len(res), len(proved), len(bounded), len(undec), di, ob, cov['runtime_check']['evaluations'],
             cov['runtime_check']['skipped'], wall))
    for k, v in sorted(undec.items())[:12]:
        print('  undecided %s: %s' % (k, '; '.join(v)[:300]))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for r in res:
        for f in r['failures'][:2]:
            print('  failed %s: %s' % (r['contract'], f['why'][:300]))
        if r.get('unconfirmed'):
            print('  refuted %s: %s' % (r['contract'], r['unconfirmed']['obligation'][:300]))
    for r in errors[:5]:
        print('  error %s: %s' % (r['contract'], r['error'][-800:]))
    for s in lines[:20]:
        print(s)
    if lines:
        return 1
    if errors or not res or (ob == 0 and cov['runtime_check']['evaluations'] == 0):
        return 2
    # vacuity guard: a run that exercised nothing has not decided anything
    dead = [r['contract'] for r in res if not r['cross_checked'] and not (r['proof'] and r['proof']['status'] == 'proved')]
    if dead and not known:
        print('  not decided: %s' % ', '.join(dead[:5]))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
