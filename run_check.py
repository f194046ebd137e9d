#!/opt/venv/bin/python
"""run_check.py ID: decide one property on /repo's current source.  See DESIGN.md."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')

import checks  # noqa: E402,F401
from pyvc import concrete, harness, interp  # noqa: E402


class Missing:
    """stands for a name of the code under verification which the contracts are bound to and which is gone"""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Missing(f'{self.name}.{name}')

    def __call__(self, *a, **k):
        raise RuntimeError(f'{self.name} is gone')


def load(pid):
    """the module of the check; what is bound to vanished names is left undecided, the rest is checked"""
    placed = []
    try:
        while True:
            try:
                return importlib.import_module('checks.' + pid.lower())
            except (ImportError, AttributeError) as e:
                name = getattr(e, 'name_from', None) if isinstance(e, ImportError) else e.name
                owner = sys.modules.get(e.name) if isinstance(e, ImportError) else e.obj
                home = getattr(owner, '__name__', '') if isinstance(owner, type(sys)) else getattr(owner, '__module__', '')
                if not name or not isinstance(home, str) or not home.startswith('ratarmount') or len(placed) > 40:
                    raise
                setattr(owner, name, Missing(f'{home}.{name}'))
                placed.append((owner, name))
    finally:
        for owner, name in placed:
            delattr(owner, name)


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        return json.load(f)['known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', help='only units and oracles whose name contains this')
    ap.add_argument('--case', type=int)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    pid = args.id
    t0 = time.time()
    try:
        mod = load(pid)
    except Exception as e:  # pylint: disable=broad-except
        # The module under verification does not import or lacks a name which the contracts are bound to: nothing can be
        # decided, and nothing is claimed.
        return no_answer(pid, tier, args.seed, f'{type(e).__name__}: {e}', t0)
    units = list(mod.UNITS) + (list(getattr(mod, 'UNITS_THOROUGH', [])) if tier == 'thorough' else [])
    oracles = list(getattr(mod, 'ORACLES', []))
    gone = [(u, [f.name for f in u.functions if isinstance(f, Missing)]) for u in units]
    units = [u for u, names in gone if not names]
    gone = [(u.name, ', '.join(names) + ' is gone') for u, names in gone if names]
    for o in oracles:
        o.functions = [f for f in o.functions if not isinstance(f, Missing)]
    if args.only:
        units = [u for u in units if args.only in u.name]
        oracles = [o for o in oracles if args.only in o.name]

    known = [k for k in load_known() if k['property'] == pid]
    running = [concrete.Running(o, tier, args.seed, args.case) for o in oracles]
    pool = harness.Pool(units, jobs=max(2, 8 - len(running)), limit_s=300 if tier == 'quick' else 2400)
    while pool.step():
        # a failing input has been found: the proofs cannot change the verdict any more
        if pool.limit_s > time.time() - pool.t0 + 25 and running and any(
                r.finished() and new_violations(r.result(), known) for r in running):
            pool.limit_s = time.time() - pool.t0 + 20
    reports = pool.reports()
    baseline = load_baseline()
    # a solver time-out on source that is known to verify is retried alone, with a larger budget
    retry = [u for u, r in zip(units, reports) if r['status'] in ('failed', 'error', 'vacuous') and not refuted(r)
             and not r['unsupported'] and time.time() - t0 < 250 and r['status'] != 'error']
    if retry:
        for u in retry:
            u.opts['timeout_ms'] = 2 * u.opts.get('timeout_ms', 30000)
        again = {r['name']: r for r in harness.verify(retry, jobs=4, limit_s=200)}
        reports = [again.get(r['name'], r) for r in reports]
    results = [r.result() for r in running]
    if not any(new_violations(r, known) for r in results):
        reports = [other_loops(u, r, baseline) for u, r in zip(units, reports)]
    return report(pid, tier, args, mod, units, reports, results, baseline, t0, gone)


def new_violations(res, known):
    return [v for v in res['violations'] if not any(k.get('oracle') == v['oracle'] and k.get('sig') == v['sig'] for k in known)]


def other_loops(u, r, baseline):
    """
    A loop contract that does not fit may mean that the loop was rewritten.  Then, everything else the unit states is decided
    for the first iterations of the loops of the changed functions, without their contracts.  Only if that finds nothing,
    the unit is undecided.  Loops that may not end stay refuted.
    """
    names = [o['name'] for o in refuted(r)]
    rewritten = set(changed(r, baseline))
    misfit = any(': invariant "' in n and n.endswith('holds on entry') for n in names)
    preserved = any(': invariant "' in n for n in names) and not any('variant decreases' in n for n in names)
    if not rewritten or not misfit and not preserved:
        return r
    interp.UNROLLED |= rewritten
    again = harness.verify([u], jobs=1, limit_s=120)[0]
    interp.UNROLLED.clear()
    if again['status'] == 'bounded' or again['status'] == 'proved':
        again.update(status='error', error='a loop contract does not fit the rewritten loop; its first iterations fulfil the contract of the function')
        return again
    return r


def refuted(r):
    return [o for o in r['obligations'] if o['status'] == 'refuted']


def load_baseline():
    path = os.path.join(HERE, 'baseline.json')
    if not os.path.exists(path):
        return {}
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def changed(r, baseline):
    """the verified text differs from the text this machinery was last accepted on"""
    return sorted(q for q, h in r['sources'].items() if baseline.get(q) != h)


def no_answer(pid, tier, seed, why, t0):
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
          'violations': 0, 'coverage': {'explanation': 'nothing decided: ' + why, 'obligations': 0, 'discharged': 0},
          'assumptions': []}
    write(os.path.join(HERE, 'evidence', pid + '.json'), ev)
    print(f'UNDECIDED property={pid} {why}')
    return 0


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(data, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def report(pid, tier, args, mod, units, reports, results, baseline, t0, gone=()):
    known = [k for k in load_known() if k['property'] == pid]
    lines, rc = [], 0
    proof_fail, undecided = [], list(gone)
    for u, r in zip(units, reports):
        ch = changed(r, baseline)
        if r['status'] in ('proved', 'bounded') and r['status'] != 'failed':
            continue
        if r['status'] == 'failed' or refuted(r):
            bad = [o for o in r['obligations'] if o['status'] != 'discharged']
            if refuted(r) or ch:
                proof_fail.append((u, r, bad, ch))
                continue
            undecided.append((r['name'], 'solver gave no answer on unchanged source: ' + bad[0]['name']))
        else:
            undecided.append((r['name'], f"{r['status']}: {r['unsupported'] or r['error'] or 'no obligations'}"))
    concrete_viol, known_hit = [], []
    for res in results:
        for v in res['violations']:
            hit = [k for k in known if k.get('oracle') == v['oracle'] and k.get('sig') == v['sig']]
            if hit:
                known_hit.append((hit[0], v))
            else:
                concrete_viol.append(v)
    # counterexamples of the verifier, replayed on the real code
    for u, r, bad, ch in proof_fail:
        rep = u.opts.get('replay')
        if rep:
            for o in refuted(r):
                try:
                    found = rep(o['model'])
                except Exception as e:  # pylint: disable=broad-except
                    found = None
                    o['replay_error'] = f'{type(e).__name__}: {e}'
                if found:
                    concrete_viol.append({'oracle': 'replay of ' + o['name'], 'what': o['name'], 'input': found, 'sig': o['name']})
                    break
    known_proof = []
    real_fail = []
    for u, r, bad, ch in proof_fail:
        left = []
        for o in bad:
            hit = [k for k in known if k.get('obligation') == o['name']]
            if hit:
                known_proof.append((hit[0], o))
            else:
                left.append(o)
        if left:
            real_fail.append((u, r, left, ch))
    printed = set()
    for k, _v in known_hit + known_proof:
        if k['what'] not in printed:
            printed.add(k['what'])
            lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(HERE, 'evidence', 'replay')
    failed_obl = [{'unit': r['name'], 'obligation': o['name'], 'status': o['status'], 'backend': o['backend'],
                   'counterexample': o['model'], 'at': o['detail'], 'changed_functions': ch}
                  for _u, r, bad, ch in real_fail for o in bad]
    if concrete_viol:
        rc = 1
        path = os.path.join(rdir, f'{pid}.json')
        v = concrete_viol[0]
        write(path, {'property': pid, 'violation': v, 'more': concrete_viol[1:6], 'failed_obligations': failed_obl[:20],
                     'rerun': f"cd /verif && /opt/venv/bin/python run_check.py {pid} --tier {tier} --seed {args.seed}"
                              f" --only '{v['oracle']}'"})
        lines.append(f"{v['what']}: {concrete.short(v['input'], 300)}")
        if failed_obl:
            lines.append('failed obligation: ' + failed_obl[0]['obligation'])
        lines.append(f'VIOLATION property={pid} replay={path}')
    elif real_fail:
        rc = 1
        path = os.path.join(rdir, f'{pid}.json')
        write(path, {'property': pid, 'failed_obligations': failed_obl[:40], 'note': 'no-failing-input-found',
                     'rerun': f"cd /verif && /opt/venv/bin/python run_check.py {pid} --tier {tier} --seed {args.seed}"})
        lines.append('failed obligation: ' + failed_obl[0]['obligation'] + ' ' + str(failed_obl[0]['counterexample']))
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')

    allobl = [o for r in reports for o in r['obligations']]
    discharged = [o for o in allobl if o['status'] == 'discharged']
    backends = {}
    for o in discharged:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    proved = [r['name'] for r in reports if r['status'] == 'proved']
    fns = sorted({q for r in reports for q in r['sources']})
    under = sorted({f'{f.__module__}:{f.__qualname__}' for u in units for f in u.functions if hasattr(f, '__qualname__')})
    coverage = {
        'obligations': len(allobl), 'discharged': len(discharged),
        'checker_cmd': f'cd /verif && /opt/venv/bin/python run_check.py {pid}',
        'backends': backends, 'solver_s': round(sum(o['seconds'] for o in allobl), 1),
        'functions_under_contract': under,
        'functions_inlined_into_proofs': [q for q in fns if q not in under][:80],
        'units': [{'unit': r['name'], 'status': r['status'], 'obligations': len(r['obligations']),
                   'discharged': sum(o['status'] == 'discharged' for o in r['obligations']), 'paths': r['paths'],
                   'reached': r['reached'], 's': round(r['wall'], 1),
                   **({'bounded': r['bounded'][:4]} if r['bounded'] else {}),
                   **({'undecided': (r['unsupported'] or r['error'])} if r['unsupported'] or r['error'] else {})}
                  for r in reports],
        'proved_units': len(proved),
        'trusted_base': sorted({'pyvc: symbolic semantics of Python (see DESIGN.md), z3 ' + _z3(), 'cvc5 for obligations z3 leaves open'}
                               | {t for r in reports for t in r['trusted']} | set(getattr(mod, 'TRUSTED', []))),
        'assumed_contracts': sorted({c for r in reports for c in r['assumed_contracts']}),
        'bounded_stand_ins': [{k: res[k] for k in ('name', 'evaluations', 'distinct', 'bound', 'functions', 'exhaustive',
                                                   'timed_out', 'samples', 'errors')}
                              | {'wall_s': round(res['wall'], 1), 'violations': len(res['violations'])} for res in results],
        'evaluations': sum(r['evaluations'] for r in results),
        'distinct_nontrivial': sum(r['distinct'] for r in results),
        'rule': 'bounded stand-ins: one evaluation is one generated input or history run on the real code and compared '
                'with an independent reference; distinct counts different inputs',
        'samples': [s for r in results for s in r['samples']][:6] or ['none'],
        'undecided': [f'{a}: {b}'[:600] for a, b in undecided],
    }
    level = getattr(mod, 'LEVEL', 'proof')
    if level != 'proof':
        coverage['explanation'] = getattr(mod, 'EXPLANATION', 'contracts proved for the listed functions, bounded runs of the real code for the rest')
    ev = {'property': pid, 'tier': tier, 'seed': args.seed, 'level': level, 'coverage': coverage,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if rc else 0}
    text = json.dumps(ev, default=str)
    if len(text) > 60000:
        for b in coverage['bounded_stand_ins']:
            b['samples'] = b['samples'][:1]
            b['errors'] = [e[:500] for e in b['errors'][:1]]
        coverage['functions_inlined_into_proofs'] = coverage['functions_inlined_into_proofs'][:20]
        coverage['samples'] = coverage['samples'][:2]
    write(os.path.join(HERE, 'evidence', pid + '.json'), ev)
    if args.v:
        harness.show(reports)
        for res in results:
            print(f"oracle {res['name']}: {res['evaluations']} cases ({res['distinct']} distinct) {res['wall']:.1f}s "
                  f"violations {len(res['violations'])} timed_out {res['timed_out']} errors {len(res['errors'])}")
            for e in res['errors'][:2]:
                print('    ERROR', e)
            for v in res['violations'][:5]:
                print('    ', json.dumps({k: concrete.short(x, 300) for k, x in v.items()}, indent=1, default=str))
    for a, b in undecided:
        print(f'undecided: {a}: {b}'[:500])
    for line in lines:
        print(line)
    print(f'{pid}: {len(discharged)}/{len(allobl)} obligations discharged, {len(proved)}/{len(units)} units proved, '
          f'{coverage["evaluations"]} bounded runs, {ev["wall_s"]} s')
    return rc


def _z3():
    import z3

    return z3.get_version_string()


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
