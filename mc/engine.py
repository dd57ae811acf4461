"""
Parallel, deterministic exploration of finite case spaces, with evidence, replay files and known findings.

A check module defines EXPLORE(tier) -> list of Exploration.  Every exploration enumerates a finite list of JSON cases
completely; the cases are split over worker processes by index.  No sampling: the number of cases is part of the
evidence, and the seed has no influence on what is explored.
"""
from __future__ import annotations

import importlib
import itertools
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')
CASE_TIMEOUT = 60
MAX_PER_WORKER = 2


class Hang(BaseException):
    pass


class Exploration:
    """
    name:    short identifier
    gen:     function returning an iterator of JSON-able cases
    run:     function (case, stats) -> None or violation message
    bounds:  text for the evidence
    """

    def __init__(self, name, gen, run=None, bounds=''):
        from .interp import run_program
        self.name = name
        self.gen = gen
        self.run = run or run_program
        self.bounds = bounds


def load(pid):
    return importlib.import_module(f'mc.checks.{pid.lower()}')


def tier_of(argv_tier):
    return argv_tier or os.environ.get('VERIF_TIER', 'quick')


def _alarm(signum, frame):
    raise Hang()


def guarded(run, case, S):
    """Run one case with a watchdog."""
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return run(case, S)
    except Hang:
        return f'the case did not finish within {CASE_TIMEOUT} s'
    except Exception:
        # On the unchanged tree no case gets here (that is checked on every run); a library that makes the driver
        # fail has returned or raised something that no specification allows.
        return 'the case could not be carried out: ' + traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(pid, tier, w, n, q):
    from .interp import Stats
    os.environ['OMP_NUM_THREADS'] = '1'
    signal.signal(signal.SIGALRM, _alarm)
    out = {'w': w, 'violations': [], 'error': None, 'per': {}}
    S = Stats()
    known = {k for k, _ in known_findings(pid)}
    try:
        mod = load(pid)
        for ex in mod.EXPLORE(tier):
            count = 0
            found = 0
            t0 = time.time()
            s0 = len(S.states)
            for case in itertools.islice(ex.gen(), w, None, n):
                count += 1
                if len(S.samples) < 3 or (count == 2 and len(S.samples) < 12):
                    S.samples.append({'exploration': ex.name, 'case': case})
                msg = guarded(ex.run, case, S)
                if msg:
                    v = {'exploration': ex.name, 'case': case, 'message': msg}
                    out['violations'].append(v)
                    found += case_key(v) not in known
                    if found >= MAX_PER_WORKER:
                        break
            out['per'][ex.name] = {'cases': count, 'seconds': round(time.time() - t0, 2), 'capped': found >= MAX_PER_WORKER}
    except BaseException:
        out['error'] = traceback.format_exc()
    out.update(transitions=S.transitions, traces=S.traces, amb=S.amb, outcomes={f'{a}: {b}': c for (a, b), c in S.outcomes.items()},
               samples=S.samples[:12], states=S.states, extra=getattr(S, 'extra', {}),
               maxrss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)
    q.send(out)
    q.close()


def known_findings(pid):
    """Keys of recorded findings: lines `finding: property=<id> key=<json case> what=<text>`."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' key=', 1)[1]
                key, what = rest.split(' what=', 1)
                res.append((key.strip(), what.strip()))
    return res


def case_key(v):
    return json.dumps([v['exploration'], v['case']], separators=(',', ':'), sort_keys=True)


def run_check(pid, tier):
    t0 = time.time()
    n = int(os.environ.get('MC_WORKERS', os.cpu_count() or 1))
    mod = load(pid)
    level = getattr(mod, 'LEVEL', 'model_checking')
    ctx = mp.get_context('fork')
    procs = []
    for w in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(pid, tier, w, n, b))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    for p, a in procs:
        try:
            outs.append(a.recv())
        except EOFError:
            outs.append({'error': f'a worker process died (exit code {p.exitcode})', 'violations': [], 'per': {}, 'transitions': 0,
                         'traces': 0, 'amb': 0, 'outcomes': {}, 'samples': [], 'states': set(), 'extra': {}, 'maxrss': 0, 'w': -1})
        p.join()
    states = set()
    outcomes, extra, per = {}, {}, {}
    samples, viol, errors = [], [], []
    for o in outs:
        states |= o['states']
        for k, v in o['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in o['extra'].items():
            extra[k] = extra.get(k, 0) + v if not isinstance(v, str) else v
        for k, v in o['per'].items():
            x = per.setdefault(k, {'cases': 0, 'seconds': 0, 'capped': False})
            x['cases'] += v['cases']
            x['seconds'] = max(x['seconds'], v['seconds'])
            x['capped'] = x['capped'] or v['capped']
        samples += o['samples']
        viol += o['violations']
        if o['error']:
            errors.append(o['error'])
    known = known_findings(pid)
    known_keys = {k: what for k, what in known}
    seen_known = set()
    real = []
    for v in viol:
        k = case_key(v)
        if k in known_keys:
            seen_known.add(k)
        else:
            real.append(v)
    exps = mod.EXPLORE(tier)
    by_name = {}
    for s in samples:
        by_name.setdefault(s['exploration'], s)
    picked = list(by_name.values())[:12]
    cases = sum(x['cases'] for x in per.values())
    trans = sum(o['transitions'] for o in outs)
    traces = sum(o['traces'] for o in outs)
    coverage = {
        'exhaustive': not real,
        'rule': getattr(mod, 'RULE', 'a case is one program of judged calls; it is non-trivial when at least one call was judged; '
                        'distinct cases differ in at least one input'),
        'samples': picked,
        'bounds': {e.name: e.bounds for e in exps},
        'cases_per_exploration': {k: v['cases'] for k, v in per.items()},
        'seconds_per_exploration': {k: v['seconds'] for k, v in per.items()},
        'ambiguous_not_judged': sum(o['amb'] for o in outs),
        'distinct_outcomes': len(outcomes),
        'outcomes': dict(sorted(outcomes.items())[:400]),
        'extra': extra,
        'workers': n,
        'max_rss_mb': max(o['maxrss'] for o in outs) // 1024,
    }
    if level == 'model_checking':
        coverage.update(states=len(states), transitions=trans, traces_validated_against_impl=traces, cases=cases)
    else:
        coverage.update(evaluations=trans, distinct_nontrivial=cases, states=len(states))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['Values outside the enumerated alphabets and bounds are not covered.'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(real),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print(f'{pid} {tier}: {cases} cases, {len(states)} states, {trans} transitions, {coverage["ambiguous_not_judged"]} ambiguous, '
          f'{len(outcomes)} distinct outcomes, {ev["wall_s"]} s')
    for k in seen_known:
        print(f'KNOWN-FINDING: property={pid} {known_keys[k]}')
    if errors and not real:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if not real and (trans == 0 or cases == 0):
        print('nothing was explored', file=sys.stderr)
        return 2
    if real:
        path = write_replay(pid, tier, real)
        for v in real[:5]:
            print(f'  [{v["exploration"]}] {v["message"][:1500]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def write_replay(pid, tier, viol):
    from .interp import to_python
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    viol = sorted(viol, key=lambda v: len(json.dumps(v['case'], default=str)))
    recs = []
    for v in viol:
        r = {'property': pid, 'tier': tier, **v}
        try:
            r['python'] = to_python(v['case'])
        except Exception:
            pass
        recs.append(r)
    path = os.path.join(d, f'{pid}.json')
    with open(path, 'w') as f:
        json.dump(recs, f, indent=1, default=str)
    return path


def replay(path, index=0):
    from .interp import Stats
    recs = json.load(open(path))
    r = recs[index]
    mod = load(r['property'])
    ex = next(e for e in mod.EXPLORE(r['tier']) if e.name == r['exploration'])
    signal.signal(signal.SIGALRM, _alarm)
    msg = guarded(ex.run, r['case'], Stats())
    print(json.dumps(r['case'])[:2000])
    if 'python' in r:
        print(r['python'])
    print('REPRODUCED: ' + msg if msg else 'the case passes')
    return 1 if msg else 0
