"""C05: concurrent calls give the same results as sequential calls."""
import json

from mc import sched, state
from mc.catalog import CAT as LIBRARY, SHORT
from mc.engine import Exploration
from mc.interp import xform
from mc.state import exact, exact_diff, fp, in_child, prepare, same

RULE = ('a case is a block of schedules of one first call; a schedule is one placement of the context switches, executed on two real threads; '
        'it is non-trivial when the switch happened inside the call')
ASSUMPTIONS = ['Context switches happen at bytecodes executed inside the package; NumPy and SciPy functions are atomic.',
               'At most one preemption at bytecode granularity, two at line granularity.']

CAT = LIBRARY + SHORT  # the operations of the library, and printing and copying its objects
HEAVY = {'Cylinder.best_fit'}
HEAVY_CALLS = {'to_mesh', 'to_points'}


def light(i):
    n, p = CAT[i]
    return n not in HEAVY and not (n.split('.')[1:] and n.split('.')[1] in HEAVY_CALLS and n.startswith('Cylinder') and not (p[-1][3] or p[-1][4]))


FIRST = {}
for _i, (_n, _p) in enumerate(CAT):
    FIRST.setdefault(_n, _i)


def battery(i, related=False):
    """
    Catalogue calls executed by the second thread: all that share an object with call i, and one of every operation.

    related: only calls of the same operation, and one of every operation of the same class, on the same objects if possible.
    """
    setup = [json.dumps(s) for s in CAT[i][1][:-1]]
    out = []
    if related:
        cls = CAT[i][0].split('.')[0]
        best = {}
        for k, (n, p) in enumerate(CAT):
            if k == i or not light(k):
                continue
            shares = any(json.dumps(s) in setup for s in p[:-1])
            if n == CAT[i][0]:
                out.append(k)
            elif shares or n.split('.')[0] == cls:
                if n not in best or shares > best[n][0]:
                    best[n] = (shares, k)
        return out[:6] + [k for _, k in best.values()]
    for k, (n, p) in enumerate(CAT):
        if k == i or not light(k):
            continue
        if FIRST[n] == k or any(json.dumps(s) in setup for s in p[:-1]) or n == CAT[i][0]:
            out.append(k)
    return out


def bases(idx):
    return {k: fp(prepare(CAT[k][1])[0]()) for k in idx}


def once_child(i, lo, hi, visits, order, gran, related):
    """All schedules with one preemption of call i at its scheduling points number lo..hi by the whole battery."""
    pool = state.Pool()
    try:
        call = prepare(CAT[i][1], pool)[0]
    except Exception:
        return 0, 0, None
    base = fp(call())
    bat = battery(i, related)
    if order:
        bat = bat[::-1]
    calls = [(k, prepare(CAT[k][1], pool)[0]) for k in bat]
    B = [fp(c()) for _, c in calls]
    before = {k: exact(o) for k, o in pool.objs.items()}
    pts, _ = sched.trace_points(call, gran)
    ks = sched.choose(pts, visits)[lo:hi]
    helper = sched.Helper()
    n = 0
    for k in ks:
        got = []

        def job():
            for _, c in calls:
                got.append(fp(c()))
        r, fired = sched.preempt_once(call, k, job, helper, gran)
        if not helper.finish():
            return n, len(pts), f'deadlock: {state.describe(CAT[i][1])} preempted at point {k} {where(pts[k], gran)}'
        n += 1
        d = same(fp(r), base)
        if d:
            return n, len(pts), f'{state.describe(CAT[i][1])}, preempted {where(pts[k], gran)} while another thread makes {len(calls)} other calls, gives {d}'
        if fired:
            if isinstance(helper.result, BaseException):
                return n, len(pts), f'the second thread failed: {helper.result!r}'
            for (kk, _), x, b in zip(calls, got, B):
                d = same(x, b)
                if d:
                    return n, len(pts), f'while {state.describe(CAT[i][1])} is suspended {where(pts[k], gran)}, {state.describe(CAT[kk][1])} in another thread gives {d}'
        if n % 16 == 1 or k == ks[-1]:
            for key, o in pool.objs.items():
                if exact(o) != before[key]:
                    return n, len(pts), f'{state.describe(CAT[i][1])} with a concurrent battery changed {exact_diff(before[key], exact(o), key[:80])}'
    helper.stop()
    return n, len(pts), None


def where(p, gran='opcode'):
    code, off = p
    if off >= 0 and not isinstance(code, str) and gran == 'line':
        return f'in {code.co_filename.split("skspatial/")[-1]}:{code.co_name} line {off}'
    line = None
    for a, b, l in code.co_lines():
        if a <= off < b:
            line = l
    return f'in {code.co_filename.split("skspatial/")[-1]}:{code.co_name} line {line} (bytecode {off})'


def run_once(case, S):
    i, lo, hi, visits, order, gran, related = case
    out = in_child(once_child, i, lo, hi, visits, order, gran, related, timeout=58)
    S.traces += 1
    if out[0] != 'ok':
        return f'{state.describe(CAT[i][1])} under the scheduler: {out[1][-1500:]}'
    n, total, m = out[1]
    S.transitions += n
    for k in range(n):
        S.state((i, lo + k, order, gran))
    S.outcome('one preemption', CAT[i][0])
    return m


_COUNT = {}


def count_points(i, visits, gran='opcode'):
    """Number of scheduling points (computed in a child process, so that the exploration itself starts pristine)."""
    key = (i, visits, gran)
    if key not in _COUNT:
        def f():
            try:
                call = prepare(CAT[i][1])[0]
            except Exception:
                return 0
            return len(sched.choose(sched.trace_points(call, gran)[0], visits))
        out = in_child(f)
        _COUNT[key] = out[1] if out[0] == 'ok' else 0
    return _COUNT[key]


def reps(tier):
    """Catalogue indices used as the first (preempted) call."""
    seen = {}
    for i, (n, _) in enumerate(CAT):
        seen.setdefault(n, []).append(i)
    out = []
    for n, idx in seen.items():
        if tier == 'thorough':
            out += idx
        else:  # the first and a later argument set (different dimensions and branches)
            out += sorted({idx[0], idx[len(idx) // 2]})
    return out


def gen_once(tier):
    def g():
        for i in reps(tier):
            heavy = CAT[i][0] in HEAVY
            visits = 1 if heavy or tier == 'quick' else 2
            n = count_points(i, visits)
            blk = 100 if not heavy else 20
            if not heavy or tier == 'thorough':
                for lo in range(0, n, blk):
                    yield [i, lo, lo + blk, visits, 0, 'opcode', True]
            n = count_points(i, visits, 'line')
            for lo in range(0, n, 20):
                yield [i, lo, lo + 20, visits, 0, 'line', heavy and tier == 'quick']
            if tier == 'thorough':
                n = count_points(i, 1)
                for lo in range(0, n, 40 if not heavy else 12):
                    for order in (0, 1):
                        yield [i, lo, lo + (40 if not heavy else 12), 1, order, 'opcode', False]
    return g


# ---------------------------------------------------------------- direct pairs of the same operation, pristine processes


def partner(i):
    """The same operation on different values (own objects), as the second thread's call."""
    return [xform(CAT[i][1], scale=2.0), xform(CAT[i][1], offset=[1, -2, 3, 1, 1, 1]), swap(CAT[i][1])]


def swap(prog):
    """Reverse the coordinates of every leaf: other values in the same shape."""
    def go(x):
        if isinstance(x, dict):
            return {k: ([v[::-1] for v in y] if k == 'S' else y[::-1] if k in 'PV' else y) for k, y in x.items()}
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return [go(s) for s in prog]


def pristine_child(i, q, k, gran):
    call = prepare(CAT[i][1])[0]
    call_b = prepare(q)[0]
    helper = sched.Helper()
    r, fired = sched.preempt_once(call, k, lambda: fp(call_b()), helper, gran)
    if not helper.finish():
        return ('deadlock', None, fired)
    b = helper.result if fired else None
    if isinstance(b, BaseException):
        b = fp(b)
    return (fp(r), b, fired)


def run_pristine(case, S):
    """The very first two calls of a process overlap: every switch point in its own pristine process."""
    i, v, lo, hi, gran = case
    q = partner(i)[v]
    base = in_child(state.fresh, CAT[i][1])
    base_q = in_child(state.fresh, q)
    if base[0] != 'ok' or base_q[0] != 'ok':
        return None
    S.traces += 1
    for k in range(lo, hi):
        out = in_child(pristine_child, i, q, k, gran, timeout=30)
        S.transitions += 1
        if out[0] != 'ok':
            return f'{state.describe(CAT[i][1])} and {state.describe(q)} as first calls of two threads: {out[1][-1000:]}'
        a, b, fired = out[1]
        if a == 'deadlock':
            return f'deadlock of {state.describe(CAT[i][1])} and {state.describe(q)}'
        d = same(a, base[1])
        if d:
            return f'{state.describe(CAT[i][1])}, preempted before its {gran} number {k} by {state.describe(q)} in another thread (first calls of the process), gives {d}'
        if b is not None:
            d = same(b, base_q[1])
            if d:
                return f'{state.describe(q)}, called while {state.describe(CAT[i][1])} is suspended before its {gran} number {k} (first calls of the process), gives {d}'
        S.state((i, v, k, gran))
        if not fired:
            break
    S.outcome('pristine', CAT[i][0])
    return None


def gen_pristine(tier):
    def g():
        for n, i in FIRST.items():
            for v in (0, 2):
                if tier == 'quick':
                    yield [i, v, 0, 60, 'line']
                else:
                    for lo in range(0, 200, 20):
                        yield [i, v, lo, lo + 20, 'line']
                    for lo in range(0, min(count_points(i, 1), 400), 20):
                        yield [i, v, lo, lo + 20, 'opcode']
    return g


# ---------------------------------------------------------------- new objects: their first uses overlap


def covering():
    """For every operation, the catalogue calls that together visit every line any of them visits."""
    groups = {}
    for i, (n, _) in enumerate(CAT):
        groups.setdefault(n, []).append(i)

    def f(idx):
        out = {}
        for i in idx:
            try:
                call = prepare(CAT[i][1])[0]
            except Exception:
                continue
            out[i] = {(c.co_filename, c.co_qualname, line) for c, line in sched.trace_points(call, 'line')[0]}
        return out
    res = []
    for idx in groups.values():
        out = in_child(f, idx)
        res += [i for i, _ in sched.cover(out[1])] if out[0] == 'ok' else idx[:1]
    return res


def shared_with(i, most):
    """Programs on the same objects as call i: the same call, and others."""
    setup = {json.dumps(s) for s in CAT[i][1][:-1]}
    out, seen = [i], {CAT[i][0]}
    for k, (n, p) in enumerate(CAT):
        if k != i and n not in seen and light(k) and any(json.dumps(s) in setup for s in p[:-1]):
            seen.add(n)
            out.append(k)
    return out[:most]


def own_child(i, lo, hi, gran, others, most):
    """Objects that nothing has been done with yet: call i on them is preempted, and another thread uses the same objects."""
    try:
        pts, r = sched.trace_points(prepare(CAT[i][1], state.Pool())[0], gran)
    except Exception:
        return 0, None
    base = fp(prepare(CAT[i][1])[0]())
    progs = others or [CAT[k][1] for k in shared_with(i, most)]
    B = [fp(prepare(p)[0]()) for p in progs]
    helper = sched.Helper()
    n = 0
    g = state.settings()
    for k in sched.choose(pts, 1)[lo:hi]:
        for p, b in zip(progs, B):
            pool = state.Pool()
            call, call_b = prepare(CAT[i][1], pool)[0], prepare(p, pool)[0]
            r, fired = sched.preempt_once(call, k, lambda: fp(call_b()), helper, gran)
            n += 1
            what = f'{state.describe(CAT[i][1])} (first use of the objects), preempted {where(pts[k], gran)} by {state.describe(p)} in another thread'
            if not helper.finish():
                return n, f'{what}: deadlock'
            d = same(fp(r), base)
            if d:
                return n, f'{what}, gives {d}'
            if fired:
                if isinstance(helper.result, BaseException):
                    return n, f'{what}: the second thread failed: {helper.result!r}'
                d = same(helper.result, b)
                if d:
                    return n, f'{what}: the second call gives {d}'
            d = same(fp(call()), base) or same(fp(call_b()), b) or state.global_diff(g, state.settings())
            if d:
                return n, f'{what}; repeated afterwards: {d}'
    helper.stop()
    return n, None


def run_own(case, S):
    i, lo, hi, gran, pairs, most = case
    out = in_child(own_child, i, lo, hi, gran, partner(i) if pairs else None, most, timeout=58)
    S.traces += 1
    if out[0] != 'ok':
        return f'{state.describe(CAT[i][1])} under the scheduler: {out[1][-1500:]}'
    n, m = out[1]
    S.transitions += n
    for k in range(n):
        S.state((i, lo, k, gran, pairs))
    S.outcome('new objects', CAT[i][0])
    return m


def gen_own(tier):
    def g():
        big = tier == 'thorough'
        for i in covering():
            for gran in ('line', 'opcode'):
                heavy = CAT[i][0] in HEAVY or not light(i)
                if heavy and gran == 'opcode' and not big:
                    continue
                blk = 40 if not heavy else 4
                n = count_points(i, 1, gran)
                for lo in range(0, n, blk):
                    if CAT[i][1][:-1]:
                        yield [i, lo, lo + blk, gran, False, (4 if gran == 'line' else 1) if not big else 8]
                    if CAT[i][0] in HEAVY or big:
                        yield [i, lo, lo + blk, gran, True, 0]
    return g


# ---------------------------------------------------------------- two preemptions


def twice_child(i, prog_b, gran, cap, shared):
    pool = state.Pool() if shared else None
    try:
        call = prepare(CAT[i][1], pool)[0]
        call_b = prepare(prog_b, pool)[0]
    except Exception:
        return 0, None
    base, base_b = fp(call()), fp(call_b())
    pa, _ = sched.trace_points(call, gran)
    pb, _ = sched.trace_points(call_b, gran)
    all_a, all_b = sched.choose(pa, 1), sched.choose(pb, 1)
    pairs = [(x, y) for x in all_a[:cap] for y in all_b[:cap]]
    if pa == pb:
        # both threads at (almost) the same place, for every place
        pairs += [(x, all_a[j]) for k, x in enumerate(all_a) for j in range(max(k - 2, 0), min(k + 3, len(all_a))) if max(j, k) >= cap]
    else:
        pairs += [(x, y) for x in spread_over(all_a[cap:], cap) for y in spread_over(all_b, cap)]
    helper = sched.Helper()
    n = 0
    g = state.settings()
    for x, y in pairs:
        ra, rb, fired = sched.preempt_twice(call, x, call_b, y, helper, gran)
        n += 1
        if rb is sched.Stop:
            return n, f'deadlock of {state.describe(CAT[i][1])} and {state.describe(prog_b)}'
        d = same(fp(ra), base)
        if d:
            return n, f'{state.describe(CAT[i][1])}, preempted before {gran} {x} by {state.describe(prog_b)} which is preempted before {gran} {y}, gives {d}'
        if rb is not None:
            d = same(fp(rb), base_b)
            if d:
                return n, f'{state.describe(prog_b)}, preempted before {gran} {y} inside {state.describe(CAT[i][1])} preempted before {gran} {x}, gives {d}'
        d = state.global_diff(g, state.settings())
        if d:
            return n, f'after {state.describe(CAT[i][1])}, preempted before {gran} {x} by {state.describe(prog_b)}, which is preempted before {gran} {y} and ends last: {d}'
    helper.stop()
    return n, None


def spread_over(ks, most):
    """At most `most` members of a sequence, evenly spread."""
    if len(ks) <= most:
        return ks
    return [ks[i * len(ks) // most] for i in range(most)]


def run_twice(case, S):
    i, j, v, gran, cap = case
    prog_b = partner(j)[v] if v is not None else CAT[j][1]
    out = in_child(twice_child, i, prog_b, gran, cap, v is None, timeout=58)
    S.traces += 1
    if out[0] != 'ok':
        return f'{state.describe(CAT[i][1])} and {state.describe(prog_b)} under the scheduler: {out[1][-1500:]}'
    n, m = out[1]
    S.transitions += n
    S.state((i, j, v))
    for k in range(n):
        S.state((i, j, v, k))
    S.outcome('two preemptions', CAT[i][0])
    return m


def gen_twice(tier):
    def g():
        big = tier == 'thorough'
        for n, i in FIRST.items():
            if n in HEAVY:
                continue
            yield [i, i, 2, 'line', 24 if not big else 60]
            yield [i, i, None, 'line', 24 if not big else 60]
        names = list(FIRST)
        for a in names:
            for b in names:
                if a == b or a in HEAVY or b in HEAVY:
                    continue
                if big or (hash_stable(a, b) % 12 == 0):
                    yield [FIRST[a], FIRST[b], None, 'line', 10 if not big else 16]
    return g


def hash_stable(a, b):
    # a fixed spread over the pairs of operations (quick tier only; the thorough tier takes all pairs)
    return sum(ord(c) * (i + 1) for i, c in enumerate(a + '|' + b))


def EXPLORE(tier):
    return [
        Exploration('one', gen_once(tier), run=run_once, bounds='up to 3 calls per operation (thorough: all), first and last visit of every location (thorough: also the second): every bytecode-level preemption point x the operations of the same class and the same operation; every line-level point x the battery of all operations (thorough: also at bytecode level, in both orders)'),
        Exploration('pristine', gen_pristine(tier), run=run_pristine, bounds='first two calls of a process, same operation on other values, every line (thorough: bytecode) in its own process'),
        Exploration('own', gen_own(tier), run=run_own, bounds='new objects in every schedule: each line (and bytecode, first and last visit) of calls that cover every line of every operation, preempted by the same call and by up to three (thorough: seven) other operations on the same objects; fits preempted by fits to other data'),
        Exploration('two', gen_twice(tier), run=run_twice, bounds='all pairs of line-level preemption points (cap 24 lines each, and beyond it all pairs at most 2 lines apart) of every operation with itself; 1/12 of the operation pairs with cap 10 (thorough: all pairs, cap 16)'),
    ]
