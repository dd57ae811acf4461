"""C06: an interrupted or failed call leaves everything usable and unchanged."""
import json
import sys

from mc import sched, state
from mc.catalog import CAT as LIBRARY, SHORT
from mc.checks.c05 import FIRST, HEAVY, battery, where
from mc.engine import Exploration
from mc.interp import xform
from mc.state import exact, exact_diff, fp, global_diff, global_state, in_child, prepare, same

CAT = LIBRARY + SHORT  # the operations of the library, and printing and copying its objects
LEVEL = 'fault_enumeration'
RULE = 'an evaluation is one injected fault (call, exception, bytecode) followed by the comparison of all objects and of the results of later calls; it is non-trivial when the fault was raised inside the call'
ASSUMPTIONS = ['Faults are raised at bytecodes executed inside the package, and by stack exhaustion at every depth; NumPy and SciPy functions fail only as a whole.']


class Interrupt(BaseException):
    pass


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit, 'RuntimeError': RuntimeError}


def raw(prog, pool, rep):
    """Like state.prepare, but the call lets every exception through."""
    call, env, args, kw = prepare(prog, pool)
    step = prog[-1]
    from mc import lib
    if step[0] == 'op':
        recv = env[step[1]['$']]
        return (lambda: getattr(recv, step[2])(*args, **kw)), call
    if step[0] == 'new':
        f = getattr(lib, step[1])
    elif step[0] == 'cm':
        f = getattr(getattr(lib, step[1]), step[2])
    else:
        f = lib.FUNCTIONS[step[1]]
    return (lambda: f(*args, **kw)), call


def after(i):
    """Calls made after the failure: the operations of the same class and the same operation."""
    return battery(i, True)[:14]


def check_after(prog, what, pool, before, g, call, base, later, S_n):
    for key, o in pool.objs.items():
        if exact(o) != before[key]:
            d = exact_diff(before[key], exact(o), key[:100])
            if d:
                return f'{state.describe(prog)}, {what}, changed {d}'
    d = global_diff(g, global_state())
    if d:
        return f'{state.describe(prog)}, {what}: {d}'
    d = same(fp(call()), base)
    if d:
        return f'{state.describe(prog)}, {what}; repeated afterwards, it gives {d}'
    for k, c, b in later:
        d = same(fp(c()), b)
        if d:
            return f'{state.describe(prog)}, {what}; afterwards {state.describe(CAT[k][1])} gives {d}'
    return None


def inject_child(i, lo, hi, names, visits, rep, only):
    prog = CAT[i][1] if rep is None else xform(CAT[i][1], rep=rep)
    pool = state.Pool()
    n = 0
    try:
        f, call = raw(prog, pool, rep)
    except Exception:
        return 0, None
    base = fp(call())
    later = []
    for k in after(i):
        try:
            c = prepare(CAT[k][1] if rep is None else xform(CAT[k][1], rep=rep), pool)[0]
        except Exception:
            continue
        later.append((k, c, fp(c())))
    before = {key: exact(o) for key, o in pool.objs.items()}
    g = global_state()
    pts, _ = sched.trace_points(call)
    ks = [k for k in sched.choose(pts, visits) if pts[k][1] not in sched.with_exit(pts[k][0])][lo:hi]
    if only is not None:
        wanted = {tuple(x) for x in only}
        ks = [k for k in ks if (pts[k][0].co_filename, pts[k][0].co_qualname, pts[k][1]) in wanted]
    for k in ks:
        for name in names:
            exc = EXC[name]('injected')
            st = {'n': -1}

            def on(frame):
                st['n'] += 1
                if st['n'] == k:
                    raise exc
                return False
            n += 1
            got = None
            try:
                r = sched.run_traced(f, on)
            except BaseException as e:
                got = e
            what = f'interrupted by {name} {where(pts[k])}'
            if got is None:
                return n, f'{state.describe(prog)}, {what}, swallowed the exception and returned {r!r}'
            if got is not exc:
                chain, e = [], got
                while e is not None and e not in chain:
                    chain.append(e)
                    e = e.__cause__ or e.__context__
                return n, f'{state.describe(prog)}, {what}, raised {got!r} instead'
            m = check_after(prog, what, pool, before, g, call, base, later, n)
            if m:
                return n, m
    return n, None


def run_inject(case, S):
    i, lo, hi, names, visits, rep, only = case
    out = in_child(inject_child, i, lo, hi, names, visits, rep, only, timeout=58)
    S.traces += 1
    if out[0] != 'ok':
        return f'{state.describe(CAT[i][1])} with injected faults: {out[1][-1500:]}'
    n, m = out[1]
    S.transitions += n
    for k in range(n):
        S.state((i, lo, k, rep))
    S.outcome('injected', CAT[i][0])
    return m


_COUNT = {}


def count(i, visits, rep):
    key = (i, visits, rep)
    if key not in _COUNT:
        def f():
            try:
                call = prepare(CAT[i][1] if rep is None else xform(CAT[i][1], rep=rep))[0]
            except Exception:
                return 0
            pts = sched.trace_points(call)[0]
            return len([k for k in sched.choose(pts, visits) if pts[k][1] not in sched.with_exit(pts[k][0])])
        out = in_child(f)
        _COUNT[key] = out[1] if out[0] == 'ok' else 0
    return _COUNT[key]


def groups():
    seen = {}
    for i, (n, _) in enumerate(CAT):
        seen.setdefault(n, []).append(i)
    return seen


def locations(idx):
    """The fault points of these calls: (code, bytecode)."""
    out = {}
    for i in idx:
        try:
            call = prepare(CAT[i][1])[0]
        except Exception:
            continue
        out[i] = {(c.co_filename, c.co_qualname, o) for c, o in sched.trace_points(call)[0] if o not in sched.with_exit(c)}
    return out


def covering():
    """For every operation: its first call, the calls that add fault points (only those points), and one call in the middle."""
    out = []
    for idx in groups().values():
        r = in_child(locations, idx)
        chosen = sched.cover(r[1]) if r[0] == 'ok' else [(idx[0], None)]
        whole = {idx[0], idx[len(idx) // 2]}
        out += [(i, None) for i in sorted(whole)]
        out += [(i, sorted(new)) for i, new in chosen if i not in whole]
    return out


def gen_inject(tier):
    big = tier == 'thorough'

    def g():
        for i, only in covering() if not big else [(i, None) for i in range(len(CAT))]:
            heavy = CAT[i][0] in HEAVY
            if heavy and not big and i != FIRST[CAT[i][0]] and only is None:
                continue
            for rep in ((None,) if not big else (None, 'spatialfloat')):
                v = 1 if not big else 2
                n = count(i, v, rep)
                names = ['KeyboardInterrupt', 'MemoryError'] if not big else list(EXC)
                if heavy and not big:
                    names = names[:1]
                blk = 10 if heavy else 60
                for lo in range(0, n, blk):
                    yield [i, lo, lo + blk, names, v, rep, only]
    return g


# ---------------------------------------------------------------- faults in the first call of a process


def first_child(i, k, later):
    """Inject a fault into the very first call of the process, then make later calls."""
    f, call = raw(CAT[i][1], None, None)
    exc = KeyboardInterrupt('injected')
    st = {'n': -1, 'at': None}

    def on(frame):
        st['n'] += 1
        if st['n'] == k:
            st['at'] = (frame.f_code, frame.f_lasti)
            raise exc
        return False
    got = None
    try:
        sched.run_traced(f, on)
    except BaseException as e:
        got = e
    if st['at'] is None:
        return None, []
    return where(st['at']), [got is exc] + [fp(c()) for c in [call] + [prepare(CAT[j][1])[0] for j in later]]


def first_points(i):
    call = prepare(CAT[i][1])[0]
    pts = sched.trace_points(call)[0]
    return [k for k in sched.choose(pts, 1) if pts[k][1] not in sched.with_exit(pts[k][0])], {k: (p[0].co_filename, p[0].co_qualname, p[1]) for k, p in enumerate(pts)}


def run_first(case, S):
    i, ks = case
    prog = CAT[i][1]
    later = [j for j in after(i) if CAT[j][0] == CAT[i][0]][:3]
    S.traces += 1
    base = [in_child(state.fresh, CAT[j][1]) for j in [i] + later]
    for k in ks:
        out = in_child(first_child, i, k, later, timeout=30)
        S.transitions += 1
        if out[0] != 'ok':
            return f'{state.describe(prog)}, interrupted at point {k} as the first call of a process: {out[1][-1000:]}'
        at, r = out[1]
        if at is None:
            continue
        what = f'{state.describe(prog)}, as the first call of a process interrupted {at}'
        if not r[0]:
            return f'{what}, swallowed or replaced the exception'
        for j, x, b in zip([i] + later, r[1:], base):
            if b[0] == 'ok':
                d = same(x, b[1])
                if d:
                    return f'{what}; afterwards {state.describe(CAT[j][1])} gives {d}'
        S.state((i, k, 'first'))
    S.outcome('first', CAT[i][0])
    return None


def gen_first(tier):
    def g():
        done = set()  # fault points that an earlier operation's first call has visited are not repeated
        for n, i in FIRST.items():
            r = in_child(first_points, i)
            if r[0] != 'ok':
                continue
            ks, at = r[1]
            if tier == 'quick':
                ks = [k for k in ks if (at[k][0], at[k][1], at[k][2]) not in done]
                done.update(at[k] for k in ks)
            for lo in range(0, len(ks), 20):
                yield [i, ks[lo:lo + 20]]
    return g


# ---------------------------------------------------------------- float arrays (in-place updates succeed only there)


def gen_float(tier):
    def g():
        for n, i in FIRST.items():
            if n in HEAVY:
                continue
            c = count(i, 1, 'spatialfloat')
            for lo in range(0, c, 60):
                yield [i, lo, lo + 60, ['KeyboardInterrupt'], 1, 'spatialfloat', None]
    return g


# ---------------------------------------------------------------- stack exhaustion


def depth():
    f = sys._getframe()
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def stack_child(i, rep):
    prog = CAT[i][1] if rep is None else xform(CAT[i][1], rep=rep)
    pool = state.Pool()
    try:
        f, call = raw(prog, pool, rep)
    except Exception:
        return 0, None
    base = fp(call())
    later = []
    for k in after(i):
        try:
            c = prepare(CAT[k][1] if rep is None else xform(CAT[k][1], rep=rep), pool)[0]
        except Exception:
            continue
        later.append((k, c, fp(c())))
    before = {key: exact(o) for key, o in pool.objs.items()}
    g = global_state()
    old = sys.getrecursionlimit()
    n = 0
    good = 0
    for d in range(1, 120):
        here = depth()
        got = None
        n += 1
        try:
            sys.setrecursionlimit(here + d)
            try:
                r = f()
            finally:
                sys.setrecursionlimit(old)
        except RecursionError as e:
            if d < 3:
                continue  # not even the call itself
            got = e
        except Exception as e:
            got = e
        what = f'with a stack of {d} frames left'
        if isinstance(got, RecursionError):
            m = check_after(prog, what, pool, before, g, call, base, later, n)
            if m:
                return n, m
            good = 0
            continue
        x = fp(got) if got is not None else fp(r)
        m = same(x, base)
        if m:
            return n, f'{state.describe(prog)} {what} gives {m}'
        good += 1
        if good >= 4:
            break
    return n, None


def run_stack(case, S):
    i, rep = case
    out = in_child(stack_child, i, rep, timeout=58)
    S.traces += 1
    if out[0] != 'ok':
        return f'{state.describe(CAT[i][1])} with stack exhaustion: {out[1][-1500:]}'
    n, m = out[1]
    S.transitions += n
    for k in range(n):
        S.state((i, 'stack', k, rep))
    S.outcome('stack', CAT[i][0])
    return m


def gen_stack(tier):
    def g():
        for i in range(len(LIBRARY)):  # (printing within the last frames fails inside NumPy in many ways)
            if CAT[i][0] in HEAVY and tier == 'quick' and i != FIRST[CAT[i][0]]:
                continue
            yield [i, None]
            if tier == 'thorough':
                yield [i, 'spatialfloat']
    return g


def EXPLORE(tier):
    return [
        Exploration('interrupt', gen_inject(tier), run=run_inject, bounds='KeyboardInterrupt and MemoryError (thorough: also SystemExit, RuntimeError) at the first and last visit of every bytecode of calls that cover every bytecode any catalogue call visits (thorough: all calls)'),
        Exploration('float', gen_float(tier), run=run_inject, bounds='KeyboardInterrupt at every bytecode, objects made of float arrays'),
        Exploration('first', gen_first(tier), run=run_first, bounds='KeyboardInterrupt at every bytecode of the first call of a process (one pristine process per fault, one call per operation), then later calls'),
        Exploration('stack', gen_stack(tier), run=run_stack, bounds='every remaining stack depth from 3 frames until the call succeeds four times, all catalogue calls'),
    ]
