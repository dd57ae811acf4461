"""C03: computations never modify their receiver, their arguments or global state."""
import gc
import random
import sys
import warnings

import numpy as np

from mc.catalog import BASIC, CAT as LIBRARY, MISMATCHED
from mc.domains import REPS
from mc.engine import Exploration
from mc.interp import Stats, xform
from mc import state
from mc.state import exact, exact_diff, fp, global_diff, global_state, prepare, same

CAT = LIBRARY + BASIC  # the operations of the library, and printing, copying and comparing its objects

ALL = CAT + MISMATCHED

RULE = 'a case is one operation of the catalogue with one set of arguments in one representation (or a set of pairs on shared objects); it is non-trivial when the call was carried out'

QREPS = [None, 'float64', 'spatialfloat', 'readonly', 'roint', 'strided', 'reversed', 'fortran', 'int64', 'tuple', 'listoftuples', 'arrays', 'spatial', 'longdouble', 'float32']
SCALES = [None, 0.1, 1000.0, -1.0]


def check_call(prog, S, extra=()):
    """Perform one call and compare every input and the global state before and after."""
    try:
        call, env, args, kw = prepare(prog)
    except Exception:
        return None, None  # this representation is not accepted by the constructor (judged by C01, C02 and C07)
    watched = [('object %d' % i, o) for i, o in enumerate(env)] + [('argument %d' % i, a) for i, a in enumerate(args)] + [('keyword ' + k, v) for k, v in kw.items()] + list(extra)
    before = [exact(o) for _, o in watched]
    g = global_state()
    S.transitions += 1
    r = call()
    g2 = global_state()
    for (n, o), x in zip(watched, before):
        y = exact(o)
        if x != y:
            d = exact_diff(x, y, n)
            if d:
                return f'{state.describe(prog)} ({"raised " + repr(r) if isinstance(r, Exception) else "returned " + repr(r)[:200]}) changed {d}', r
    d = global_diff(g, g2)
    if d:
        return f'{state.describe(prog)}: {d}', r
    return None, r


def run_single(case, S):
    i, rep, scale = case
    name, prog = ALL[i]
    p = prog
    if scale is not None:
        p = xform(p, scale=scale)
    if rep is not None:
        p = xform(p, rep=rep)
    S.traces += 1
    m, r = check_call(p, S)
    if m:
        return m
    if r is None:
        S.outcome(name, 'not constructible in this representation')
    else:
        S.state((i, rep, scale, repr(fp(r))))
        S.outcome(name, type(r).__name__)
        if rep in ('readonly', 'roint'):
            # works on read-only arrays exactly as on writable ones
            base = prepare(xform(xform(prog, scale=scale) if scale is not None else prog, rep='float64' if rep == 'readonly' else 'ndarray'))[0]()
            d = same(fp(r), fp(base), strict=False)
            if d:
                return f'{state.describe(p)} on read-only arrays gives {d}'
    return None


def gen_single(tier):
    def g():
        for i in range(len(CAT)):
            for rep in QREPS if tier == 'quick' else [None] + REPS:
                for s in (SCALES[:1] if tier == 'quick' or rep not in (None, 'float64', 'spatialfloat') else SCALES) + ([0.37] if rep == 'spatialfloat' else []):
                    yield [i, rep, s]
        for i in range(len(CAT), len(ALL)):
            for rep in (None, 'float64', 'spatialfloat', 'readonly') if tier == 'quick' else [None] + REPS:
                yield [i, rep, None]
    return g


SETTINGS = {
    'garbage collector off': (gc.disable, gc.enable),
    'other error state': (lambda: np.seterr(divide='ignore', over='ignore', under='warn', invalid='raise'), lambda: np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')),
    'other print options': (lambda: np.set_printoptions(precision=3, threshold=5, suppress=True, linewidth=40), lambda: np.set_printoptions(precision=8, threshold=1000, suppress=False, linewidth=75)),
    'recursion limit': (lambda: sys.setrecursionlimit(900), lambda: sys.setrecursionlimit(1000)),
    'warnings as errors': (lambda: warnings.simplefilter('error'), warnings.resetwarnings),
    'seeded': (lambda: (np.random.seed(7), random.seed(7)), lambda: None),
}


def settings_child(i, rep):
    """The call leaves settings alone that are not the default ones, too."""
    for name, (change, back) in SETTINGS.items():
        p = ALL[i][1]
        if rep is not None:
            p = xform(p, rep=rep)
        change()
        m, r = check_call(p, Stats())
        if m:
            return f'with {name}: {m}'
        back()
    return None


def run_settings(case, S):
    out = state.in_child(settings_child, *case, timeout=58)
    S.traces += 1
    S.transitions += len(SETTINGS)
    S.state(str(case))
    S.outcome('settings', ALL[case[0]][0])
    if out[0] != 'ok':
        raise RuntimeError(out[1])
    return out[1]


def gen_settings(tier):
    def g():
        for i in range(len(ALL) if tier == 'thorough' else len(CAT)):
            yield [i, None]
            if tier == 'thorough':
                yield [i, 'spatialfloat']
    return g


def run_pairs(i, S):
    """All operations B after operation A on shared objects: neither the shared objects nor the result of A change."""
    S.traces += 1
    rep = None if i % 2 else 'spatialfloat'

    def P(k):
        return xform(CAT[k][1], rep=rep) if rep else CAT[k][1]
    pool = state.Pool()
    try:
        call, env, args, kw = prepare(P(i), pool)
    except Exception:
        return None
    ra = call()
    for k in range(len(CAT)):
        try:
            call_b, env_b, args_b, kw_b = prepare(P(k), pool)
        except Exception:
            continue
        watched = env + args + env_b + args_b + ([ra] if not isinstance(ra, Exception) else [])
        before = [exact(o) for o in watched]
        S.transitions += 1
        rb = call_b()
        S.state((i, k, type(rb).__name__))
        for n, (o, x) in enumerate(zip(watched, before)):
            if exact(o) != x:
                d = exact_diff(x, exact(o), 'an input' if o is not ra else 'the result of the earlier call')
                if d:
                    return f'after {state.describe(P(i))}, the call {state.describe(P(k))} changed {d}'
    return None


def gen_pairs(tier):
    def g():
        for i in range(len(CAT)):
            yield i
    return g


def EXPLORE(tier):
    return [
        Exploration('single', gen_single(tier), run=run_single, bounds=f'{len(CAT)} catalogue calls x 15 representations (thorough: 22) x scales, and {len(MISMATCHED)} calls with operands of another dimension (most of them rejected)'),
        Exploration('settings', gen_settings(tier), run=run_settings, bounds=f'every call of the catalogue (thorough: also the rejected ones, and floats) with {len(SETTINGS)} settings of the process that are not the default'),
        Exploration('pairs', gen_pairs(tier), run=run_pairs, bounds='all ordered pairs of catalogue calls on shared live objects and arguments; results of the first call stay unchanged'),
    ]
