"""C07: results do not depend on how the input is represented or on NumPy settings."""
import contextlib
import itertools
import warnings

import numpy as np

from mc import interp, state
from mc.catalog import CAT
from mc.domains import REPS as ALL_REPS
from mc.engine import Exploration, load
from mc.interp import ALL_ROLES, HarnessError, run_program, xform
from mc.state import describe, fp, prepare, same

RULE = ('a case is one operation with one set of arguments, one representation per argument and one NumPy/warning configuration; it is '
        'non-trivial when the call was carried out and compared')

# Mixed assignments: representations that differ in kind (Python, integer, float, view, read-only, spatial object).
REPS = [r for r in ALL_REPS if r != 'longdouble']  # numpy.linalg does not accept extended precision
MIX = ['tuple', 'floats', 'int64', 'float64', 'strided', 'reversed', 'readonly', 'spatial', 'cross']
ERR = ['ignore', 'warn', 'raise', 'call', 'print']


@contextlib.contextmanager
def strict():
    """Every floating point condition and every warning is an error."""
    with np.errstate(all='raise'), warnings.catch_warnings():
        warnings.simplefilter('error')
        yield


def values(f, prog):
    """The transforms return a plain array or an array of the type of their input: only the values are compared."""
    if f[0] == 'arr' and prog[-1][0] in ('op', 'fn') and prog[-1][2 if prog[-1][0] == 'op' else 1] in ('transform_points', 'transform_coordinates'):
        return ('arr', 'ndarray') + f[2:]
    return f


INTEGER = {'int8', 'int64', 'int32', 'int16', 'uint8', 'uint16', 'uint32', 'uint64'}

# Scales at which the coordinates of the catalogue fit in the integer type, but their products do not (three or more of them, for 64 bits).
WIDE = {'int64': [-3, 2 ** 10, 2 ** 14, 2 ** 16, 2 ** 20, 2 ** 26], 'int32': [2 ** 8, 2 ** 12, 2 ** 14, 2 ** 16, 2 ** 20, 2 ** 26], 'int16': [1, 2 ** 4, 2 ** 6, 2 ** 8, 2 ** 10],
        'uint64': [1], 'uint16': [1, 2 ** 6], 'uint8': [1]}


def leaves(prog):
    n = 0

    def go(x):
        nonlocal n
        if isinstance(x, dict):
            if any(r in x for r in ALL_ROLES):
                n += 1
                return
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    for s in prog:
        go(s)
    return n


def compare(prog, base, S, what=''):
    """Differential comparison with the plain-list call, and the judges."""
    S.traces += 1
    msg = run_program(prog, S)
    if msg:
        return what + msg
    ra = prepare(base)[0]()
    rb = prepare(prog)[0]()
    S.transitions += 1
    d = same(values(fp(rb), prog), values(fp(ra), prog), strict=False)
    if d:
        return f'{what}{describe(prog)} gives {d} (compared with plain lists)'
    S.state((what, repr(fp(rb))))
    return None


def run_uniform(case, S):
    i, rep, scale = case
    base = CAT[i][1]
    if scale is not None:
        base = xform(base, scale=scale)
    return compare(xform(base, rep=rep), base, S)


def gen_uniform(tier):
    def g():
        for i in range(len(CAT)):
            for rep in REPS:
                if rep in INTEGER and not int_ok(CAT[i][1]):
                    continue
                for s in (None,) if tier == 'quick' else (None, -3) if rep in INTEGER else (None, 0.37, -3, 1024, 2 ** 14):
                    yield [i, rep, s]
            if int_ok(CAT[i][1]):
                for rep, scales in WIDE.items():
                    if rep[0] == 'u' and not nonnegative(CAT[i][1]):
                        continue
                    for s in scales[-1:] if tier == 'quick' else scales:
                        yield [i, rep, s]
    return g


def run_mixed(case, S):
    i, reps = case
    base = CAT[i][1]
    return compare(xform(base, rep=reps), base, S)


def gen_mixed(tier):
    def g():
        for i in range(len(CAT)):
            n = leaves(CAT[i][1])
            if n < 2:
                continue
            mix = [r for r in (MIX if tier == 'quick' else REPS) if r not in INTEGER or int_ok(CAT[i][1])]
            for a, b in itertools.permutations(mix, 2):
                yield [i, [a, b]]
            if n > 2:
                for a, b in itertools.permutations(mix, 2):
                    if tier != 'quick' or a < b:
                        yield [i, [a, a, b, b]]
    return g


def run_settings(case, S):
    i, err, filt, rep, scale = case
    base = CAT[i][1]
    if scale is not None:
        base = xform(base, scale=scale)
    p = xform(base, rep=rep) if rep else base
    S.traces += 1
    ra = prepare(base)[0]()
    called = []
    with warnings.catch_warnings(record=(filt == 'always')) as rec:
        warnings.simplefilter(filt)
        with np.errstate(all=err, call=lambda *a: called.append(a)):
            try:
                rb = prepare(p)[0]()
            except Warning as w:
                return f'{describe(p)} under np.seterr(all={err!r}) and warnings={filt!r}: {w!r}'
    S.transitions += 1
    d = same(values(fp(rb), p), values(fp(ra), p), strict=False)
    if d:
        return f'{describe(p)} under np.seterr(all={err!r}) and warnings={filt!r} gives {d} (compared with the default settings)'
    if not isinstance(rb, Exception):
        if filt == 'always' and rec:
            return f'{describe(p)} under np.seterr(all={err!r}) emitted {rec[0].message!r}'
        if err == 'call' and called:
            return f'{describe(p)}: floating point condition {called[0]} in a valid call'
    S.state((err, filt, repr(fp(rb))))
    return None


def gen_settings(tier):
    def g():
        for i in range(len(CAT)):
            for err in ERR[:4]:
                for filt in ('error', 'always', 'ignore'):
                    for rep in (None, 'float64') if tier == 'quick' else (None, 'float64', 'int64', 'spatial', 'readonly'):
                        if rep in INTEGER and not int_ok(CAT[i][1]):
                            continue
                        for s in (None,) if tier == 'quick' else (None, -3, 1024):
                            yield [i, err, filt, rep, s]
    return g


# The complete alphabets of the reference-model checks, in rotating representations and under strict settings.

SOURCES = [1, 2] + list(range(9, 28))
ROT = [['float64', 'int64'], ['readonly', 'tuple', 'strided'], ['spatial', 'floats'], ['reversed', 'cross', 'int64'], ['offsetview', 'spatialfloat'],
       ['roint'], ['swapped', 'list'], ['fortran', 'transposed']]


def integral(x):
    if isinstance(x, dict):
        return all(integral(v) for k, v in x.items() if k != 'rep')
    if isinstance(x, (list, tuple)):
        return all(integral(v) for v in x)
    return not isinstance(x, float) or x == int(x)


def run_strict(case, S):
    prog, k = case[2], case[1]
    if k is not None:
        reps = ROT[k]
        p = xform(prog, rep=reps)
    else:
        p = prog
    interp.SETTINGS.append(strict)
    try:
        try:
            msg = run_program(p, S)
        except HarnessError:
            raise
    finally:
        interp.SETTINGS.pop()
    return None if msg is None else f'with every warning and floating point condition an error: {msg}'


def has_rep(x):
    if isinstance(x, dict):
        return 'rep' in x or 'L' in x or any(has_rep(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_rep(v) for v in x)
    return False


def int_ok(x):
    """Every role-tagged value is an integer (so that integer representations mean the same numbers)."""
    if isinstance(x, dict):
        for r in ALL_ROLES:
            if r in x:
                return r == 'I' or (r == 'N' and not isinstance(x[r], list)) or ints(x[r])
        return all(int_ok(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(int_ok(v) for v in x)
    return True


def nonnegative(x):
    if isinstance(x, dict):
        return all(nonnegative(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(nonnegative(v) for v in x)
    return not isinstance(x, (int, float)) or x >= 0


def ints(v):
    if isinstance(v, (list, tuple)):
        return all(ints(y) for y in v)
    return isinstance(v, int) and abs(v) < 2 ** 20


def tiny(x):
    """Contains a value whose square is not a normal number (underflow is then inherent)."""
    if isinstance(x, dict):
        return any(tiny(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(tiny(v) for v in x)
    return isinstance(x, float) and 0 < abs(x) < 1e-150


# Every integer type up to its limits: the largest scales at which all numbers of a call can be represented.

LIMITS = {'int8': 127, 'int16': 2 ** 15 - 1, 'int32': 2 ** 31 - 1, 'int64': 2 ** 52, 'uint8': 255, 'uint16': 2 ** 16 - 1, 'uint32': 2 ** 32 - 1, 'uint64': 2 ** 52}


def largest(x):
    """The largest number that is scaled."""
    if isinstance(x, dict):
        for r in 'PVSR':
            if r in x:
                return flat_max(x[r])
        return max([largest(v) for v in x.values()] + [0])
    if isinstance(x, (list, tuple)):
        return max([largest(v) for v in x] + [0])
    return 0


def flat_max(v):
    if isinstance(v, (list, tuple)):
        return max([flat_max(y) for y in v] + [0])
    return abs(v)


def gen_limits(tier):
    def g():
        for i in range(len(CAT)):
            if not int_ok(CAT[i][1]):
                continue
            m = largest(CAT[i][1])
            for rep, lim in LIMITS.items():
                if not m or lim < m or (rep[0] == 'u' and not nonnegative(CAT[i][1])):
                    continue
                s = lim // m
                for k in range(s.bit_length()) if tier != 'quick' else (s.bit_length() - 1,):
                    yield [i, rep, 1 << k]
                yield [i, rep, s]
                if rep == 'int64':
                    for big in (2 ** 32, 2 ** 40):
                        if big // m:
                            yield [i, rep, big // m]
    return g


def gen_strict(tier):
    def g():
        for c in SOURCES:
            n = 0
            for e in load('C%02d' % c).EXPLORE('quick'):
                if e.run is not run_program:
                    continue
                for prog in e.gen():
                    n += 1
                    if tiny(prog):
                        continue
                    if c == 1 or has_rep(prog) or not int_ok(prog):
                        yield ['C%02d' % c, None, prog]
                    elif tier == 'quick':
                        yield ['C%02d' % c, n % len(ROT), prog]
                    else:
                        yield ['C%02d' % c, None, prog]
                        for k in range(len(ROT)):
                            yield ['C%02d' % c, k, prog]
    return g


# Fixed-width integers: NumPy arithmetic wraps around silently when a product does not fit.  Where that makes a documented
# operation wrong, the input is a recorded finding (known_findings.txt); the same calls with integers that fit must be right.

def fixed(rep, big, fits):
    out = []
    for b in (fits, big):
        r = {'rep': rep} if rep else {}

        def P(*v):
            return {'P': [x * b for x in v], **r}

        def V(*v):
            return {'V': [x * b for x in v], **r}

        def S(*v):
            return {'S': [[x * b for x in row] for row in v], **r}
        out += [
            [['new', 'Vector', [V(1, 0)]], ['op', {'$': 0}, 'is_zero', [], {}]],
            [['new', 'Vector', [V(1, 1)]], ['op', {'$': 0}, 'cosine_similarity', [V(1, 1)], {}]],
            [['new', 'Vector', [V(1, 1)]], ['op', {'$': 0}, 'angle_between', [V(1, 1)], {}]],
            [['new', 'Vector', [V(1, 1)]], ['op', {'$': 0}, 'is_perpendicular', [V(1, 1)], {}]],
            [['new', 'Vector', [V(1, 1)]], ['op', {'$': 0}, 'is_parallel', [V(1, 0)], {}]],
            [['new', 'Vector', [V(1, 0, 0)]], ['op', {'$': 0}, 'cross', [V(0, 1, 0)], {}]],
            [['new', 'Line', [P(0, 0), V(1, 0)]]],
            [['new', 'Plane', [P(0, 0, 0), V(0, 0, 1)]]],
            [['fn', 'area_triangle', [P(0, 0), P(1, 0), P(0, 1)], {}]],
            [['fn', 'area_signed', [S([0, 0], [1, 0], [1, 1], [0, 1])], {}]],
            [['cm', 'Circle', 'from_points', [P(0, 0), P(1, 0), P(0, 1)], {}]],
        ]
    return out


def gen_fixed(tier):
    def g():
        yield from fixed(None, 2 ** 32, 2 ** 30)
        yield from fixed('int32', 2 ** 16, 2 ** 14)
        yield from fixed('int16', 2 ** 8, 2 ** 6)
        for a, b in (([1, 1], [3, 3]), ([3, 3], [1, 1])):
            a, b = {'P': a, 'rep': 'uint8'}, {'P': b, 'rep': 'uint8'}
            yield [['cm', 'Vector', 'from_points', [a, b], {}]]
            yield [['cm', 'Line', 'from_points', [a, b], {}]]
            yield [['new', 'Point', [a]], ['op', {'$': 0}, 'distance_point', [b], {}]]
    return g


def EXPLORE(tier):
    return [
        Exploration('fixed_width', gen_fixed(tier), bounds='13 operations on 64, 32, 16 and 8 bit integers, the largest powers of two whose products fit and the smallest that wrap around'),
        Exploration('limits', gen_limits(tier), run=run_uniform, bounds='catalogue calls x 8 integer types at the largest scales that can be represented (52 bits for 64-bit integers; thorough: all powers of two)'),
        Exploration('uniform', gen_uniform(tier), run=run_uniform, bounds=f'{len(CAT)} catalogue calls x {len(REPS)} representations x scales'),
        Exploration('mixed', gen_mixed(tier), run=run_mixed, bounds='catalogue calls with different representations for different arguments (all ordered pairs)'),
        Exploration('settings', gen_settings(tier), run=run_settings, bounds='catalogue calls x 4 NumPy error states x 3 warning filters x representations'),
        Exploration('strict', gen_strict(tier), run=run_strict, bounds='the alphabets of C01, C02, C09-C27 in rotating representations (thorough: all rotations) with every warning and floating point condition an error'),
    ]
