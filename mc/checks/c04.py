"""C04: results depend only on current coordinates, never on the call history."""
import copy
import gc
import itertools
import json

from mc.catalog import BASIC, CAT as LIBRARY, MISMATCHED
from mc.engine import Exploration
from mc.interp import Stats, run_program, xform
from mc import state
from mc.state import fp, in_child, prepare, same

CAT = LIBRARY + BASIC  # the operations of the library, and printing, copying and comparing its objects

RULE = ('a case is a set of histories that start in the same pristine process (forked before any library call); every call of a history is compared with '
        'the same call in another pristine process; distinct cases differ in the operations, objects or values of the history')
ASSUMPTIONS = ['The state of a process before its first library call is the reference; every history runs in its own forked process.']

_BASE = {}


def baseline(prog):
    """Fingerprint of a call in a pristine process."""
    key = json.dumps(prog)
    if key not in _BASE:
        _BASE[key] = in_child(state.fresh, prog)
    return _BASE[key]


def many(progs):
    """Baselines of many programs: each in its own pristine process."""
    return [baseline(p) for p in progs]


def verdict(out):
    if out[0] == 'ok':
        return out[1]
    if out[0] == 'died':
        return f'the history crashed: {out[1]}'
    return f'the history could not be carried out: {out[1][-2000:]}'


# ---------------------------------------------------------------- all pairs


def history_pairs(i, bases, which):
    pool = state.Pool()
    n = 0
    call_a = prepare(CAT[i][1], pool)[0]
    first = fp(call_a())
    d = same(first, bases[i])
    if d:
        return n, f'{state.describe(CAT[i][1])} on shared objects gives {d}'
    for k in which:
        call_b = prepare(CAT[k][1], pool)[0]
        call_a()
        b = fp(call_b())
        n += 2
        d = same(b, bases[k])
        if d:
            return n, f'after {state.describe(CAT[i][1])}, the call {state.describe(CAT[k][1])} gives {d}'
    again = fp(call_a())
    d = same(again, first)
    if d:
        return n, f'repeated after all others, {state.describe(CAT[i][1])} gives {d}'
    return n, None


def all_bases():
    out = []
    for _, p in CAT:
        b = baseline(p)
        out.append(b[1] if b[0] == 'ok' else ('other', b[1][-300:]))
    return out


def run_pairs(case, S):
    i, lo, hi = case
    out = in_child(history_pairs, i, all_bases(), range(lo, min(hi, len(CAT))), timeout=55)
    S.traces += 1
    if out[0] == 'ok':
        n, m = out[1]
        S.transitions += n
        S.state(tuple(case))
        for k in range(lo, min(hi, len(CAT))):
            S.state((i, k))
        S.outcome('pairs', 'compared')
        return m
    return verdict(out)


def gen_pairs(tier):
    def g():
        for i in range(len(CAT)):
            yield [i, 0, len(CAT)]
        if tier == 'thorough':  # the same pairs in pristine processes per block of ten second operations
            for i in range(len(CAT)):
                for lo in range(0, len(CAT), 10):
                    yield [i, lo, lo + 10]
    return g


# ---------------------------------------------------------------- rejected calls


def outcome(prog, pool):
    """The result of a call, or the exception of the call or of the construction of its operands."""
    try:
        call = prepare(prog, pool)[0]
    except Exception as e:
        return ('lit', f'{type(e).__name__}: {e}')
    return fp(call())


def history_rejected(order, shared):
    pool = state.Pool() if shared else None
    return [outcome(p, pool) for p in order]


def orders(name):
    good = [p for n, p in LIBRARY if n == name]
    bad = [p for n, p in MISMATCHED if n == name]
    cls = name.split('.')[0]
    other = [p for n, p in LIBRARY if n != name and n.split('.')[0] == cls][:40]
    mixed = [p for k, b in enumerate(bad) for p in (b, good[k % len(good)])]
    return {'valid calls first': good + other + bad, 'rejected calls first': bad + good + other, 'reversed': bad[::-1] + other[::-1] + good[::-1], 'alternating': mixed + good[::-1] + other}


def run_rejected(case, S):
    """Calls with operands that do not fit, before, between and after valid calls: the order changes no outcome."""
    name, shared = case
    S.traces += 1
    seen = {}
    for what, order in orders(name).items():
        out = in_child(history_rejected, order, shared, timeout=55)
        if out[0] != 'ok':
            return f'{name}, {what}: {verdict(out)}'
        for p, r in zip(order, out[1]):
            S.transitions += 1
            key = json.dumps(p)
            if key in seen:
                d = same(r, seen[key])
                if d:
                    return f'history of {name} with {what}: {state.describe(p)} gives {d} (valid calls first)'
            else:
                seen[key] = r
        S.state((name, what, shared))
    S.outcome('rejected', name)
    return None


def gen_rejected(tier):
    def g():
        for name in sorted({n for n, _ in MISMATCHED}):
            for shared in (False, True):
                yield [name, shared]
    return g


# ---------------------------------------------------------------- mutation by the owner


def leaves_of(prog):
    """All (step index, argument index) of role-tagged leaves of the setup."""
    out = []
    for s, step in enumerate(prog[:-1]):
        for a, x in enumerate(step[2]):
            for role in ('P', 'V', 'S', 'R'):
                if isinstance(x, dict) and role in x:
                    out.append((s, a, role))
    return out


ATTRS = {
    'Line': (('point',), ('direction', 'vector')),
    'Plane': (('point',), ('normal', 'vector')),
    'LineSegment': (('point_a',), ('point_b',)),
    'Circle': (('point',), ('radius',)),
    'Sphere': (('point',), ('radius',)),
    'Triangle': (('point_a',), ('point_b',), ('point_c',)),
    'Cylinder': (('point',), ('vector',), ('radius',)),
}


class ReadOnly(Exception):
    """The attribute cannot be assigned: there is no such history."""


def mutate(env, m):
    s, a, role, how, idx, val = m
    o = env[s]
    cls = type(o).__name__
    from mc import lib
    if idx == 'all':
        if cls in ('Point', 'Vector', 'Points'):
            o[...] = val
            return
        old = getattr(o, ATTRS[cls][a][0])
        if how == 'put':
            old[...] = val
            return
        idx = Ellipsis
    if cls in ('Point', 'Vector', 'Points'):
        o[tuple(idx) if isinstance(idx, list) else idx] = val
        return
    names = ATTRS[cls][a]
    if role == 'R':
        try:
            o.radius = val
        except AttributeError as error:
            raise ReadOnly() from error
    elif how == 'put':
        getattr(o, names[0])[idx] = val
    else:
        old = getattr(o, names[0])
        new = type(old)([float(x) if isinstance(val, float) else x for x in old.tolist()])
        new[idx] = val
        done = 0
        for n in names:
            try:
                setattr(o, n, new)
                done += 1
            except AttributeError:
                pass
        if not done:
            raise ReadOnly()


def mutated_prog(prog, m):
    s, a, role, how, idx, val = m
    p = json.loads(json.dumps(prog))
    leaf = p[s][2][a]
    if role == 'R':
        leaf['R'] = val
    elif idx == 'all':
        leaf[role] = val
    elif isinstance(idx, list):
        leaf[role][idx[0]][idx[1]] = val
    else:
        leaf[role][idx] = val
    return p


def mutations(prog):
    out = []
    for s, a, role in leaves_of(prog):
        x = prog[s][2][a][role]
        cls = prog[s][1]
        if role == 'R':
            out.append([s, a, role, 'set', 0, 7])
            out.append([s, a, role, 'set', 0, x / 2])
            continue
        flat = [(i, v) for i, v in enumerate(x)] if role != 'S' else [([i, j], v) for i, r in enumerate(x) for j, v in enumerate(r)]
        for idx, v in flat if role != 'S' else flat[:1] + flat[len(flat) // 2:len(flat) // 2 + 1] + flat[-1:]:
            for val in (v + 1, -7):
                out.append([s, a, role, 'put', idx, val])
                if cls not in ('Point', 'Vector', 'Points'):
                    out.append([s, a, role, 'set', idx, val])
        for val in rearranged(x, role):
            out.append([s, a, role, 'put', 'all', val])
            if cls not in ('Point', 'Vector', 'Points'):
                out.append([s, a, role, 'set', 'all', val])
    return out


def rearranged(x, role):
    """Other coordinates with the same sum, norm, extremes or set of values."""
    if role == 'S':
        cand = [x[::-1], x[1:] + x[:1], x[1:2] + x[:1] + x[2:], [r[::-1] for r in x], [r[1:] + r[:1] for r in x], [[-v for v in r] for r in x],
                x[:1] * len(x), x[-1:] + x[1:]]
    else:
        cand = [x[::-1], x[1:] + x[:1], x[1:2] + x[:1] + x[2:], x[:-2] + x[-2:][::-1], [-v for v in x], [2 * v for v in x]]
        if len(x) > 1:
            cand.append([x[0] + 1, x[1] - 1] + x[2:])
            cand.append(x[:-2] + [x[-2] - 2, x[-1] + 2])
    out = []
    for c in cand:
        if c != x and c not in out:
            out.append(c)
    return out


def history_mutations(prog, ms, bases):
    """Call, mutate, call again; the second result must be that of a fresh object with the new values."""
    n = 0
    for m, b in zip(ms, bases):
        if b is None:
            continue
        call, env, args, kw = prepare(prog)
        call()
        try:
            mutate(env, m)
        except ReadOnly:
            continue
        r = fp(call())
        n += 2
        d = same(r, b, strict=False)
        if d:
            return n, f'{state.describe(prog)}; then the owner changes object {m[0]} ({m[3]} argument {m[1]}, index {m[4]}, to {m[5]}) and repeats the call: it gives {d}'
        # changed before the first call
        call, env, args, kw = prepare(prog)
        mutate(env, m)
        r = fp(call())
        n += 1
        d = same(r, b, strict=False)
        if d:
            return n, f'the objects of {state.describe(prog)} are changed (object {m[0]}, {m[3]} argument {m[1]}, index {m[4]}, to {m[5]}) before the call: it gives {d}'
        # and back: the original values give the original result again
    return n, None


def run_mutations(case, S):
    i, rep = case
    prog = CAT[i][1]
    if rep:
        prog = xform(prog, rep=rep)
    ms = mutations(prog)
    bases = []
    for m in ms:
        b = baseline(mutated_prog(prog, m))
        bases.append(b[1] if b[0] == 'ok' else None)  # the mutated values may be invalid for the constructor
    S.traces += 1
    if not any(b is not None for b in bases):
        S.transitions += 1
        return None
    out = in_child(history_mutations, prog, ms, bases, timeout=55)
    if out[0] == 'ok':
        n, m = out[1]
        S.transitions += n
        for x in ms:
            S.state((i, rep, json.dumps(x)))
        S.outcome('mutation', 'compared')
        return m
    return verdict(out)


def gen_mutations(tier):
    def g():
        for i, (n, p) in enumerate(LIBRARY):  # (how numbers are printed depends on their type)
            if leaves_of(p):
                yield [i, None]
                yield [i, 'float64'] if tier == 'quick' else [i, 'spatialfloat']
                if tier == 'thorough':
                    yield [i, 'float64']
    return g


# ---------------------------------------------------------------- replacement of objects, long runs


def variants(prog, n):
    """Variations of a program: moved, scaled, nearly equal, equal under hash(), same value in another type."""
    out = [prog]
    for k in range(1, n):
        if k % 5 == 0:
            out.append(xform(prog, offset=[1e-9 * k, 0, 0, 0, 0, 0]))
        elif k % 5 == 1:
            out.append(xform(prog, scale=float(k)))
        elif k % 5 == 2:
            out.append(xform(prog, offset=[k, -k, 2 * k, 1, 0, 0]))
        elif k % 5 == 3:
            out.append(swap_hash(prog, k))
        else:
            out.append(xform(prog, scale=1 + k * 1e-7, rep='float64'))
    return out


def swap_hash(prog, k):
    """Replace -1 by -2 and -2 by -1 (equal hashes), and 0 by 2**61-1's hash class is out of range: only those."""
    def go(x):
        if isinstance(x, dict):
            return {a: (go(b) if a in ('P', 'V', 'S') else b) for a, b in x.items()}
        if isinstance(x, list):
            return [go(y) for y in x]
        if x == -1 and not isinstance(x, bool):
            return -2
        if x == -2:
            return -1
        if x == 0 and k % 2:
            return -0.0
        return x

    def step(s):
        return [go(y) if isinstance(y, (dict, list)) else y for y in s]
    return [step(s) for s in prog]


def history_replace(progs, bases, order):
    """The same variables are reused for different objects; every call is compared with its baseline."""
    n = 0
    for j in order:
        if bases[j] is None:
            continue
        call, env, args, kw = prepare(progs[j])
        r = fp(call())
        n += 1
        del call, env, args, kw
        d = same(r, bases[j])
        if d:
            return n, f'in a history of calls on objects that replace each other, {state.describe(progs[j])} gives {d}'
    gc.collect()
    return n, None


def run_replace(case, S):
    i, n, name = case
    progs = variants(CAT[i][1], n)
    bases = [baseline(p) for p in progs]
    bases = [b[1] if b[0] == 'ok' else None for b in bases]
    m = len(progs)
    order = {
        'cycle': list(range(m)) * 3,
        'alternate': [x for j in range(m) for x in (0, j, 0)],
        'reverse': list(range(m))[::-1] + list(range(m)),
        'repeat': [0] * 300 + [1] * 20 + [0],
    }[name]
    S.traces += 1
    out = in_child(history_replace, progs, bases, order, timeout=55)
    if out[0] == 'ok':
        k, msg = out[1]
        S.transitions += k
        for j in range(m):
            S.state((i, j, name))
        S.outcome('replacement', name)
        return msg
    return verdict(out)


def gen_replace(tier):
    def g():
        for i in range(len(CAT)):
            yield [i, 8 if tier == 'quick' else 40, 'alternate']
            yield [i, 2, 'repeat']
            if tier == 'thorough':
                yield [i, 40, 'cycle']
                yield [i, 40, 'reverse']
        seen = set()
        for i, (n, p) in enumerate(CAT):
            if n not in seen:  # one long history per operation: more distinct calls than any plausible bounded cache
                seen.add(n)
                yield [i, 150 if tier == 'quick' else 300, 'cycle']
    return g


# ---------------------------------------------------------------- same object, different arguments


def history_args(progs, bases):
    """One pool: operations of the same name on the same object with different arguments, every ordered pair."""
    pool = state.Pool()
    n = 0
    calls = []
    for p in progs:
        try:
            calls.append(prepare(p, pool)[0])
        except Exception:
            calls.append(None)
    for a in range(len(progs)):
        for b in range(len(progs)):
            for j in (a, b):
                if calls[j] is None or bases[j] is None:
                    continue
                r = fp(calls[j]())
                n += 1
                d = same(r, bases[j])
                if d:
                    return n, f'calls with different arguments on the same object: {state.describe(progs[j])} gives {d} (after {state.describe(progs[a])})'
    return n, None


COUNTS = (1, 2, 8, 10, 16, 32, 64, 100, 128)


def arg_variants(prog):
    """Change only the arguments of the last call (each numeric coordinate), keeping the receiver."""
    out = [prog]
    step = prog[-1]
    if step[0] != 'op':
        return out
    for a, x in enumerate(step[3]):
        if isinstance(x, dict):
            for role in ('P', 'V', 'S'):
                if role in x:
                    base = x[role]
                    for k in range(len(base)):
                        for dv in (1, -3, 1e-9):
                            p = json.loads(json.dumps(prog))
                            if role == 'S':
                                p[-1][3][a][role][k][-1] += dv
                            else:
                                p[-1][3][a][role][k] += dv
                            out.append(p)
            if 'N' in x:
                lst = isinstance(x['N'], list)
                for k in range(len(x['N']) if lst else 1):
                    for dv in (1, 2.5, 1e-9):
                        p = json.loads(json.dumps(prog))
                        if lst:
                            p[-1][3][a]['N'][k] += dv
                        else:
                            p[-1][3][a]['N'] += dv
                        out.append(p)
            if 'I' in x:
                for dv in COUNTS:
                    p = json.loads(json.dumps(prog))
                    p[-1][3][a]['I'] += dv
                    out.append(p)
    for key, x in step[4].items():
        if isinstance(x, dict) and 'I' in x:
            for dv in COUNTS:
                p = json.loads(json.dumps(prog))
                p[-1][4][key]['I'] += dv
                out.append(p)
    for kw in ({'abs_tol': 0.5}, {'abs_tol': 1e-3}, {'rel_tol': 0.1}, {'tol': 1.5}):
        p = json.loads(json.dumps(prog))
        p[-1][4].update(kw)
        out.append(p)
    for other in ('A', 'B', 'C', 'a', 'b', 'c'):
        if len(step[3]) == 1 and isinstance(step[3][0], str):
            p = json.loads(json.dumps(prog))
            p[-1][3][0] = other
            out.append(p)
    # other objects as arguments
    for s in range(len(prog) - 1):
        if s != step[1]['$']:
            for q in (xform([prog[s]], offset=[1, 0, 0, 0, 0, 0]), xform([prog[s]], scale=2.0)):
                p = json.loads(json.dumps(prog))
                p[s] = q[0]
                out.append(p)
    return out


def run_args(i, S):
    progs = arg_variants(CAT[i][1])
    bases = [baseline(p) for p in progs]
    bases = [b[1] if b[0] == 'ok' else None for b in bases]
    S.traces += 1
    out = in_child(history_args, progs, bases, timeout=55)
    if out[0] == 'ok':
        n, m = out[1]
        S.transitions += max(n, 1)
        for j in range(len(progs)):
            S.state((i, 'arg', j))
        S.outcome('arguments', 'compared')
        return m
    return verdict(out)


def gen_args(tier):
    def g():
        for i in range(len(CAT)):
            yield i
    return g


# ---------------------------------------------------------------- dense histories

DENSE_SKIP = {'Cylinder.best_fit'}


def set_programs():
    """One catalogue call of every operation on a set of points: (name, program, step, argument)."""
    out, seen = [], set()
    for name, prog in LIBRARY:
        if name in DENSE_SKIP or name in seen:
            continue
        for k, step in enumerate(prog):
            args = step[3] if step[0] in ('op', 'cm') else step[2]
            for a, x in enumerate(args):
                if isinstance(x, dict) and 'S' in x and name not in seen:
                    seen.add(name)
                    out.append((name, prog, k, a))
    return out


SETS = set_programs()
SHAPES = [(r, c) for r in range(1, 7) for c in range(1, 7) if r * c <= 6]


def dense_values(top):
    """All sets of all shapes with few entries 0, 1, 2 (equal sequences of numbers in different shapes), and larger ones that are centred in several shapes."""
    for r, c in SHAPES:
        for v in itertools.product(range(top if r * c > 4 else 3), repeat=r * c):
            yield [list(v[i * c:i * c + c]) for i in range(r)]
    for x0, x1, x4, x5 in itertools.product((-1, 0, 1, 2), repeat=4):
        h = [x0, x1, x0 + x4, x1 + x5, x4, x5]
        v = h + [-x for x in h]
        for r, c in ((2, 6), (3, 4), (4, 3), (6, 2), (12, 1)):
            yield [v[i * c:i * c + c] for i in range(r)]


def history_dense(n, top, backwards, rep):
    """One process carries out the operation on all these sets; each result is judged by the exact reference model."""
    name, prog, k, a = SETS[n]
    S = Stats()
    values = list(dense_values(top))
    for v in values[::-1] if backwards else values:
        p = json.loads(json.dumps(prog))
        args = p[k][3] if p[k][0] in ('op', 'cm') else p[k][2]
        args[a] = {'S': v, 'rep': rep} if rep else {'S': v}
        m = run_program(p, S)
        if m:
            return S.transitions, S.amb, f'in one process, after the same operation on other sets of points: {m}'
    return S.transitions, S.amb, None


def run_dense(case, S):
    S.traces += 1
    out = in_child(history_dense, *case, timeout=300)
    if out[0] == 'ok':
        n, amb, m = out[1]
        S.transitions += n
        S.amb += amb
        S.state(tuple(case))
        S.outcome('dense', SETS[case[0]][0])
        return m
    return verdict(out)


def gen_dense(tier):
    def g():
        for n in range(len(SETS)):
            for backwards in (False, True):
                for rep in (None,) if tier == 'quick' else (None, 'float64', 'float32'):
                    yield [n, 2 if tier == 'quick' else 3, backwards, rep]
    return g


def EXPLORE(tier):
    return [
        Exploration('dense', gen_dense(tier), run=run_dense, bounds=f'{len(SETS)} operations on all point sets with up to 6 entries (0-1; 0-2 up to 4 entries; thorough: 0-2) in all shapes and 1280 centred ones with 12 entries in 5 shapes, one process per operation and direction, judged by the reference model'),
        Exploration('pairs', gen_pairs(tier), run=run_pairs, bounds=f'all {len(CAT)}^2 ordered pairs of catalogue calls on shared objects, each first call in its own pristine process'),
        Exploration('rejected', gen_rejected(tier), run=run_rejected, bounds=f'{len(MISMATCHED)} calls with operands of another dimension before, after and between the valid calls of the operation and its class, in four orders, on shared and separate objects'),
        Exploration('mutations', gen_mutations(tier), run=run_mutations, bounds='every coordinate, radius and attribute of every object of every catalogue call is changed in place and by assignment, before and after a call'),
        Exploration('replacement', gen_replace(tier), run=run_replace, bounds='objects replaced by 8 variants in alternation, 300 repetitions, one history of 150 distinct calls (three rounds) per operation'),
        Exploration('arguments', gen_args(tier), run=run_args, bounds='all ordered pairs of argument variations (each coordinate, tolerances, labels, other objects) on the same receiver'),
    ]
