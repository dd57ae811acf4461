"""
Programs over the public API, and their judged execution.

A program is a JSON list of steps; the result of step i is referred to as {"$": i}.

    ["new", cls, args]                 construct an object
    ["cm", cls, method, args, kw]      alternative constructor / class method
    ["op", ref, method, args, kw]      method call
    ["fn", name, args, kw]             function of skspatial.measurement / skspatial.transformation
    ["item", ref, i]                   element of a tuple result or row of an array
    ["get", ref, attr]                 attribute
    ["set", ref, attr, value]          the owner assigns an attribute
    ["put", ref, attr, index, value]   the owner writes coordinates in place (attr may be null)

Argument leaves: numbers, strings, null, plain nested lists, {"$": i}, {"f": "nan"}, {"t": [...]} (tuple) and role-tagged
data {"P": point}, {"V": vector}, {"S": points}, {"R": length}, {"N": numbers that are not scaled}, {"I": count}, optionally with
"rep": representation.
"""
from __future__ import annotations

import math
import traceback

import numpy as np

from . import lib
from .model import AMB, Arr, Bad, Geo, Outcome, exact_nested, model, short
from .spec import JUDGES

ROLES = ('P', 'V', 'S', 'R')
ALL_ROLES = ROLES + ('N', 'I')  # N and I: neither scaled nor moved


class HarnessError(Exception):
    pass


def mkrep(v, rep, role):
    """The same numbers in another representation."""
    if rep == 'list':
        return copy_list(v)
    if rep == 'tuple':
        return totuple(v)
    if rep == 'floats':
        return tofloat(v)
    if rep == 'listoftuples':
        return [tuple(x) for x in v] if isinstance(v[0], (list, tuple)) else tuple(v)
    if rep == 'arrays':
        return [np.array(x) for x in v] if isinstance(v[0], (list, tuple)) else np.array(v)
    if rep == 'scalars':
        return [mkrep(x, 'scalars', role) for x in v] if isinstance(v, (list, tuple)) else np.array(v)[()]
    if rep == 'points' and role != 'N':
        return [lib.Point(x) for x in v] if isinstance(v[0], (list, tuple)) else lib.Point(v)
    a = np.array(v)
    if rep == 'uint64' and a.dtype.kind == 'f':  # large and small integers together: NumPy makes floats of them
        b = np.array(v, dtype=object)
        if all(type(x) is int and 0 <= x < 2 ** 64 for x in b.ravel()):
            return b.astype(rep)
    if rep == 'ndarray':
        return a
    if role == 'N' and rep in ('spatial', 'spatialfloat', 'cross', 'points'):
        return a.astype(float)  # limits are plain sequences of numbers, not points
    if rep in ('int64', 'int32', 'float64', 'float32', 'longdouble', 'uint8', 'uint16', 'uint64', 'int16', 'int8', 'float16', 'uint32'):
        return a.astype(rep)
    if rep == 'swapped':
        a = a.astype(float)
        return a.astype(a.dtype.newbyteorder())
    if rep == 'fortran':
        return np.asfortranarray(a.astype(float))
    if rep == 'strided':
        b = np.full(tuple(3 * n for n in a.shape), -77.5)
        s = tuple(slice(1, None, 3) for _ in a.shape)
        b[s] = a
        return b[s]
    if rep == 'reversed':
        f = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a.astype(float)[f])[f]
    if rep == 'readonly':
        b = a.astype(float)
        b.flags.writeable = False
        return b
    if rep == 'roint':
        a = a.copy()
        a.flags.writeable = False
        return a
    if rep == 'transposed':
        return np.ascontiguousarray(a.astype(float).T).T
    if rep == 'offsetview':
        b = np.full(a.size + 1, -33.25)
        b[1:] = a.ravel()
        return b[1:].reshape(a.shape)
    if rep == 'spatial':
        return (lib.Points if a.ndim == 2 else lib.Vector if role == 'V' else lib.Point)(v)
    if rep == 'spatialfloat':
        return (lib.Points if a.ndim == 2 else lib.Vector if role == 'V' else lib.Point)(a.astype(float))
    if rep == 'cross':  # a point where a vector is expected and vice versa
        return (lib.Points if a.ndim == 2 else lib.Point if role == 'V' else lib.Vector)(v)
    raise HarnessError(f'unknown representation {rep}')


def copy_list(v):
    return [copy_list(x) for x in v] if isinstance(v, (list, tuple)) else v


def totuple(v):
    return tuple(totuple(x) for x in v) if isinstance(v, (list, tuple)) else v


def tofloat(v):
    return [tofloat(x) for x in v] if isinstance(v, (list, tuple)) else float(v)


INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')


def mkscalar(v, rep):
    if rep in ('float64', 'floats', 'readonly', 'strided', 'swapped'):
        return np.float64(v) if rep != 'floats' else float(v)
    if rep in INTS and v == int(v) and np.iinfo(rep).min <= v <= np.iinfo(rep).max:
        return np.dtype(rep).type(v)
    if rep in ('float32', 'float16') and np.dtype(rep).type(v) == v:
        return np.dtype(rep).type(v)
    return v


def build(x, env):
    t = type(x)
    if t is dict:
        if '$' in x:
            return env[x['$']]
        if 'f' in x:
            return float(x['f'])
        if 't' in x:
            return tuple(build(y, env) for y in x['t'])
        if 'L' in x:
            return build_leaf(x['L'], env, x.get('rep'), 'L')
        for role in ALL_ROLES:
            if role in x:
                return build_leaf(x[role], env, x.get('rep'), role)
        raise HarnessError(f'bad argument {x!r}')
    if t is list:
        return [build(y, env) for y in x]
    return x


def build_leaf(v, env, rep, role):
    if role == 'I':
        return np.dtype(rep).type(v) if rep in INTS and rep != 'uint64' and v <= np.iinfo(rep).max else v
    if not isinstance(v, (list, tuple)) and role in 'RN':
        return mkscalar(v, rep) if rep else v
    if rep is None or rep == 'list':
        return [build(y, env) if type(y) in (list, dict) else y for y in v]
    if role == 'L':
        v = build(v, env)
    return mkrep(v, rep, role)


def raw_model(x, env_models, live):
    """Exact model of an argument (given its JSON form and its live value)."""
    if type(x) is dict and '$' in x:
        m = env_models[x['$']]
        return m if m is not None else model(live)
    return model(live)


class Stats:
    """What one worker has covered."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.amb = 0
        self.states = set()
        self.outcomes = {}
        self.samples = []

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, name, kind):
        k = (name, kind)
        self.outcomes[k] = self.outcomes.get(k, 0) + 1


SETTINGS = []  # a context manager factory while calls are to be made under particular NumPy / warning settings


def call(f, args, kw):
    if SETTINGS:
        with SETTINGS[-1]():
            try:
                return Outcome(None, f(*args, **kw))
            except Exception as e:
                return Outcome(e, None)
    try:
        return Outcome(None, f(*args, **kw))
    except Exception as e:
        return Outcome(e, None)


def lookup(kind, cls, method):
    name = f'{cls}.{method}'
    j = JUDGES.get(name)
    if j is None and cls in ('Vector', 'Point', 'Points'):
        name2 = f'Array.{method}'
        if name2 in JUDGES:
            return name, JUDGES[name2]
    return name, j


def step_call(step, env):
    """Prepare a step: (name, judge, receiver index or None, live function, arg JSON, kw)."""
    op = step[0]
    if op == 'new':
        cls = step[1]
        return f'{cls}.new', JUDGES[f'{cls}.new'], None, getattr(lib, cls), step[2], {}, {'_cls': cls}
    if op == 'cm':
        _, cls, m, args, kw = step
        name, j = lookup(None, cls, m)
        return name, j, None, getattr(getattr(lib, cls), m), args, kw, {'_method': m}
    if op == 'op':
        _, ref, m, args, kw = step
        recv = env[ref['$']]
        cls = type(recv).__name__
        name, j = lookup(None, cls, m)
        return name, j, ref['$'], getattr(recv, m), args, kw, {'_method': m}
    if op == 'fn':
        _, n, args, kw = step
        return n, JUDGES[n], None, lib.FUNCTIONS[n], args, kw, {}
    raise HarnessError(f'bad step {step!r}')


def run_program(prog, S, keep=None, env=None, ms=None):
    """
    Execute a program, judging every step.  Returns None or a violation message.

    With env and ms (live values and their models of the steps carried out before), the program continues from there.
    """
    if env is None:
        env, ms = [], []
    S.traces += 1
    for i, step in enumerate(prog, len(env)):
        op = step[0]
        if op in ('item', 'get', 'set', 'put'):
            msg = step_misc(step, env, ms, S)
            if msg is STOP:
                return None
            if msg:
                return f'step {i}: {msg}'
            continue
        if refs_missing(step, env):
            return None
        name, j, recv, f, jargs, jkw, extra = step_call(step, env)
        args = [build(x, env) for x in jargs]
        kw = {k: build(v, env) for k, v in jkw.items()} if jkw else {}
        am = [raw_model(x, ms, y) for x, y in zip(jargs, args)]
        rm = None
        if recv is not None:
            rm = ms[recv]
            if rm is None:
                rm = model(env[recv])
        S.transitions += 1
        o = call(f, args, kw)
        if j is not None:
            try:
                verdict = j(rm, am, {**kw, **extra} if extra else kw, o)
            except Exception:
                raise HarnessError(f'judge of {name} failed on {prog!r} ({o.show()})\n' + traceback.format_exc())
            if verdict is AMB:
                S.amb += 1
                S.outcome(name, 'ambiguous')
            elif verdict is not None:
                return f'step {i}: {name}{show_args(args, kw)} {o.show()}; {verdict}'
            else:
                S.outcome(name, outcome_kind(o))
        else:
            S.outcome(name, 'unjudged')
        if o.exc is not None:
            env.append(MISSING)
            ms.append(None)
        else:
            env.append(o.val)
            m = model(o.val) if isinstance(o.val, np.ndarray) or type(o.val).__name__ in lib.CLASSES else None
            ms.append(m)
            if m is not None and not isinstance(m, (int, float)):
                S.states.add(hash(m.key()) if hasattr(m, 'key') else hash(m))
    if keep is not None:
        keep.extend(env)
    return None


STOP = object()
MISSING = object()


def outcome_kind(o):
    if o.exc is not None:
        return type(o.exc).__name__
    v = o.val
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, str):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return f'int {v}' if abs(v) < 10 else 'int'
    return type(v).__name__


def refs_missing(x, env):
    if type(x) is dict:
        if '$' in x:
            return env[x['$']] is MISSING
        return any(refs_missing(v, env) for v in x.values() if type(v) in (list, dict))
    if type(x) is list:
        for v in x:
            if type(v) in (list, dict) and refs_missing(v, env):
                return True
    return False


def step_misc(step, env, ms, S):
    op, ref = step[0], step[1]['$']
    v = env[ref]
    if v is MISSING:
        return STOP
    if op == 'item':
        try:
            x = v[step[2]]
        except Exception as e:
            return f'item {step[2]} of {short(v)} raised {e!r}'
        env.append(x)
        ms.append(model(x) if isinstance(x, np.ndarray) or type(x).__name__ in lib.CLASSES else None)
        return None
    if op == 'get':
        try:
            x = getattr(v, step[2])
        except Exception as e:
            return f'attribute {step[2]} of {short(v)} raised {e!r}'
        env.append(x)
        ms.append(model(x) if isinstance(x, np.ndarray) else None)
        return None
    S.transitions += 1
    if op == 'set':
        new = build(step[3], env)
        try:
            setattr(v, step[2], new)
        except Exception as e:
            return f'assigning {step[2]} of {short(v)} raised {e!r}'
    else:
        target = v if step[2] is None else getattr(v, step[2])
        idx = step[3]
        try:
            target[tuple(idx) if isinstance(idx, list) else idx] = step[4]
        except Exception as e:
            return f'writing into {short(target)} raised {e!r}'
    # The owner changed this object (and everything that shares its arrays): models are taken again.
    for i, x in enumerate(env):
        if x is not MISSING and ms[i] is not None:
            ms[i] = model(x)
    env.append(MISSING)
    ms.append(None)
    return None


def show_args(args, kw):
    return '(' + ', '.join([short(a, 160) for a in args] + [f'{k}={short(v, 60)}' for k, v in kw.items()]) + ')'


# ---------------------------------------------------------------- transformation of programs


def xform(prog, scale=1, offset=None, rep=None, vscale=None):
    """
    Scale all lengths, translate all points and change the representation of all role-tagged leaves.

    rep may be a list, used cyclically over the leaves.
    """
    vs = scale if vscale is None else vscale
    count = [0]

    def leaf(role, v):
        if role == 'P':
            return tr(v)
        if role == 'S':
            return [tr(p) for p in v]
        if role in 'NI':
            return v
        if role == 'V':
            return [vs * x for x in v] if vs != 1 else v
        return scale * v if scale != 1 else v

    def tr(p):
        if scale != 1:
            p = [scale * x for x in p]
        if offset is not None:
            p = [x + y for x, y in zip(p, offset)]
        return p

    def go(x):
        t = type(x)
        if t is dict:
            if '$' in x:
                return x
            for role in ALL_ROLES:
                if role in x:
                    y = {role: leaf(role, x[role])}
                    if rep is not None:
                        y['rep'] = rep if isinstance(rep, str) else rep[count[0] % len(rep)]
                        count[0] += 1
                    elif 'rep' in x:
                        y['rep'] = x['rep']
                    return y
            return {k: go(v) for k, v in x.items()}
        if t is list:
            return [go(y) for y in x]
        return x

    return [go(s) for s in prog]


def to_python(prog):
    """Readable Python source of a program (for replay files)."""
    lines = ['import numpy as np', 'from skspatial.objects import *', 'from skspatial.measurement import *',
             'from skspatial.transformation import transform_coordinates', '']

    def a(x):
        if isinstance(x, dict):
            if '$' in x:
                return f'r{x["$"]}'
            if 'f' in x:
                return f'float({x["f"]!r})'
            if 't' in x:
                return '(' + ', '.join(a(y) for y in x['t']) + ',)'
            for role in ALL_ROLES + ('L',):
                if role in x:
                    s = repr(x[role])
                    return s + (f' # as {x["rep"]}' if False else '') if not x.get('rep') else f'mkrep({s}, {x["rep"]!r}, {role!r})'
            return repr(x)
        if isinstance(x, list):
            return '[' + ', '.join(a(y) for y in x) + ']'
        return repr(x)

    def sig(args, kw):
        return ', '.join([a(x) for x in args] + [f'{k}={a(v)}' for k, v in (kw or {}).items()])

    for i, s in enumerate(prog):
        if s[0] == 'new':
            e = f'{s[1]}({sig(s[2], {})})'
        elif s[0] == 'cm':
            e = f'{s[1]}.{s[2]}({sig(s[3], s[4])})'
        elif s[0] == 'op':
            e = f'{a(s[1])}.{s[2]}({sig(s[3], s[4])})'
        elif s[0] == 'fn':
            e = f'{s[1]}({sig(s[2], s[3])})'
        elif s[0] == 'item':
            e = f'{a(s[1])}[{s[2]}]'
        elif s[0] == 'get':
            e = f'{a(s[1])}.{s[2]}'
        elif s[0] == 'set':
            lines.append(f'{a(s[1])}.{s[2]} = {a(s[3])}')
            continue
        elif s[0] == 'put':
            t = a(s[1]) + (f'.{s[2]}' if s[2] else '')
            lines.append(f'{t}[{s[3]}] = {s[4]}')
            continue
        else:
            e = repr(s)
        lines.append(f'r{i} = {e}')
    return '\n'.join(lines)
