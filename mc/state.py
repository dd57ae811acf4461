"""Fingerprints of values and of global state, prepared calls, and execution in pristine child processes."""
from __future__ import annotations

import decimal
import gc
import json
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import traceback
import warnings

import numpy as np

from . import lib
from .interp import MISSING, build, refs_missing
from .model import FIELDS

REL = 1e-9
ABS = 1e-12


# ---------------------------------------------------------------- fingerprints


def fp(x, depth=0):
    """A comparable, picklable description of a value (result of a call)."""
    if isinstance(x, BaseException):
        return ('exc', type(x).__name__, str(x))
    if isinstance(x, np.ndarray):
        return ('arr', type(x).__name__, x.dtype.kind, x.shape, tuple(np.asarray(x).ravel().tolist()))
    if isinstance(x, np.generic):
        return ('num', 'f' if isinstance(x, np.floating) else x.dtype.kind, x.item())
    if isinstance(x, bool):
        return ('num', 'b', x)
    if isinstance(x, (int, float)):
        return ('num', 'f' if isinstance(x, float) else 'i', x)
    if x is None or isinstance(x, str):
        return ('lit', x)
    if isinstance(x, (tuple, list)):
        return ('seq', type(x).__name__, tuple(fp(y, depth + 1) for y in x))
    name = type(x).__name__
    if name in FIELDS:
        return ('obj', name, tuple((k, fp(getattr(x, k), depth + 1)) for k in FIELDS[name] + ('dimension',)))
    return ('other', name)


def biggest(a):
    if a[0] == 'arr':
        return max([abs(v) for v in a[4] if isinstance(v, (int, float))] or [0])
    if a[0] == 'num':
        return abs(a[2]) if isinstance(a[2], (int, float)) else 0
    if a[0] == 'seq':
        return max([biggest(y) for y in a[2]] or [0])
    if a[0] == 'obj':
        return max(biggest(v) for _, v in a[2])
    return 0


def same(a, b, rel=REL, abs_=ABS, strict=True):
    """None when two fingerprints agree, otherwise a description of the difference."""
    sc = max(biggest(a), biggest(b))
    if isinstance(sc, float) and sc != sc:
        sc = 0
    return _same(a, b, rel * sc + abs_, strict)


def _num(x, y, tol):
    if x == y or (x != x and y != y):
        return True
    try:
        return abs(x - y) <= tol
    except TypeError:
        return False


def _same(a, b, tol, strict):
    if a[0] != b[0]:
        return f'{show(a)} instead of {show(b)}'
    k = a[0]
    if k == 'exc':
        return None if a[1] == b[1] and (not strict or a[2] == b[2]) else f'{show(a)} instead of {show(b)}'
    if k == 'arr':
        if a[1] != b[1] or a[3] != b[3] or (strict and a[2] != b[2]):
            return f'{show(a)} instead of {show(b)}'
        if not all(_num(x, y, tol) for x, y in zip(a[4], b[4])):
            return f'{show(a)} instead of {show(b)}'
        return None
    if k == 'num':
        if strict and a[1] != b[1] or (a[1] == 'b') != (b[1] == 'b') or not _num(a[2], b[2], tol):
            return f'{show(a)} instead of {show(b)}'
        return None
    if k == 'seq':
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return f'{show(a)} instead of {show(b)}'
        for x, y in zip(a[2], b[2]):
            m = _same(x, y, tol, strict)
            if m:
                return m
        return None
    if k == 'obj':
        if a[1] != b[1]:
            return f'{show(a)} instead of {show(b)}'
        for (n1, x), (n2, y) in zip(a[2], b[2]):
            m = _same(x, y, tol, strict)
            if m:
                return f'{n1}: {m}'
        return None
    return None if a == b else f'{show(a)} instead of {show(b)}'


def show(a):
    k = a[0]
    if k == 'exc':
        return f'{a[1]}({a[2]!r})'
    if k == 'arr':
        return f'{a[1]}[{a[2]}]{a[3]}{str(a[4])[:200]}'
    if k == 'num':
        return repr(a[2])
    if k == 'seq':
        return a[1] + '(' + ', '.join(show(x) for x in a[2])[:300] + ')'
    if k == 'obj':
        return a[1] + '(' + ', '.join(f'{n}={show(v)}' for n, v in a[2])[:300] + ')'
    return str(a[1:])


# ---------------------------------------------------------------- exact state of inputs


def exact(x, seen=None):
    """The exact state of an input: bytes, type, dtype, shape, flags; public attributes of composites."""
    seen = seen if seen is not None else set()
    if isinstance(x, np.ndarray):
        return ('arr', type(x).__name__, x.dtype.str, x.shape, x.strides, x.flags.writeable, np.ascontiguousarray(np.asarray(x)).tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(exact(y) for y in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, exact(v)) for k, v in x.items()))
    name = type(x).__name__
    if name in FIELDS and type(x).__module__.startswith('skspatial'):
        keys = list(FIELDS[name]) + ['dimension']
        keys += [k for k in vars(x) if not k.startswith('_') and k not in keys]
        return ('obj', name, tuple((k, exact(getattr(x, k))) for k in keys))
    return (type(x).__name__, repr(x))


def exact_diff(a, b, path=''):
    if a == b:
        return None
    if a[0] != b[0]:
        return f'{path}: type {a[0]} became {b[0]}'
    if a[0] == 'arr':
        for i, n in ((1, 'type'), (2, 'data type'), (3, 'shape'), (4, 'strides'), (5, 'writeability')):
            if a[i] != b[i]:
                return f'{path}: {n} {a[i]} became {b[i]}'
        x = np.frombuffer(a[6], dtype=a[2])
        y = np.frombuffer(b[6], dtype=b[2])
        return f'{path}: values {x.tolist()[:30]} became {y.tolist()[:30]}'
    if a[0] == 'obj':
        da, db = dict(a[2]), dict(b[2])
        for k in da:
            if k not in db:
                return f'{path}.{k} disappeared'
            m = exact_diff(da[k], db[k], f'{path}.{k}')
            if m:
                return m
        return None  # new public attributes (lazily computed ones) are not changes of the given values
    if isinstance(a[1], tuple) and isinstance(b[1], tuple):
        if len(a[1]) != len(b[1]):
            return f'{path}: length {len(a[1])} became {len(b[1])}'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                if isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str):
                    return exact_diff(x, y, f'{path}[{i}]')
                return f'{path}[{i}]: {x} became {y}'
    return f'{path}: {a[1]} became {b[1]}'


def global_state():
    return {
        'numpy error state': tuple(sorted(np.geterr().items())),
        'numpy error callback': repr(np.geterrcall()),
        'print options': repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        'numpy random state': pickle.dumps(np.random.get_state()),
        'random state': hash(random.getstate()),
        'warning filters': repr([f for f in warnings.filters]),
        'garbage collector': gc.isenabled(),
        'working directory': os.getcwd(),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'numpy buffer size': np.getbufsize(),
        'decimal context': repr(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL),
        'environment': dict(os.environ),
        'import path': list(sys.path),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)],
        'hooks': (sys.excepthook, sys.displayhook, threading.excepthook, sys.stdout, sys.stderr, warnings.showwarning),
        'logging': (logging.root.level, logging.root.manager.disable, list(logging.root.handlers)),
    }


def settings():
    """The settings of the process that calls in any thread see (cheap)."""
    return {
        'numpy error state': tuple(sorted(np.geterr().items())),
        'print options': repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        'warning filters': list(warnings.filters),
        'garbage collector': gc.isenabled(),
        'recursion limit': sys.getrecursionlimit(),
        'working directory': os.getcwd(),
        'hooks': (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr, warnings.showwarning),
    }


def global_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            return f'the {k} changed' + (f' from {a[k]} to {b[k]}' if len(str(b[k])) < 300 else '')
    return None


# ---------------------------------------------------------------- prepared calls


class SetupRaised(Exception):
    pass


class Pool:
    """Live objects and live leaves, shared between the programs that describe the same ones."""

    def __init__(self):
        self.objs = {}

    def get(self, step, env, rep):
        key = json.dumps(step) + repr([id(v) for v in env.values()] if isinstance(env, dict) else '')
        if key not in self.objs:
            self.objs[key] = getattr(lib, step[1])(*[build(x, []) for x in step[2]])
        return self.objs[key]

    def leaf(self, x):
        key = 'leaf' + json.dumps(x)
        if key not in self.objs:
            self.objs[key] = build(x, [])
        return self.objs[key]


def prepare(prog, pool=None):
    """
    Carry out the setup of a catalogue program; returns (call, env, args, kw) for its last step.

    `call()` performs the operation; `args` are its live arguments.
    """
    env = []
    for step in prog[:-1]:
        if step[0] != 'new':
            raise SetupRaised(f'setup step {step!r}')
        if pool is not None:
            env.append(pool.get(step, None, None))
        else:
            env.append(getattr(lib, step[1])(*[build(x, env) for x in step[2]]))
    step = prog[-1]
    b = (lambda x: env[x['$']] if isinstance(x, dict) and '$' in x else pool.leaf(x) if isinstance(x, dict) else build(x, env)) if pool is not None else (lambda x: build(x, env))
    if step[0] == 'new':
        f, jargs, jkw = getattr(lib, step[1]), step[2], {}
    elif step[0] == 'cm':
        f, jargs, jkw = getattr(getattr(lib, step[1]), step[2]), step[3], step[4]
    elif step[0] == 'op':
        f, jargs, jkw = None, step[3], step[4]
    else:
        f, jargs, jkw = lib.FUNCTIONS[step[1]], step[2], step[3]
    args = [b(x) for x in jargs]
    kw = {k: b(v) for k, v in jkw.items()}
    if step[0] == 'op':
        recv, name = env[step[1]['$']], step[2]

        def call():
            try:
                return getattr(recv, name)(*args, **kw)
            except Exception as e:
                return e
    else:
        def call():
            try:
                return f(*args, **kw)
            except Exception as e:
                return e
    return call, env, args, kw


def describe(prog):
    from .interp import to_python
    return '; '.join(to_python(prog).split('\n')[5:])


# ---------------------------------------------------------------- pristine processes


def in_child(f, *args, timeout=60):
    """Run f(*args) in a forked child and return its (picklable) result; the parent's library state stays pristine."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout))
            try:
                out = ('ok', f(*args))
            except BaseException:
                out = ('err', traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ('died', f'the process ended with status {status} (signal {status & 127})')
    return pickle.loads(data)


def fresh(prog):
    """Fingerprint of a call, without any history."""
    call, *_ = prepare(prog)
    return fp(call())
