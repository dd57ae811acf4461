"""C08: arrays derived from points and vectors keep their type, values and dimension; copies and printing."""
import copy
import pickle
import re
import warnings

import numpy as np

from mc import lib, state
from mc.catalog import CAT
from mc.engine import Exploration
from mc.interp import mkrep, xform
from mc.state import describe, exact, exact_diff, fp, prepare, same

RULE = ('a case is the set of all derivation sequences that start with one array and one derivation (or one copy of one composite object '
        'used in one operation); it is non-trivial when at least one derived array was compared')

RANK = {'Point': 1, 'Vector': 1, 'Points': 2}

# ---------------------------------------------------------------- derivations

# Each derivation is (name, function applied to the array); the reference applies the same function to a plain array.
# Derivations marked 'm' are methods of the spatial arrays with a separate reference.


def _iadd(a):
    b = a.copy()
    b += 2
    return b


def _isub_t(a):
    b = a.astype(float)
    b -= 0.5
    return b


def _assign(a):
    b = a.copy()
    b[0] = 7
    return b


def _sorted(a):
    b = a.copy()
    b.sort(axis=0)
    return b


D = {
    # slices and views
    'a[:]': lambda a: a[:],
    'a[1:]': lambda a: a[1:],
    'a[:-1]': lambda a: a[:-1],
    'a[::-1]': lambda a: a[::-1],
    'a[::2]': lambda a: a[::2],
    'a[0]': lambda a: a[0],
    'a[-1:]': lambda a: a[-1:],
    'a[..., 0]': lambda a: a[..., 0],
    'a[..., 1:]': lambda a: a[..., 1:],
    'a[..., ::-1]': lambda a: a[..., ::-1],
    'a[[0, -1, 0]]': lambda a: a[[0, -1, 0]],
    'a[a != 0]': lambda a: a[a != 0],
    'a[None]': lambda a: a[None],
    'a[...]': lambda a: a[...],
    'a.T': lambda a: a.T,
    'a.reshape(-1)': lambda a: a.reshape(-1),
    'a.reshape(-1, 1)': lambda a: a.reshape(-1, 1),
    'a.take([0])': lambda a: a.take([0], axis=0),
    'np.roll': lambda a: np.roll(a, 1, axis=0),
    'np.sort': lambda a: np.sort(a, axis=0),
    # arithmetic
    '-a': lambda a: -a,
    'a + 1': lambda a: a + 1,
    '2 - a': lambda a: 2 - a,
    'a * 2.5': lambda a: a * 2.5,
    'a / 4': lambda a: a / 4,
    'a // 2': lambda a: a // 2,
    'a ** 2': lambda a: a ** 2,
    'a / 0': lambda a: a / 0,
    'a + a': lambda a: a + a,
    'a - a[::-1]': lambda a: a - a[::-1],
    'a * a[:1]': lambda a: a * a[:1],
    'a + list': lambda a: a + a.tolist(),
    'abs(a)': lambda a: abs(a),
    'np.sqrt(a)': lambda a: np.sqrt(a),
    'np.minimum(a, 1)': lambda a: np.minimum(a, 1),
    'np.where': lambda a: np.where(a > 0, a, 0),
    'np.clip': lambda a: np.clip(a, -1, 1),
    'np.cumsum': lambda a: np.cumsum(a, axis=0),
    'np.divmod': lambda a: np.divmod(a, 2)[1],
    'a == a[0]': lambda a: a == a[0],
    'a < 1': lambda a: a < 1,
    'copy, += 2': _iadd,
    'copy, -= 0.5': _isub_t,
    'copy, [0] = 7': _assign,
    'copy, sort': _sorted,
    # reductions
    'a.sum()': lambda a: a.sum(),
    'a.sum(0)': lambda a: a.sum(axis=0),
    'a.sum(-1)': lambda a: a.sum(axis=-1),
    'a.mean(0)': lambda a: a.mean(axis=0),
    'a.max()': lambda a: a.max(),
    'np.min(0)': lambda a: np.min(a, axis=0),
    'keepdims': lambda a: a.sum(axis=0, keepdims=True),
    'np.dot(a, a.T)': lambda a: np.dot(a, a.T),
    'a @ a[-1]': lambda a: a @ a[-1] if a.ndim > 1 else a @ a,
    'np.linalg.norm': lambda a: np.linalg.norm(a, axis=-1),
    # copies and conversions
    'a.copy()': lambda a: a.copy(),
    'copy.copy': copy.copy,
    'copy.deepcopy': copy.deepcopy,
    'pickle 0': lambda a: pickle.loads(pickle.dumps(a, 0)),
    'pickle 2': lambda a: pickle.loads(pickle.dumps(a, 2)),
    'pickle 4': lambda a: pickle.loads(pickle.dumps(a, 4)),
    'pickle 5': lambda a: pickle.loads(pickle.dumps(a, 5)),
    'pickle in list': lambda a: pickle.loads(pickle.dumps([a, a]))[1],
    'np.array(subok)': lambda a: np.array(a, subok=True),
    'a.astype(float)': lambda a: a.astype(float),
    'a.astype(int)': lambda a: a.astype(int),
    'np.asarray': lambda a: np.asarray(a),
    'np.append': lambda a: np.append(a, a, axis=0),
}

# Methods of the spatial arrays, and their reference on plain arrays.
M = {
    'round()': (lambda a: a.round(), lambda n: np.around(n)),
    'round(1)': (lambda a: a.round(1), lambda n: np.around(n, 1)),
    'round(decimals=2)': (lambda a: a.round(decimals=2), lambda n: np.around(n, 2)),
    'round(-1)': (lambda a: a.round(-1), lambda n: np.around(n, -1)),
    'to_array': (lambda a: a.to_array(), lambda n: np.array(n)),
    'set_dimension(+0)': (lambda a: a.set_dimension(a.shape[-1]), lambda n: n.copy()),
    'set_dimension(+1)': (lambda a: a.set_dimension(a.shape[-1] + 1), lambda n: pad(n, 1)),
    'set_dimension(+3)': (lambda a: a.set_dimension(dim=a.shape[-1] + 3), lambda n: pad(n, 3)),
    'set_dimension(-1)': (lambda a: a.set_dimension(a.shape[-1] - 1), None),
    'class(a)': (lambda a: type(a)(a), lambda n: n),
    'class(list)': (lambda a: type(a)(a.tolist()), lambda n: np.array(n.tolist())),
}

# Sequences in which the class of the result need not be kept: the caller asked for a plain array, or NumPy builds the
# result of several arrays itself.
PLAIN = {'np.asarray', 'np.where', 'to_array', 'np.append', 'np.roll', 'np.sort', 'np.divmod', 'np.linalg.norm', 'np.dot(a, a.T)', 'a @ a[-1]'}
COPIES = {'a.copy()', 'copy.copy', 'copy.deepcopy', 'pickle 0', 'pickle 2', 'pickle 4', 'pickle 5', 'pickle in list', 'np.array(subok)',
          'set_dimension(+0)', 'set_dimension(+1)', 'set_dimension(+3)'}
NAMES = list(D) + list(M)


def pad(n, k):
    out = np.zeros(n.shape[:-1] + (n.shape[-1] + k,), dtype=n.dtype)
    out[..., : n.shape[-1]] = n
    return out


def compact(s):
    return re.sub(r'\s', '', s)


def valid(cls, a):
    return isinstance(a, np.ndarray) and a.ndim == RANK[cls] and a.size > 0 and a.dtype.kind in 'iuf' and bool(np.isfinite(np.asarray(a)).all())


def ref(name, n):
    if name in D:
        return D[name](n)
    r = M[name][1]
    if r is None:
        raise ValueError
    return r(n)


def live(name, a):
    return D[name](a) if name in D else M[name][0](a)


def attempt(f, *args):
    try:
        return f(*args), None
    except Exception as e:
        return None, e


def check_step(cls, name, a, n):
    """Apply one derivation to the spatial array a and the plain array n.  Returns (message, result, reference)."""
    before = exact(a)
    r, e = attempt(live, name, a)
    x, ex = attempt(ref, name, n)
    if exact(a) != before:
        return f'{name} changed {exact_diff(before, exact(a), "its operand")}', None, None
    if ex is not None:
        if e is None:
            return f'{name} returned {r!r}, but {type(ex).__name__} is expected', None, None
        if name == 'set_dimension(-1)' and not isinstance(e, ValueError):
            return f'{name} raised {e!r} instead of ValueError', None, None
        return None, None, None
    if e is not None:
        return f'{name} raised {e!r}', None, None
    # values
    rv, xv = np.asarray(r), np.asarray(x)
    if rv.shape != xv.shape or rv.dtype != xv.dtype or not np.array_equal(rv, xv, equal_nan=xv.dtype.kind == 'f'):
        return f'{name} gave {r!r}, but NumPy gives {x!r}', None, None
    if not isinstance(r, np.ndarray):
        return None, None, None
    # class and dimension
    if name == 'to_array':
        if type(r) is not np.ndarray:
            return f'to_array returned a {type(r).__name__}', None, None
        return (f'{name} shares the memory of the original' if np.shares_memory(r, a) else None), None, None
    if valid(cls, r) and name not in PLAIN and type(r) is not (lib_cls := getattr(lib, cls)):
        return f'{name} gave a {type(r).__name__} of shape {r.shape} instead of a {lib_cls.__name__}', None, None
    tn = type(r).__name__
    if tn in RANK:
        if valid(tn, r):
            if r.dimension != r.shape[-1]:
                return f'{name}: dimension of {r!r} is {r.dimension}', None, None
            if compact(repr(r)) != compact(repr(np.asarray(r))).replace('array(', tn + '(', 1):
                return f'{name}: printed as {r!r}', None, None
            if compact(str(r)) != compact(str(np.asarray(r))) and compact(str(r)) != compact(repr(r)):
                return f'{name}: str() is {r}', None, None
        if name in COPIES and np.shares_memory(r, a):
            return f'{name} shares the memory of the original', None, None
    return None, r, x


INIT1 = [[3], [0], [1, 2], [-3, 4], [1, 2, 3], [0, 0, 0], [-1, 0.5, 2], [4, -4, 2, 0], [1, 2, 3, 4, 5, 6], [0.25, -1.75], [2**53 + 1, 1]]
INIT2 = [[[3]], [[1, 2]], [[1], [2]], [[1, 2], [3, 4]], [[0, 0], [0, 0]], [[1, 2, 3], [4, -5, 6]], [[1, 2], [3, 4], [-5, 6]], [[1.5, 2, 3], [0, 1, 0], [4, 4, -4]], [[1, 2, 3, 4], [0, 0, 0, 1]]]
KINDS = ['list', 'float64', 'strided', 'readonly', 'float32', 'int8', 'uint16']
CLASSES = ['Point', 'Vector', 'Points']


def run_chain(case, S):
    cls, v, kind, first, depth = case
    a0 = getattr(lib, cls)(mkrep(v, kind, 'P'))
    n0 = np.asarray(mkrep(v, kind, 'P'))
    S.traces += 1
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        level = [((), a0, n0)]
        seen = set()
        for d in range(depth):
            nxt = []
            for path, a, n in level:
                for name in [first] if d == 0 else NAMES:
                    if name in M and not valid(cls, a):
                        continue
                    S.transitions += 1
                    msg, r, x = check_step(cls, name, a, n)
                    if msg:
                        return f'{cls}({v}) as {kind}: ' + ', then '.join(path + (msg,))
                    if r is None or not isinstance(r, getattr(lib, cls)):
                        continue
                    key = (r.dtype.str, r.shape, r.flags.c_contiguous, r.flags.writeable, np.ascontiguousarray(np.asarray(r)).tobytes())
                    if key in seen:
                        continue
                    seen.add(key)
                    S.states.add(hash((cls,) + key))
                    nxt.append((path + (name,), r, x))
            level = nxt
    S.outcome(first, 'ok')
    return None


def gen_chain(tier):
    depth = 2 if tier == 'quick' else 3

    def g():
        for cls in CLASSES:
            for v in INIT2 if cls == 'Points' else INIT1:
                for kind in KINDS:
                    for first in NAMES:
                        yield [cls, v, kind, first, depth]
    return g


# ---------------------------------------------------------------- binary operations between classes

BIN = {
    'a + b': lambda a, b: a + b, 'a - b': lambda a, b: a - b, 'a * b': lambda a, b: a * b, 'a / b': lambda a, b: a / b,
    'np.add': lambda a, b: np.add(a, b), 'np.maximum': lambda a, b: np.maximum(a, b), 'np.subtract': lambda a, b: np.subtract(a, b),
    'a @ b': lambda a, b: a @ b, 'np.dot': lambda a, b: np.dot(a, b), 'np.outer': lambda a, b: np.outer(a, b), 'a == b': lambda a, b: a == b,
    'np.cross': lambda a, b: np.cross(a, b), 'np.hypot': lambda a, b: np.hypot(a, b),
}


def run_binary(case, S):
    c1, v1, c2, v2, name = case
    S.traces += 1
    S.transitions += 1

    def mk(c, v):
        return v if c == 'list' else np.array(v) if c == 'ndarray' else getattr(lib, c)(v)
    a, b = mk(c1, v1), mk(c2, v2)
    before = exact(a), exact(b)
    f = BIN[name]
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r, e = attempt(f, a, b)
        x, ex = attempt(f, np.array(v1), np.array(v2))
    if (exact(a), exact(b)) != before:
        return f'{c1}({v1}) and {c2}({v2}): {name} changed its operands'
    if (e is None) != (ex is None):
        return f'{c1}({v1}) and {c2}({v2}): {name} gave {r!r} {e!r}, but NumPy gives {x!r} {ex!r}'
    if e is not None:
        return None
    rv, xv = np.asarray(r), np.asarray(x)
    if rv.shape != xv.shape or not np.array_equal(rv, xv, equal_nan=xv.dtype.kind == 'f'):
        return f'{c1}({v1}) and {c2}({v2}): {name} gave {r!r}, but NumPy gives {x!r}'
    kinds = {c for c in (c1, c2) if c in RANK}
    tn = type(r).__name__
    S.state((c1, c2, name, tn, rv.shape))
    S.outcome(name, tn)
    if tn in RANK:
        if tn not in kinds:
            return f'{c1}({v1}) and {c2}({v2}): {name} gave a {tn}'
        if valid(tn, r) and r.dimension != r.shape[-1]:
            return f'{c1}({v1}) and {c2}({v2}): dimension of {r!r} is {r.dimension}'
    elif kinds and name not in ('a @ b', 'np.dot', 'np.outer', 'np.cross') and len({RANK[c] for c in kinds}) == 1 and all(valid(c, rv) for c in kinds):
        return f'{c1}({v1}) and {c2}({v2}): {name} gave a {tn}'
    return None


def gen_binary(tier):
    vals = [[3], [1, 2], [1, 2, 3], [0.5, 0, -1], [4, -4, 2, 0], [[1, 2]], [[1, 2], [3, 4]], [[1, 2, 3], [4, -5, 6]], [[1.5, 2, 3], [0, 1, 0], [4, 4, -4]]]

    def g():
        for c1 in CLASSES + ['list', 'ndarray']:
            for v1 in vals:
                if c1 in RANK and RANK[c1] != np.ndim(v1):
                    continue
                for c2 in CLASSES + ['list', 'ndarray']:
                    if c1 in ('list', 'ndarray') and c2 in ('list', 'ndarray'):
                        continue
                    for v2 in vals:
                        if c2 in RANK and RANK[c2] != np.ndim(v2):
                            continue
                        for name in BIN:
                            yield [c1, v1, c2, v2, name]
    return g


# ---------------------------------------------------------------- composite objects

COPY = {
    'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy,
    **{f'pickle {k}': (lambda k: lambda o: pickle.loads(pickle.dumps(o, k)))(k) for k in range(6)},
    'pickle twice': lambda o: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o)))),
    'deepcopy of pickle': lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o))),
    'copy of deepcopy': lambda o: copy.copy(copy.deepcopy(o)),
    'pickle in dict': lambda o: pickle.loads(pickle.dumps({'k': [o, o]}))['k'][1],
}


def values(o):
    """The values of an object, without memory layout."""
    return fp(o)


def numbers(text):
    return [float(t) for t in re.findall(r'-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)]


def run_composite(case, S):
    """A call on copied objects gives what it gives on the originals; the copies print and compare like the originals."""
    i, name, rep = case
    prog = CAT[i][1] if rep is None else xform(CAT[i][1], rep=rep)
    try:
        call, env, args, kw = prepare(prog)
    except Exception:
        return None
    S.traces += 1
    cp = COPY[name]
    objs = []
    for o in env:
        x = fp(o)
        ex = exact(o)
        c = cp(o)
        S.transitions += 1
        if type(c) is not type(o) or c is o:
            return f'{describe(prog)}: {name} of {o!r} gave {type(c).__name__}'
        d = same(fp(c), x, rel=0, abs_=0)
        if d:
            return f'{describe(prog)}: {name} of {o!r} has {d}'
        if exact(o) != ex:
            return f'{describe(prog)}: {name} changed {exact_diff(ex, exact(o), "the original")}'
        if repr(c) != repr(o):
            return f'{describe(prog)}: {name} of {o!r} is printed as {c!r}'
        objs.append(c)
    ra = call()
    # the same call with every object replaced by its copy
    step = prog[-1]
    if step[0] == 'op':
        back = {id(o): c for o, c in zip(env, objs)}
        args2 = [back.get(id(a), a) for a in args]
        try:
            rb = getattr(objs[step[1]['$']], step[2])(*args2, **kw)
        except Exception as e:
            rb = e
        S.transitions += 1
        d = same(fp(rb), fp(ra), strict=False)
        if d:
            return f'{describe(prog)}: after {name} of the objects gives {d}'
    # the copies and the originals are independent (deep copies)
    if name != 'copy.copy':
        for o, c in zip(env, objs):
            for k, x in (vars(o).items() if not isinstance(o, np.ndarray) else [('', o)]):
                y = getattr(c, k) if k else c
                if isinstance(x, np.ndarray) and np.shares_memory(x, y):
                    return f'{describe(prog)}: {name} of {o!r} shares {k}'
    S.state((i, name, repr(fp(ra))))
    return None


def gen_composite(tier):
    def g():
        for i in range(len(CAT)):
            for name in COPY:
                for rep in (None, 'spatialfloat') if tier == 'quick' else (None, 'spatialfloat', 'strided', 'readonly', 'int64'):
                    yield [i, name, rep]
    return g


def run_repr(case, S):
    """Printing names the class and every defining coordinate."""
    i, rep, scale = case
    prog = CAT[i][1]
    if scale is not None:
        prog = xform(prog, scale=scale)
    if rep is not None:
        prog = xform(prog, rep=rep)
    try:
        call, env, args, kw = prepare(prog)
    except Exception:
        return None
    S.traces += 1
    r = call()
    objs = list(env) + [x for x in (list(r) if isinstance(r, (tuple, list)) else [r])]
    for o in objs:
        n = type(o).__name__
        if n not in lib.CLASSES:
            continue
        if isinstance(o, np.ndarray) and not valid(n, o):
            continue
        S.transitions += 1
        text = repr(o)
        if not text.startswith(n + '('):
            return f'{describe(prog)}: {fp(o)} is printed as {text}'
        if isinstance(o, np.ndarray):
            if o.size > np.get_printoptions()['threshold']:
                continue  # NumPy abbreviates
            want = np.asarray(o).ravel().tolist()
        else:
            want = []
            for k in state.FIELDS[n]:
                if k == 'vector' and n in ('Line', 'Plane'):
                    continue  # another name of the direction or normal
                x = getattr(o, k)
                want += np.asarray(x).ravel().tolist()
        got = numbers(text[len(n):])
        if len(got) < len(want):
            return f'{describe(prog)}: {text} does not show all of {want}'
        # every defining number appears, in order, at the printed precision (8 significant digits)
        biggest = max([abs(w) for w in want] + [1])
        j = 0
        for w in want:
            while j < len(got) and abs(got[j] - w) > 1e-6 * max(abs(w), 1e-2 * biggest):
                j += 1
            if j == len(got):
                return f'{describe(prog)}: {text} does not show {w} of {want}'
            j += 1
        if str(o) != text and not isinstance(o, np.ndarray):
            return f'{describe(prog)}: str() gives {o!s}, repr() gives {text}'
        S.state(text)
    return None


def gen_repr(tier):
    def g():
        for i in range(len(CAT)):
            for rep in (None, 'float64', 'spatial', 'strided'):
                for s in (None, 0.5, -3) if tier == 'quick' else (None, 0.5, -3, 1000, 2.0 ** -10, 0.1):
                    yield [i, rep, s]
        seen = set()
        for i, (n, p) in enumerate(CAT):  # numbers with many digits, large and small ones: every object of the catalogue once
            key = repr(p[:-1])
            if key in seen:
                continue
            seen.add(key)
            for rep in (None, 'float64'):
                for s in (1234567, 1.2345678, 0.1 + 0.2, 98765.4321, 1e-7 / 3, 2.0 ** 70, 1.7e-30, 1e16 / 3, -123456.78, 1e22, 12345678901):
                    yield [i, rep, s]
    return g


def EXPLORE(tier):
    depth = 2 if tier == 'quick' else 3
    return [
        Exploration('derivations', gen_chain(tier), run=run_chain, bounds=f'all sequences of up to {depth} of {len(NAMES)} derivations from {2 * len(INIT1) + len(INIT2)} arrays in 4 memory layouts, merging equal arrays'),
        Exploration('binary', gen_binary(tier), run=run_binary, bounds=f'all pairs of 5 operand kinds and 9 values under {len(BIN)} binary operations'),
        Exploration('composite', gen_composite(tier), run=run_composite, bounds=f'{len(CAT)} catalogue calls x {len(COPY)} ways of copying all objects involved'),
        Exploration('printing', gen_repr(tier), run=run_repr, bounds='all objects of the catalogue and all results, in 4 representations and several scales'),
    ]
