"""Exact models of live library objects, and comparison of outcomes."""
from __future__ import annotations

import math

import numpy as np

from .exact import num

AMB = 'AMB'  # verdict: decided by rounding only, not judged


class Arr:
    """Exact content of a 1D or 2D array-like."""

    __slots__ = ('kind', 'v', 'ndim')

    def __init__(self, kind, v, ndim):
        self.kind = kind
        self.v = v
        self.ndim = ndim

    def key(self):
        return (self.kind, self.v)


class Geo:
    """Exact content of a composite object."""

    __slots__ = ('kind', 'f')

    def __init__(self, kind, f):
        self.kind = kind
        self.f = f

    def __getattr__(self, name):
        try:
            return self.f[name]
        except KeyError:
            raise AttributeError(name)

    def key(self):
        return (self.kind, tuple(sorted((k, v.v if isinstance(v, Arr) else v) for k, v in self.f.items())))


class Bad:
    """A value without an exact model (non-finite, non-numeric)."""

    __slots__ = ('kind', 'v')

    def __init__(self, v):
        self.kind = 'bad'
        self.v = v

    def key(self):
        return ('bad', self.v)


FIELDS = {
    'Line': ('point', 'direction', 'vector'),
    'Plane': ('point', 'normal', 'vector'),
    'LineSegment': ('point_a', 'point_b'),
    'Circle': ('point', 'radius'),
    'Sphere': ('point', 'radius'),
    'Triangle': ('point_a', 'point_b', 'point_c'),
    'Cylinder': ('point', 'vector', 'radius'),
}


def exact_nested(x):
    if isinstance(x, (list, tuple)):
        return tuple(exact_nested(y) for y in x)
    return num(x)


def arr_model(a, kind=None):
    try:
        if a.ndim == 1:
            return Arr(kind or type(a).__name__, tuple(num(x) for x in a.tolist()), 1)
        return Arr(kind or type(a).__name__, exact_nested(a.tolist()), a.ndim)
    except (ValueError, OverflowError, TypeError, AttributeError):
        return Bad(repr(a))


def model(x):
    """Exact model of a live value (object, array-like or scalar)."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return num(x)
        return arr_model(x)
    name = type(x).__name__
    if name in FIELDS and type(x).__module__.startswith('skspatial'):
        f = {}
        for k in FIELDS[name]:
            f[k] = model(getattr(x, k))
        f['dimension'] = getattr(x, 'dimension', None)
        return Geo(name, f)
    if isinstance(x, (list, tuple)):
        try:
            if len(x) and all(not isinstance(y, (list, tuple, np.ndarray)) for y in x):
                return Arr(name, tuple(num(y) for y in x), 1)
            return arr_model(np.array(x), name)
        except (ValueError, OverflowError, TypeError):
            return Bad(repr(x))
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        try:
            return num(x)
        except (ValueError, OverflowError):
            return Bad(repr(x))
    return x


class Outcome:
    __slots__ = ('exc', 'val')

    def __init__(self, exc, val):
        self.exc = exc
        self.val = val

    def show(self):
        if self.exc is not None:
            return f'raised {type(self.exc).__name__}: {str(self.exc)[:160]}'
        return f'returned {short(self.val)}'


def short(v, n=300):
    try:
        s = repr(v)
    except Exception as e:  # a repr that fails is worth seeing in a report
        s = f'<repr failed: {e!r}>'
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- comparison helpers
# All return None when satisfied, AMB, or a message.


def raises(o, *types):
    types = types or (ValueError,)
    if o.exc is None:
        return f'expected {types[0].__name__}'
    if not isinstance(o.exc, types):
        return f'expected {types[0].__name__}, not {type(o.exc).__name__}'
    return None


def okay(o):
    return None if o.exc is None else 'unexpected exception'


def fl(x):
    """Float of an exact number (infinite when out of range)."""
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def is_num(v):
    return isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_))


def w_float(o, e, tol):
    if o.exc is not None:
        return 'unexpected exception'
    v = o.val
    if not is_num(v):
        return f'expected a number close to {fl(e)!r}'
    if not abs(float(v) - fl(e)) <= tol:
        return f'expected {fl(e)!r} (tolerance {tol:.3g})'
    return None


def w_bool(o, e):
    if o.exc is not None:
        return 'unexpected exception'
    if not isinstance(o.val, (bool, np.bool_)):
        return f'expected a truth value {e}'
    if bool(o.val) != e:
        return f'expected {e}'
    return None


def w_int(o, e):
    if o.exc is not None:
        return 'unexpected exception'
    if not is_num(o.val) or o.val != e:
        return f'expected {e}'
    return None


def v_array(v, e, tol, cls=None):
    """Compare an array-like value with nested exact numbers."""
    if not isinstance(v, np.ndarray):
        return f'expected an array, got {type(v).__name__}'
    if cls is not None and type(v).__name__ != cls:
        return f'expected a {cls}, got {type(v).__name__}'
    l = v.tolist()
    return cmp_nested(l, e, tol)


def cmp_nested(l, e, tol):
    if isinstance(e, (tuple, list)):
        if not isinstance(l, list) or len(l) != len(e):
            return f'wrong shape, expected {show_exact(e)}'
        for x, y in zip(l, e):
            m = cmp_nested(x, y, tol)
            if m is not None:
                return m if m.startswith('wrong') else f'expected {show_exact(e)} (tolerance {tol:.3g})'
        return None
    if isinstance(l, (list, str)) or l is None:
        return 'wrong shape'
    if not abs(l - fl(e)) <= tol:
        return f'expected {fl(e)!r}'
    return None


def show_exact(e):
    if isinstance(e, (tuple, list)):
        s = '[' + ', '.join(show_exact(x) for x in e[:12]) + (', ...' if len(e) > 12 else '') + ']'
        return s
    return repr(fl(e)) if not isinstance(e, int) else repr(e)


def w_array(o, e, tol, cls=None):
    if o.exc is not None:
        return 'unexpected exception'
    return v_array(o.val, e, tol, cls)


def w_pair(o, e1, e2, tol, cls='Point'):
    """An unordered pair of points."""
    if o.exc is not None:
        return 'unexpected exception'
    v = o.val
    if not isinstance(v, tuple) or len(v) != 2:
        return 'expected a pair of points'
    a, b = v
    for p in (a, b):
        if type(p).__name__ != cls:
            return f'expected a pair of {cls}'
    if v_array(a, e1, tol) is None and v_array(b, e2, tol) is None:
        return None
    if v_array(a, e2, tol) is None and v_array(b, e1, tol) is None:
        return None
    return f'expected {show_exact(e1)} and {show_exact(e2)} in any order (tolerance {tol:.3g})'
