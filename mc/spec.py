"""
Reference model of the public operations.

``JUDGES[name](r, a, k, o)`` gets the exact model of the receiver, the exact models of the arguments, the keyword
arguments and the outcome of the real call.  It returns None (correct), AMB (the inputs are so close to a decision
boundary that rounding decides: not judged) or a message (violation).

The model is relational: it states what the result must satisfy, up to a tolerance relative to the size and the
conditioning of the problem, and never how the library computes it.
"""
from __future__ import annotations

import math
import numbers

import numpy as np

from .exact import (add, affine_rank, cross, det2, div, dot, fnorm, fsqrt, grid, is0, mul, mx, n2, num, pad3, parallel, perp2,
                    rank, solve, sub)
from .model import (AMB, Arr, Bad, Geo, fl, is_num, model, okay, raises, v_array, w_array, w_bool, w_float, w_int, w_pair)

RT = 1e-11  # relative tolerance of well-conditioned arithmetic
CT = 2e-14  # rounding of coordinates, relative to the largest of them
JUDGES = {}


def loc(p, *rows):
    """Error allowed to what depends on the offsets from p only (exact up to rounding), expressed in coordinates."""
    L = 0.0
    for q in rows:
        L = max(L, mx(sub(q, p)))
    return 4 * RT * L + CT * mx(p, *rows)


def judge(*names):
    def deco(f):
        for n in names:
            JUDGES[n] = f
        return f
    return deco


def vec(m):
    """Coordinates of a vector-like model."""
    if isinstance(m, Arr) and m.ndim == 1:
        return m.v
    return None


def pts(m):
    """Rows of a point-set-like model."""
    if isinstance(m, Arr) and m.ndim == 2 and m.v and m.v[0] != ():
        return m.v
    return None


def kwn(k, name, default=None):
    v = k.get(name, default)
    return v


def tols(k):
    return k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)


def mism(u, v):
    """Verdict function for arrays of different length: None if equal."""
    return len(u) != len(v)


def bad_dims(u, v, o):
    return raises(o)


def exact2(*arrays):
    """Degree-two expressions of these numbers are exact in double precision."""
    return sum(sorted((grid(a) for a in arrays), reverse=True)[:2]) + (0 if len(arrays) > 1 else grid(arrays[0])) <= 46


def nice(*arrays, bits=14):
    """Small exactly representable numbers on a common grid: rank decisions in floats are reliable."""
    return grid(*arrays) <= bits


def dec_zero(x, err, abs_tol):
    """Is |x| <= abs_tol, when the computed value has an absolute error of err?"""
    ax = fl(abs(x))
    if abs_tol > 0:
        err = max(err, 1e-12 * abs_tol) if x != 0 else err
        if ax + err <= abs_tol:
            return True
        if ax - err > abs_tol:
            return False
        return AMB
    if err == 0:
        return x == 0
    if ax > err:
        return False
    return AMB


def dec_vzero(u, k):
    """Zero test of a vector: its squared length against the absolute tolerance."""
    _, abs_tol = tols(k)
    q = n2(u)
    if abs_tol == 0 and q != 0 and fl(q) < 1e-290:
        return AMB  # the square underflows
    if abs_tol == 0:
        return q == 0
    return dec_zero(q, 1e-13 * fl(q), abs_tol)


def dec_perp(u, v, k):
    _, abs_tol = tols(k)
    d = dot(u, v)
    if abs_tol == 0 and d != 0 and abs(fl(d)) < 1e-290:
        return AMB
    err = 0.0 if exact2(u, v) else 1e-14 * len(u) * fnorm(u) * fnorm(v)
    return dec_zero(d, err, abs_tol)


def gap_parallel(u, v):
    """1 - |cos| of two non-zero vectors."""
    s2 = fl(div(perp2(u, v), n2(u) * n2(v)))
    return s2 / (1 + math.sqrt(max(0.0, 1 - s2)))


def sin_between(u, v):
    return math.sqrt(fl(div(perp2(u, v), n2(u) * n2(v))))


def dec_parallel(u, v, k=None):
    k = k or {}
    rel, abs_tol = tols(k)
    for w in (u, v):
        z = dec_vzero(w, k)
        if z is AMB:
            return AMB
        if z:
            return True
    g = gap_parallel(u, v)
    tol = max(rel, abs_tol)
    noise = 1e-15 * (4 + len(u))
    if g <= tol - noise:
        return True
    if g > tol + noise:
        return False
    return AMB


def dec_rank_small(rows, k, limit):
    """
    Is the affine rank of the points at most `limit`?  Decided exactly when the numbers allow it.
    """
    tol = k.get('tol')
    rows = [tuple(r) for r in rows]
    uniq = sorted(set(rows))
    if tol is None:
        r = affine_rank(uniq)
        rel = [sub(p, uniq[0]) for p in uniq]
        if r <= limit:
            if nice(*rel) or r == 0 and len(uniq) == 1:
                return True
            return AMB
        s = sing_values(rel)
        return False if s[limit] > 1e-12 * s[0] * max(len(uniq), len(uniq[0])) else AMB
    s = sing_values([sub(p, uniq[0]) for p in uniq])
    noise = 1e-13 * (s[0] if len(s) else 0)
    above = sum(1 for x in s if x > tol + noise)
    maybe = sum(1 for x in s if x > tol - noise)
    if above > limit:
        return False
    if maybe <= limit:
        return True
    return AMB


def sing_values(rel):
    """Singular values of the centred points (given relative to one of them)."""
    n = len(rel)
    c = [div(sum(x), n) for x in zip(*rel)]
    M = np.array([[fl(x - y) for x, y in zip(p, c)] for p in rel])
    s = np.linalg.svd(M, compute_uv=False)
    return list(s) + [0.0] * 8


def w_line(o, p, d, tol, tol_dir=1e-10, cls='Line', exact_point=None):
    """A line equal (as a set of points) to the exact line through p along d."""
    if o.exc is not None:
        return 'unexpected exception'
    return v_line(o.val, p, d, tol, tol_dir, exact_point)


def v_line(v, p, d, tol, tol_dir=1e-10, exact_point=None):
    if type(v).__name__ != 'Line':
        return f'expected a Line, got {type(v).__name__}'
    m = model(v)
    q, e = vec(m.point), vec(m.direction)
    if q is None or e is None or len(q) != len(p) or len(e) != len(d):
        return 'expected a line of the same dimension'
    if m.direction.v != m.vector.v or m.dimension != len(p):
        return 'inconsistent line attributes'
    if is0(e):
        return 'zero direction'
    if sin_between(d, e) > tol_dir:
        return f'expected a line along {[fl(x) for x in d]}'
    w = sub(q, p)
    if not math.sqrt(max(0.0, fl(div(perp2(w, d), n2(d))))) <= tol:
        return f'expected a line through {[fl(x) for x in p]} along {[fl(x) for x in d]}'
    return None


# ---------------------------------------------------------------- vectors


@judge('Vector.from_points')
def _(r, a, k, o):
    p, q = vec(a[0]), vec(a[1])
    if p is None or q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_array(o, sub(q, p), 1e-15 * mx(p, q), 'Vector')


@judge('Vector.norm')
def _(r, a, k, o):
    v = vec(r)
    ord_ = k.get('ord')
    if ord_ in (None, 2):
        e = fnorm(v)
        return w_float(o, e, RT * e)
    if ord_ == 1:
        e = sum(abs(x) for x in v)
    elif ord_ == float('inf'):
        e = max(abs(x) for x in v)
    elif ord_ == 0:
        e = sum(1 for x in v if x != 0)
    else:
        return AMB
    return w_float(o, e, RT * fl(e))


@judge('Vector.unit')
def _(r, a, k, o):
    v = vec(r)
    if is0(v):
        return raises(o)
    n = fnorm(v)
    return w_array(o, [fl(x) / n for x in v], 1e-12, 'Vector')


@judge('Vector.is_zero')
def _(r, a, k, o):
    d = dec_vzero(vec(r), k)
    return d if d is AMB else w_bool(o, d)


@judge('Vector.dot')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if mism(u, v):
        return raises(o) if len(v) != 1 or True else None
    return w_float(o, dot(u, v), 1e-14 * len(u) * fnorm(u) * fnorm(v))


@judge('Vector.cross')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if len(u) > 3 or len(v) > 3:
        return raises(o)
    return w_array(o, cross(u, v), 1e-14 * fnorm(u) * fnorm(v), 'Vector')


@judge('Vector.cosine_similarity')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if is0(u) or is0(v) or mism(u, v):
        return raises(o)
    m = w_float(o, fl(dot(u, v)) / (fnorm(u) * fnorm(v)), 1e-14 * (len(u) + 9))
    if m is None and not -1 <= float(o.val) <= 1:
        return 'cosine outside of [-1, 1]'
    return m


def angle_tol(s):
    """Rounding of an angle obtained from its cosine, where s is its sine."""
    return 1e-10 + min(1e-7, 1e-14 / s if s > 0 else 1.0)


def exact_angle(u, v):
    """Angle between vectors from exact quantities (atan2 of sine and cosine)."""
    nn = fsqrt(perp2(u, v))
    d = fl(dot(u, v))
    return math.atan2(nn, d)


@judge('Vector.angle_between')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if is0(u) or is0(v) or mism(u, v):
        return raises(o)
    e = exact_angle(u, v)
    m = w_float(o, e, angle_tol(math.sin(e)))
    if m is None and not 0 <= float(o.val) <= math.pi:
        return 'angle outside of [0, pi]'
    return m


def w_angle_mod(o, e, tol):
    if o.exc is not None:
        return 'unexpected exception'
    if not is_num(o.val):
        return 'expected a number'
    x = float(o.val)
    if not -math.pi <= x <= math.pi:
        return 'angle outside of [-pi, pi]'
    d = abs(x - e)
    if not min(d, abs(2 * math.pi - d)) <= tol:
        return f'expected the angle {e!r}'
    return None


@judge('Vector.angle_signed')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if len(u) != 2 or len(v) != 2:
        return raises(o)
    if is0(u) or is0(v):
        return AMB
    return w_angle_mod(o, math.atan2(fl(det2(u, v)), fl(dot(u, v))), 1e-10)


@judge('Vector.angle_signed_3d')
def _(r, a, k, o):
    u, v, p = vec(r), vec(a[0]), vec(a[1])
    if v is None or p is None:
        return raises(o, ValueError, TypeError)
    if len(u) != 3 or len(v) != 3 or len(p) != 3 or is0(p):
        return raises(o)
    if is0(u) or is0(v):
        return AMB
    c = cross(u, v)
    if is0(c):
        return w_angle_mod(o, 0.0 if dot(u, v) > 0 else math.pi, 1e-7)
    s = sin_between(u, v)
    if s < 1e-5 and not (exact2(u, v) and parallel(c, p)):
        return AMB
    d = dec_parallel(c, p)
    if d is AMB:
        return AMB
    if not d:
        return raises(o)
    if not parallel(c, p) and gap_parallel(c, p) > 1e-12:
        return AMB
    return w_angle_mod(o, math.atan2(math.copysign(fnorm(c), fl(dot(c, p))), fl(dot(u, v))), 1e-10)


@judge('Vector.is_perpendicular')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if mism(u, v):
        return raises(o)
    d = dec_perp(u, v, k)
    return d if d is AMB else w_bool(o, d)


@judge('Vector.is_parallel')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if mism(u, v):
        zu, zv = dec_vzero(u, k), dec_vzero(v, k)
        if zu is not False or zv is not False:
            return AMB
        return raises(o)
    d = dec_parallel(u, v, k)
    return d if d is AMB else w_bool(o, d)


@judge('Vector.side_vector')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if len(u) != 2 or len(v) != 2:
        return raises(o)
    c = -det2(u, v)
    return w_sign(o, c, 0.0 if exact2(u, v) else 1e-14 * fnorm(u) * fnorm(v))


def w_sign(o, c, err):
    d = dec_zero(c, err, 0.0)
    if d is AMB:
        return AMB
    if c != 0 and abs(fl(c)) < 1e-290:
        return AMB
    return w_int(o, 0 if c == 0 else (1 if c > 0 else -1))


@judge('Vector.scalar_projection')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if is0(u) or mism(u, v):
        return raises(o)
    return w_float(o, fl(dot(u, v)) / fnorm(u), RT * fnorm(v))


def proj(d, w):
    """Exact orthogonal projection of w onto d."""
    return mul(div(dot(d, w), n2(d)), d)


@judge('Vector.project_vector')
def _(r, a, k, o):
    u, v = vec(r), vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if is0(u) or mism(u, v):
        return raises(o)
    return w_array(o, proj(u, v), RT * fnorm(v), 'Vector')


@judge('Vector.different_direction')
def _(r, a, k, o):
    u = vec(r)
    z = dec_vzero(u, k)
    if z is AMB:
        return AMB
    if z:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    if type(o.val).__name__ != 'Vector':
        return 'expected a Vector'
    w = vec(model(o.val))
    if w is None or len(w) != len(u):
        return 'expected a vector of the same dimension'
    if is0(w):
        return 'zero vector returned'
    if len(u) == 1:
        return None if w[0] * u[0] < 0 else 'expected the opposite direction'
    if max(tols(k)) > 0.1:
        return AMB if parallel(u, w) else None
    p = dec_parallel(u, w, k)
    if p is True:
        return 'the returned vector is parallel to the vector'
    return AMB if p is AMB else None


# ---------------------------------------------------------------- points


@judge('Point.distance_point')
def _(r, a, k, o):
    p, q = vec(r), vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    e = fnorm(sub(p, q))
    return w_float(o, e, RT * e + 1e-15 * mx(p, q))


@judge('Points.unique')
def _(r, a, k, o):
    e = sorted(set(pts(r)))
    if o.exc is not None:
        return 'unexpected exception'
    if type(o.val).__name__ != 'Points':
        return 'expected Points'
    m = pts(model(o.val))
    if m is None or sorted(m) != e:
        return 'expected each distinct point exactly once'
    return None


def mean(rows):
    n = len(rows)
    return tuple(div(sum(c), n) for c in zip(*rows))


@judge('Points.centroid')
def _(r, a, k, o):
    rows = pts(r)
    return w_array(o, mean(rows), RT * mx(*rows), 'Point')


@judge('Points.mean_center')
def _(r, a, k, o):
    rows = pts(r)
    c = mean(rows)
    e = [sub(p, c) for p in rows]
    tol = RT * mx(*rows)
    if k.get('return_centroid') or len(a) and a[0]:
        if o.exc is not None:
            return 'unexpected exception'
        if not isinstance(o.val, tuple) or len(o.val) != 2:
            return 'expected the centred points and the centroid'
        return v_array(o.val[0], e, tol, 'Points') or v_array(o.val[1], c, tol, 'Point')
    return w_array(o, e, tol, 'Points')


@judge('Points.normalize_distance')
def _(r, a, k, o):
    rows = pts(r)
    m = max(fnorm(p) for p in rows)
    if m == 0:
        return raises(o)
    if m < 1e-145:
        return AMB  # squares underflow
    return w_array(o, [[fl(x) / m for x in p] for p in rows], 1e-11, 'Points')


@judge('Points.affine_rank')
def _(r, a, k, o):
    rows = pts(r)
    top = min(len(rows[0]), len(rows) - 1)
    lo = 0
    for limit in range(-1, top + 1):
        d = dec_rank_small(rows, k, limit) if limit >= 0 else False
        if d is AMB:
            return AMB
        if d:
            return w_int(o, limit)
    return w_int(o, top)


def _are(limit):
    def j(r, a, k, o):
        d = dec_rank_small(pts(r), k, limit)
        return d if d is AMB else w_bool(o, d)
    return j


JUDGES['Points.are_concurrent'] = _are(0)
JUDGES['Points.are_collinear'] = _are(1)
JUDGES['Points.are_coplanar'] = _are(2)


# ---------------------------------------------------------------- arrays in general


@judge('Array.is_equal')
def _(r, a, k, o):
    m = a[0]
    if not isinstance(m, Arr):
        return w_bool(o, False) if o.exc is None else AMB
    return w_bool(o, r.ndim == m.ndim and r.v == m.v)


@judge('Array.is_close')
def _(r, a, k, o):
    m = a[0]
    if not isinstance(m, Arr) or r.ndim != m.ndim:
        return AMB
    if shape(r.v) != shape(m.v):
        return AMB if broadcastable(shape(r.v), shape(m.v)) else raises(o)
    rel, abs_tol = tols(k)
    res = True
    for x, y in zip(flat(r.v), flat(m.v)):
        d = fl(abs(x - y))
        t = max(rel * max(abs(fl(x)), abs(fl(y))), abs_tol)
        if d == 0 or d <= t * (1 - 1e-9):
            continue
        if d > t * (1 + 1e-9):
            return w_bool(o, False)
        res = AMB
    return AMB if res is AMB else w_bool(o, True)


def flat(v):
    for x in v:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def shape(v):
    s = []
    while isinstance(v, tuple):
        s.append(len(v))
        v = v[0] if v else None
    return tuple(s)


def broadcastable(s, t):
    return all(x == y or x == 1 or y == 1 for x, y in zip(s[::-1], t[::-1]))


@judge('Array.set_dimension')
def _(r, a, k, o):
    n = a[0] if a else k.get('dim')
    if r.ndim == 1:
        if n < len(r.v):
            return raises(o)
        return w_array(o, list(r.v) + [0] * (n - len(r.v)), 0.0, r.kind)
    if n < len(r.v[0]):
        return raises(o)
    return w_array(o, [list(p) + [0] * (n - len(p)) for p in r.v], 0.0, r.kind)


@judge('Array.to_array')
def _(r, a, k, o):
    return w_array(o, r.v, 0.0)


@judge('Array.round')
def _(r, a, k, o):
    n = a[0] if a else k.get('decimals', 0)
    def rd(x):
        if isinstance(x, tuple):
            return tuple(rd(y) for y in x)
        return num(float(np.around(np.float64(fl(x)), n))) if not (type(x) is int and n >= 0) else x
    return w_array(o, rd(r.v), 1e-12 * 10.0 ** (-n), r.kind)


# ---------------------------------------------------------------- constructors


def v_fields(v, cls, exp, tol):
    if type(v).__name__ != cls:
        return f'expected a {cls}, got {type(v).__name__}'
    for name, e in exp.items():
        if not hasattr(v, name):
            return f'attribute {name} is missing'
        x = getattr(v, name)
        if name == 'dimension':
            if x != e:
                return f'dimension {x}, expected {e}'
        elif isinstance(e, (tuple, list)):
            want = 'Vector' if name in ('vector', 'direction', 'normal') else 'Point'
            m = v_array(x, e, tol, want)
            if m:
                return f'{name}: {m}'
            if x.dimension != len(e):
                return f'{name} has dimension {x.dimension}'
        else:
            if not is_num(x) or not abs(float(x) - fl(e)) <= tol:
                return f'{name} is {x!r}, expected {fl(e)!r}'
    return None


def w_fields(o, cls, exp, tol=0.0):
    if o.exc is not None:
        return 'unexpected exception'
    return v_fields(o.val, cls, exp, tol)


@judge('Line.new', 'Plane.new')
def _(r, a, k, o):
    cls = k.get('_cls')
    p, d = vec(a[0]), vec(a[1])
    if p is None or d is None:
        return raises(o, ValueError, TypeError)
    if len(p) != len(d) or is0(d):
        return raises(o)
    if dec_vzero(d, {}) is AMB:
        return AMB
    return w_fields(o, cls, {'point': p, ('direction' if cls == 'Line' else 'normal'): d, 'vector': d, 'dimension': len(p)})


@judge('Line.from_points')
def _(r, a, k, o):
    p, q = vec(a[0]), vec(a[1])
    if p is None or q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    d = sub(q, p)
    if is0(d):
        return raises(o)
    if fl(n2(d)) < 1e-290:
        return AMB
    return w_fields(o, 'Line', {'point': p, 'direction': d, 'vector': d, 'dimension': len(p)}, 1e-15 * mx(p, q))


@judge('Line.from_slope')
def _(r, a, k, o):
    s, b = a if a else (num(k['slope']), num(k['y_intercept']))
    if isinstance(s, Bad) or isinstance(b, Bad):
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    sc = 1 + abs(fl(s)) + abs(fl(b))
    return w_line(o, (0, b), (1, s), 1e-13 * sc, 1e-13)


@judge('LineSegment.new')
def _(r, a, k, o):
    p, q = vec(a[0]), vec(a[1])
    if p is None or q is None:
        return raises(o, ValueError, TypeError)
    if len(p) != len(q):
        return raises(o)
    if p == q:
        return raises(o)
    # Endpoints that differ only within the default relative tolerance of every coordinate count as equal.
    close = True
    for x, y in zip(p, q):
        t = 1e-9 * max(abs(fl(x)), abs(fl(y)))
        d = fl(abs(x - y))
        if d > t * (1 + 1e-6):
            close = False
            break
        if d > t * (1 - 1e-6):
            close = AMB
    if close is AMB:
        return AMB
    if close:
        return raises(o)
    return w_fields(o, 'LineSegment', {'point_a': p, 'point_b': q, 'dimension': len(p)})


@judge('Plane.from_vectors')
def _(r, a, k, o):
    p, u, v = vec(a[0]), vec(a[1]), vec(a[2])
    if p is None or u is None or v is None:
        return raises(o, ValueError, TypeError)
    if len(u) > 3 or len(v) > 3 or len(p) > 3:
        return raises(o)
    if len(u) != len(v):
        return AMB if is0(u) or is0(v) else raises(o)
    d = dec_parallel(u, v, k)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    n = cross(u, v)
    p3 = pad3(p)
    m = w_fields(o, 'Plane', {'point': p3, 'dimension': 3}, 1e-15 * mx(p))
    return m or v_normal(o.val, n, 1e-11 / max(sin_between(u, v), 1e-12))


def v_normal(plane, n, tol):
    m = model(plane)
    e = vec(m.normal)
    if e is None or len(e) != len(n) or is0(e):
        return 'bad normal'
    if e != vec(m.vector):
        return 'inconsistent normal'
    if sin_between(e, n) > tol:
        return f'expected a normal along {[fl(x) for x in n]}'
    return None


@judge('Plane.from_points')
def _(r, a, k, o):
    P = [vec(x) for x in a]
    if any(p is None for p in P):
        return raises(o, ValueError, TypeError)
    if len({len(p) for p in P}) != 1:
        return raises(o)
    if len(P[0]) > 3:
        return raises(o)
    d = dec_rank_small(P, k, 1)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    u, v = sub(P[1], P[0]), sub(P[2], P[0])
    dp = dec_parallel(u, v)
    if dp is not False:
        return raises(o) if dp is True and parallel(u, v) else AMB
    sc = mx(*P)
    m = w_fields(o, 'Plane', {'point': pad3(P[0]), 'dimension': 3}, 1e-15 * sc)
    return m or v_normal(o.val, cross(u, v), 1e-11 / max(sin_between(u, v), 1e-12) * (1 + 1e-4 * sc / max(mx(u, v), 1e-300)))


@judge('Circle.new', 'Sphere.new')
def _(r, a, k, o):
    cls = k.get('_cls')
    p, rad = vec(a[0]), a[1]
    if p is None:
        return raises(o, ValueError, TypeError)
    if isinstance(rad, Bad):
        return AMB if rad.v in ('inf',) else raises(o)
    if len(p) != (2 if cls == 'Circle' else 3) or not rad > 0:
        return raises(o)
    return w_fields(o, cls, {'point': p, 'radius': rad, 'dimension': len(p)})


@judge('Triangle.new')
def _(r, a, k, o):
    P = [vec(x) for x in a]
    if any(p is None for p in P):
        return raises(o, ValueError, TypeError)
    if len({len(p) for p in P}) != 1:
        return raises(o)
    d = dec_rank_small(P, {}, 1)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    return w_fields(o, 'Triangle', {'point_a': P[0], 'point_b': P[1], 'point_c': P[2], 'dimension': len(P[0])})


@judge('Cylinder.new', 'Cylinder.from_points')
def _(r, a, k, o):
    p, v, rad = vec(a[0]), vec(a[1]), a[2]
    if p is None or v is None:
        return raises(o, ValueError, TypeError)
    fp = k.get('_method') == 'from_points'
    if fp:
        if len(p) != len(v):
            return raises(o)
        v = sub(v, p)
    if isinstance(rad, Bad):
        return AMB if rad.v in ('inf',) else raises(o)
    if len(p) != 3 or len(v) != 3 or is0(v) or not rad > 0:
        return raises(o)
    if fl(n2(v)) < 1e-290:
        return AMB
    return w_fields(o, 'Cylinder', {'point': p, 'vector': v, 'radius': rad, 'dimension': 3}, 1e-15 * mx(p, v) if fp else 0.0)


@judge('Point.new', 'Vector.new', 'Points.new')
def _(r, a, k, o):
    cls = k.get('_cls')
    m = a[0]
    want = 2 if cls == 'Points' else 1
    if not isinstance(m, Arr) or m.ndim != want or (want == 2 and pts(m) is None) or (want == 1 and not m.v):
        return raises(o, ValueError, TypeError)
    msg = w_array(o, m.v, 0.0, cls)
    if msg:
        return msg
    d = len(m.v) if want == 1 else len(m.v[0])
    if o.val.dimension != d:
        return f'dimension {o.val.dimension}, expected {d}'
    return None


# ---------------------------------------------------------------- lines


def LP(r):
    return vec(r.point), vec(r.vector)


@judge('Line.to_point')
def _(r, a, k, o):
    p, d = LP(r)
    t = a[0] if a else k.get('t', 1)
    t = model(t)
    e = add(p, mul(t, d))
    return w_array(o, e, RT * max(mx(p), mx(mul(t, d))), 'Point')


def line_foot(p, d, q):
    return add(p, proj(d, sub(q, p)))


@judge('Line.project_point')
def _(r, a, k, o):
    p, d = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_array(o, line_foot(p, d, q), loc(p, q), 'Point')


def rows_ok(m, dim, o):
    """(rows, verdict): rows of a point set of the right width."""
    rows = pts(m)
    if rows is None:
        return None, (AMB if isinstance(m, Arr) and m.ndim == 1 and m.v else raises(o, ValueError, TypeError, IndexError))
    if len(rows[0]) != dim:
        return None, raises(o)
    return rows, None


@judge('Line.project_points')
def _(r, a, k, o):
    p, d = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    return w_array(o, [line_foot(p, d, q) for q in rows], loc(p, *rows), 'Points')


@judge('Line.project_vector')
def _(r, a, k, o):
    p, d = LP(r)
    v = vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if mism(d, v):
        return raises(o)
    return w_array(o, proj(d, v), RT * fnorm(v), 'Vector')


@judge('Line.side_point')
def _(r, a, k, o):
    p, d = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    if len(p) != 2:
        return raises(o)
    w = sub(q, p)
    c = -det2(d, w)
    err = 0.0 if exact2(d, w) and grid(p, q) <= 50 else 1e-14 * fnorm(d) * (mx(p, q) + fnorm(w))
    return w_sign(o, c, err)


def line_dist(p, d, q):
    w = sub(q, p)
    return math.sqrt(max(0.0, fl(div(perp2(w, d), n2(d)))))


def line_dist_x(p, d, q):
    w = sub(q, p)
    return fsqrt(div(perp2(w, d), n2(d)))


@judge('Line.distance_point')
def _(r, a, k, o):
    p, d = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_float(o, line_dist_x(p, d, q), loc(p, q))


@judge('Line.distance_points')
def _(r, a, k, o):
    p, d = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    return w_array(o, [num(line_dist_x(p, d, q)) for q in rows], loc(p, *rows))


@judge('Line.sum_squares')
def _(r, a, k, o):
    p, d = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    s = sum(div(perp2(sub(q, p), d), n2(d)) for q in rows)
    err = loc(p, *rows)
    return w_float(o, s, 4 * RT * fl(s) + 2 * err * fsqrt(len(rows) * s) + len(rows) * err * err)


@judge('Line.contains_point')
def _(r, a, k, o):
    p, d = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return contains(line_dist_x(p, d, q), k, o, 1e-13 * mx(p, q))


def contains(dist, k, o, err):
    rel, abs_tol = tols(k)
    d = dec_zero(num(dist), err if dist != 0 or abs_tol == 0 else 0.0 + err, abs_tol)
    return d if d is AMB else w_bool(o, d)


def dec_coplanar_lines(p, d, q, e, k):
    rows = [p, add(p, d), q, add(q, e)]
    c = dec_rank_small(rows, k, 2)
    if c is AMB or all(fits(x) for r in (rows[1], rows[3]) for x in r):
        return c
    # The second point of a line is rounded to the precision of its coordinates.
    noise = 2.0 ** -51 * mx(*rows)
    if k.get('tol') is None:
        if c or sing_values([sub(x, rows[0]) for x in rows])[2] <= noise:
            return AMB
        return c
    v = {dec_rank_small(rows, dict(k, tol=max(k['tol'] + t, 0)), 2) for t in (-noise, 0, noise)}
    return v.pop() if len(v) == 1 else AMB


def fits(x):
    """Is the number a float exactly?"""
    return fl(x) == x


@judge('Line.is_coplanar')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, TypeError)
    p, d = LP(r)
    q, e = LP(m)
    if mism(p, q):
        return raises(o)
    c = dec_coplanar_lines(p, d, q, e, k)
    return c if c is AMB else w_bool(o, c)


def lines_distance2(p, d, q, e):
    """Exact squared distance of two lines in any dimension."""
    w = sub(q, p)
    den = perp2(d, e)
    if den == 0:
        return div(perp2(w, d), n2(d))
    # residual of w after removing span(d, e): Gram determinant quotient
    g = gram3(w, d, e)
    return div(g, den)


def gram3(w, d, e):
    a, b, c = n2(w), n2(d), n2(e)
    x, y, z = dot(w, d), dot(w, e), dot(d, e)
    return a * b * c + 2 * x * y * z - a * z * z - b * y * y - c * x * x


@judge('Line.distance_line')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, d = LP(r)
    q, e = LP(m)
    if mism(p, q):
        return bad_dims(p, q, o)
    exact_par = parallel(d, e)
    par = dec_parallel(d, e)
    if par is AMB or (par and not exact_par and gap_parallel(d, e) > 1e-20):
        return AMB
    sc = mx(p, q)
    if par:
        # Directions that differ by rounding only (1.0 and 0.1 * 10) are parallel.
        return w_float(o, line_dist_x(p, d, q), loc(p, q) + (1e-9 * fnorm(sub(p, q)) if not exact_par else 0.0))
    if len(p) > 3 and o.exc is not None and not parallel(d, e):
        c = dec_coplanar_lines(p, d, q, e, {})
        return raises(o) if c is False or c is AMB else 'unexpected exception'
    if min(fnorm(d), fnorm(e)) < 1e-13 * sc:
        return AMB  # the point at parameter one is the point of the line up to rounding
    s = sin_between(d, e)
    return w_float(o, fsqrt(lines_distance2(p, d, q, e)), (2 * RT * mx(sub(q, p)) + CT * sc) / s)


@judge('Line.intersect_line')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, d = LP(r)
    q, e = LP(m)
    if mism(p, q) or len(p) > 3:
        return raises(o)
    kk = {x: y for x, y in k.items() if x != 'check_coplanar'}
    par = dec_parallel(d, e, kk)
    if par is AMB:
        return AMB
    if par:
        return raises(o)
    if parallel(d, e):
        return AMB
    cop_checked = k.get('check_coplanar', True) if len(a) < 2 else bool(a[1])
    s = sin_between(d, e)
    if s < 1e-6:
        return AMB
    sc = max(mx(p, q), 1e-300)
    if cop_checked and len(p) == 3:
        c = dec_coplanar_lines(p, d, q, e, {})
        if c is AMB:
            # Rounding decides whether the lines count as coplanar; if they do, the point must still be right.
            if o.exc is not None:
                return AMB if isinstance(o.exc, ValueError) else 'unexpected exception'
            if fsqrt(lines_distance2(p, d, q, e)) > 1e-9 * sc:
                return AMB
        elif not c:
            return raises(o)
    x = closest_on_first(p, d, q, e)
    return w_array(o, x, 10 * RT * (mx(sub(q, p)) + mx(sub(x, p))) / (s * s) + CT * mx(p, q, x), 'Point')


def closest_on_first(p, d, q, e):
    """Point of the line (p, d) nearest to the line (q, e)."""
    w = sub(q, p)
    a, b, c = n2(d), dot(d, e), n2(e)
    t = div(dot(w, d) * c - dot(w, e) * b, a * c - b * b)
    return add(p, mul(t, d))


@judge('Line.is_close', 'Plane.is_close')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == r.kind):
        return raises(o, TypeError)
    p, d = LP(r)
    q, e = LP(m)
    if mism(p, q):
        return raises(o) if len(p) > 1 and len(q) > 1 else AMB
    if r.kind == 'Line':
        dist = line_dist_x(p, d, q)
    else:
        dist = abs(fl(dot(d, sub(q, p)))) / fnorm(d)
    _, abs_tol = tols(k)
    c = dec_zero(num(dist), 1e-13 * mx(p, q), abs_tol)
    par = dec_parallel(d, e, k)
    if c is False or par is False:
        return w_bool(o, False)
    if c is AMB and dist == 0 and abs_tol == 0 and par is True:
        # Exactly on the object; whether the computed distance is exactly zero depends on rounding.
        if q == p:
            return w_bool(o, True)
        return AMB
    if c is AMB or par is AMB:
        return AMB
    return w_bool(o, True)


@judge('Line.transform_points')
def _(r, a, k, o):
    p, d = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    n = fnorm(d)
    return w_array(o, [num(fl(dot(d, sub(q, p))) / n) for q in rows], loc(p, *rows))


def scatter(rows):
    """Centroid and exact scatter matrix, with its eigen-decomposition in floats."""
    c = mean(rows)
    rel = [sub(p, c) for p in rows]
    n = len(c)
    S = [[sum(p[i] * p[j] for p in rel) for j in range(n)] for i in range(n)]
    t = fl(sum(S[i][i] for i in range(n)))
    A = np.array([[fl(x) for x in row] for row in S])
    w, V = np.linalg.eigh(A / (t or 1.0))
    return c, A, w * (t or 1.0), V, t


def off_axis(f, u, gap, t, noise):
    """Is the unit vector f another direction than the eigenvector u, further than the rounding of the points explains?"""
    if gap <= 1e-6 * t:
        return False
    angle = np.linalg.norm(f - (f @ u) * u)
    return angle > 1e-12 * (len(f) + 9) * t / gap + 4 * noise * math.sqrt(t) / gap


def error_bound(ss, t, noise):
    """Rounding of the error of a fit: that of the singular values, squared."""
    n = 1e-12 * math.sqrt(t) + noise
    return n * math.sqrt(ss) + n * n


@judge('Line.best_fit')
def _(r, a, k, o):
    rows = pts(a[0])
    if rows is None:
        return raises(o, ValueError, TypeError)
    tol = k.get('tol')
    d = dec_rank_small(rows, {'tol': tol}, 0)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    v = o.val
    err = None
    if k.get('return_error'):
        if not isinstance(v, tuple) or len(v) != 2:
            return 'expected the fit and its error'
        v, err = v
    if type(v).__name__ != 'Line':
        return 'expected a Line'
    c, A, w, V, t = scatter(rows)
    sc = mx(*rows)
    spread = math.sqrt(t)
    noise = 1e-12 * sc * math.sqrt(len(rows))
    m = model(v)
    q, e = vec(m.point), vec(m.direction)
    if q is None or e is None or len(q) != len(c) or len(e) != len(c) or is0(e) or m.dimension != len(c):
        return 'bad line'
    if line_dist_x(q, e, c) > 1e-10 * sc:
        return f'the line does not pass through the centroid {[fl(x) for x in c]}'
    f = np.array([fl(x) for x in e])
    f = f / np.linalg.norm(f)
    loss = w[-1] - f @ A @ f
    if loss > 1e-10 * t + noise * spread + noise * noise:
        return f'the direction is not optimal: the explained variation is {float(f @ A @ f)!r}, the best is {float(w[-1])!r}'
    if len(c) > 1 and off_axis(f, V[:, -1], w[-1] - w[-2], t, noise):
        return f'the direction is not optimal: the best is {V[:, -1].tolist()}'
    if err is not None:
        D = np.array([[fl(x - y) for x, y in zip(p, q)] for p in rows])
        best = float((np.square(D - np.outer(D @ f, f))).sum())
        if not is_num(err) or not abs(float(err) - best) <= error_bound(best, t, noise):
            return f'the error is {err!r}, the minimum is {best!r}'
    return None


# ---------------------------------------------------------------- segments


def dec_on_segment(a, b, q, k):
    va, vb = sub(a, q), sub(b, q)
    za, zb = dec_vzero(va, k), dec_vzero(vb, k)
    if za is True or zb is True:
        return True
    if za is AMB or zb is AMB:
        return AMB
    rel, abs_tol = tols(k)
    d = dot(va, vb)
    s2 = fl(div(perp2(va, vb), n2(va) * n2(vb)))
    c = math.sqrt(max(0.0, 1 - s2))
    # similarity is -c or +c; isclose(similarity, -1)
    g = s2 / (1 + c) if d < 0 else 1 + c
    tol = max(rel, abs_tol)
    noise = 4e-15
    if g <= tol - noise:
        return True
    if g > tol + noise:
        return False
    return AMB


@judge('LineSegment.contains_point')
def _(r, a, k, o):
    p, q = vec(r.point_a), vec(r.point_b)
    x = vec(a[0])
    if x is None:
        return raises(o, ValueError, TypeError)
    if mism(p, x):
        return bad_dims(p, x, o)
    if not (nice(sub(p, x), sub(q, x), bits=40)):
        ea, eb = fnorm(sub(p, x)), fnorm(sub(q, x))
        if min(ea, eb) < 1e-6 * max(mx(p, q, x), ea, eb):
            return AMB
        if mx(p, q, x) > 1e4 * min(ea, eb) and not exact2(sub(p, x), sub(q, x)):
            return AMB
    d = dec_on_segment(p, q, x, k)
    return d if d is AMB else w_bool(o, d)


@judge('LineSegment.intersect_line_segment')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'LineSegment'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, p2 = vec(r.point_a), vec(r.point_b)
    q, q2 = vec(m.point_a), vec(m.point_b)
    if mism(p, q) or len(p) > 3:
        return raises(o)
    d, e = sub(p2, p), sub(q2, q)
    kk = {x: y for x, y in k.items() if x != 'check_coplanar'}
    par = dec_parallel(d, e, kk)
    if par is AMB:
        return AMB
    if par:
        return raises(o)
    s = sin_between(d, e)
    if s < 1e-5:
        return AMB
    check = k.get('check_coplanar', True)
    sc = max(mx(p, p2, q, q2), 1e-300)
    amb = False
    if len(p) == 3:
        c = dec_coplanar_lines(p, d, q, e, {})
        if check and c is False:
            return raises(o)
        if c is not True:
            if not check:
                return AMB
            amb = True
            if fsqrt(lines_distance2(p, d, q, e)) > 1e-10 * sc:
                return AMB
    w = sub(q, p)
    aa, bb, cc = n2(d), dot(d, e), n2(e)
    den = aa * cc - bb * bb
    t = div(dot(w, d) * cc - dot(w, e) * bb, den)
    u = div(dot(w, d) * bb - dot(w, e) * aa, den)
    exact_in = 0 <= t <= 1 and 0 <= u <= 1
    noise = 1e-9 + 100 * RT * sc / (s * s) / min(fnorm(d), fnorm(e))
    ft, fu = fl(t), fl(u)
    margin = min(min(ft, 1 - ft), min(fu, 1 - fu))  # negative: outside by that fraction
    if margin < -noise:
        return raises(o)
    if margin < noise and not (exact_in and nice(p, p2, q, q2, bits=12)):
        # At an endpoint up to rounding.
        if o.exc is not None:
            return AMB if isinstance(o.exc, ValueError) else 'unexpected exception'
    if amb and o.exc is not None:
        return AMB if isinstance(o.exc, ValueError) else 'unexpected exception'
    x = add(p, mul(t, d))
    return w_array(o, x, 10 * RT * (mx(sub(q, p)) + mx(sub(x, p))) / (s * s) + CT * mx(p, q, x), 'Point')


# ---------------------------------------------------------------- planes


@judge('Plane.project_point')
def _(r, a, k, o):
    p, n = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_array(o, add(q, proj(n, sub(p, q))), loc(p, q), 'Point')


@judge('Plane.project_points')
def _(r, a, k, o):
    p, n = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    return w_array(o, [add(q, proj(n, sub(p, q))) for q in rows], loc(p, *rows), 'Points')


@judge('Plane.project_vector')
def _(r, a, k, o):
    p, n = LP(r)
    v = vec(a[0])
    if v is None:
        return raises(o, ValueError, TypeError)
    if mism(p, v):
        return bad_dims(p, v, o)
    return w_array(o, sub(v, proj(n, v)), 2 * RT * mx(v), 'Vector')


@judge('Plane.project_line')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, n = LP(r)
    q, d = LP(m)
    if mism(p, q):
        return bad_dims(p, q, o)
    par = dec_parallel(n, d, k)
    if par is AMB:
        return AMB
    if par:
        return raises(o)
    if parallel(n, d):
        return AMB
    _, abs_tol = tols(k)
    sc = mx(p, q)
    foot = add(q, proj(n, sub(p, q)))
    if abs_tol and abs(fl(dot(n, d))) <= abs_tol * (1 + 1e-9) and dot(n, d) != 0:
        return AMB  # counts as perpendicular within the tolerance
    e = sub(d, proj(n, d))
    s = sin_between(n, d)
    return w_line(o, foot, e, loc(p, q), 4 * RT / s + 1e-11)


def plane_sd(p, n, q):
    w = sub(q, p)
    d2 = dot(n, w)
    s = fsqrt(div(d2 * d2, n2(n)))
    return s if d2 > 0 else -s


@judge('Plane.distance_point_signed')
def _(r, a, k, o):
    p, n = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_float(o, plane_sd(p, n, q), loc(p, q))


@judge('Plane.distance_point')
def _(r, a, k, o):
    p, n = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return w_float(o, abs(plane_sd(p, n, q)), loc(p, q))


@judge('Plane.distance_points_signed', 'Plane.distance_points')
def _(r, a, k, o):
    p, n = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    e = [num(plane_sd(p, n, q)) for q in rows]
    if k.get('_method') == 'distance_points':
        e = [abs(x) for x in e]
    return w_array(o, e, loc(p, *rows))


@judge('Plane.sum_squares')
def _(r, a, k, o):
    p, n = LP(r)
    rows, v = rows_ok(a[0], len(p), o)
    if rows is None:
        return v
    s = sum(div(dot(n, sub(q, p)) ** 2, n2(n)) for q in rows)
    err = loc(p, *rows)
    return w_float(o, s, 4 * RT * fl(s) + 2 * err * fsqrt(len(rows) * s) + len(rows) * err * err)


@judge('Plane.contains_point')
def _(r, a, k, o):
    p, n = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    return contains(abs(plane_sd(p, n, q)), k, o, 1e-13 * mx(p, q))


@judge('Plane.side_point')
def _(r, a, k, o):
    p, n = LP(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(p, q):
        return bad_dims(p, q, o)
    w = sub(q, p)
    c = dot(n, w)
    err = 0.0 if exact2(n, w) and grid(p, q) <= 50 else 1e-14 * len(p) * fnorm(n) * (mx(p, q) + fnorm(w))
    return w_sign(o, c, err)


@judge('Plane.intersect_line')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, n = LP(r)
    q, d = LP(m)
    if mism(p, q):
        return bad_dims(p, q, o)
    perp = dec_perp(n, d, k)
    if perp is AMB:
        return AMB
    if perp:
        return raises(o)
    nd = dot(n, d)
    t = div(dot(n, sub(p, q)), nd)
    x = add(q, mul(t, d))
    cosa = abs(fl(nd)) / (fnorm(n) * fnorm(d))
    if cosa < 1e-8:
        return AMB
    return w_array(o, x, 4 * RT * (mx(sub(p, q)) + mx(sub(x, q))) / cosa + CT * mx(p, q, x), 'Point')


@judge('Plane.intersect_plane')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Plane'):
        return raises(o, AttributeError, TypeError, ValueError)
    p, n = LP(r)
    q, e = LP(m)
    if len(p) != 3 or len(q) != 3:
        return raises(o)
    par = dec_parallel(n, e, k)
    if par is AMB:
        return AMB
    if par:
        return raises(o)
    s = sin_between(n, e)
    if s < 1e-6:
        return AMB
    d = cross(n, e)
    # Exact common point: minimal-norm combination of the normals.
    x = solve([[n2(n), dot(n, e)], [dot(n, e), n2(e)]], [dot(n, p), dot(e, q)])
    pt = add(mul(x[0], n), mul(x[1], e))
    ratio = max(fnorm(n), fnorm(e), 1.0) / min(fnorm(n), fnorm(e), 1.0)
    tol = 10 * RT * (mx(p, q) + mx(pt)) / (s * s) * ratio ** 2
    if tol > 1e-3 * max(mx(p, q), 1e-300) + 1e-6 and ratio > 1e3:
        return AMB
    return w_line(o, pt, d, tol, 1e-10 / s)


@judge('Plane.cartesian')
def _(r, a, k, o):
    p, n = LP(r)
    if len(p) > 3:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    v = o.val
    if not isinstance(v, tuple) or len(v) != 4 or not all(is_num(x) for x in v):
        return 'expected four coefficients'
    A = [num(x) for x in v]
    n3, p3 = pad3(n), pad3(p)
    e = list(n3) + [-dot(n, p)]
    # The coefficients describe the plane up to a common factor; the library returns the normal itself.
    tolc = [1e-15 * mx(n)] * 3 + [RT * fnorm(n) * fnorm(p)]
    for x, y, t in zip(A, e, tolc):
        if not abs(fl(x - y)) <= t:
            return f'expected the coefficients {[fl(z) for z in e]}'
    return None


@judge('Plane.best_fit')
def _(r, a, k, o):
    rows = pts(a[0])
    if rows is None:
        return raises(o, ValueError, TypeError)
    if len(rows[0]) != 3:
        return raises(o)
    d = dec_rank_small(rows, {'tol': k.get('tol')}, 1)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    v = o.val
    err = None
    if k.get('return_error'):
        if not isinstance(v, tuple) or len(v) != 2:
            return 'expected the fit and its error'
        v, err = v
    if type(v).__name__ != 'Plane':
        return 'expected a Plane'
    c, A, w, V, t = scatter(rows)
    sc = mx(*rows)
    spread = math.sqrt(t)
    noise = 1e-12 * sc * math.sqrt(len(rows))
    m = model(v)
    q, e = vec(m.point), vec(m.normal)
    if q is None or e is None or len(q) != 3 or len(e) != 3 or is0(e) or m.dimension != 3:
        return 'bad plane'
    if abs(plane_sd(q, e, c)) > 1e-10 * sc:
        return f'the plane does not pass through the centroid {[fl(x) for x in c]}'
    f = np.array([fl(x) for x in e])
    f = f / np.linalg.norm(f)
    got = f @ A @ f
    if got - w[0] > 1e-10 * t + noise * spread + noise * noise:
        return f'the normal is not optimal: the squared error is {float(got)!r}, the best is {float(w[0])!r}'
    if off_axis(f, V[:, 0], w[1] - w[0], t, noise):
        return f'the normal is not optimal: the best is {V[:, 0].tolist()}'
    if err is not None:
        D = np.array([[fl(x - y) for x, y in zip(p, q)] for p in rows])
        best = float(np.square(D @ f).sum())
        if not is_num(err) or not abs(float(err) - best) <= error_bound(best, t, noise):
            return f'the error is {err!r}, the minimum is {best!r}'
    return None


# ---------------------------------------------------------------- circles and spheres


def CR(r):
    return vec(r.point), r.radius


@judge('Circle.distance_point', 'Sphere.distance_point')
def _(r, a, k, o):
    c, rad = CR(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(c, q):
        return bad_dims(c, q, o)
    d = fnorm(sub(q, c))
    return w_float(o, abs(d - fl(rad)), RT * (d + fl(rad)) + CT * mx(c, q))


@judge('Circle.contains_point', 'Sphere.contains_point')
def _(r, a, k, o):
    c, rad = CR(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(c, q):
        return bad_dims(c, q, o)
    d2 = n2(sub(q, c))
    dist = abs(fnorm(sub(q, c)) - fl(rad))
    err = 1e-14 * (mx(c, q) + fl(rad))
    if d2 == rad * rad and exact2(sub(q, c)) and nice(c, q, bits=50):
        # The distance to the centre is the square root of an exactly computed square.
        return w_bool(o, True)
    rel, abs_tol = tols(k)
    d = dec_zero(num(dist), err, abs_tol)
    return d if d is AMB else w_bool(o, d)


@judge('Circle.project_point', 'Sphere.project_point')
def _(r, a, k, o):
    c, rad = CR(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if mism(c, q):
        return bad_dims(c, q, o)
    w = sub(q, c)
    if is0(w):
        return raises(o)
    n = fnorm(w)
    e = [fl(x) + fl(rad) * (fl(y) / n) for x, y in zip(c, w)]
    return w_array(o, e, RT * (n + fl(rad)) + CT * mx(c, q) * max(1.0, fl(rad) / n), 'Point')


@judge('Circle.circumference')
def _(r, a, k, o):
    e = 2 * math.pi * fl(r.radius)
    return w_float(o, e, RT * e)


@judge('Circle.area')
def _(r, a, k, o):
    e = math.pi * fl(r.radius) ** 2
    return w_float(o, e, RT * e)


@judge('Sphere.surface_area')
def _(r, a, k, o):
    e = 4 * math.pi * fl(r.radius) ** 2
    return w_float(o, e, RT * e)


@judge('Sphere.volume')
def _(r, a, k, o):
    e = 4 / 3 * math.pi * fl(r.radius) ** 3
    return w_float(o, e, RT * e)


@judge('Circle.intersect_circle')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Circle'):
        return raises(o, AttributeError, TypeError, ValueError)
    c1, r1 = CR(r)
    c2, r2 = CR(m)
    w = sub(c2, c1)
    D = n2(w)
    if D == 0:
        return raises(o)
    sc = mx(c1, c2) + fl(max(r1, r2))
    hi = (r1 + r2) ** 2
    lo = (r1 - r2) ** 2
    # h^2 D = [hi - D][D - lo] / 4
    x = (hi - D) * (D - lo)
    rel_hi = fl(div(hi - D, hi))
    rel_lo = fl(div(D - lo, D))
    exact_tan = x == 0 and exact2(w) and nice(c1, c2, bits=50) and is_square(D) and nice((r1, r2), bits=24)
    if not exact_tan and min(abs(rel_hi), abs(rel_lo)) < 1e-12 * (1 + sc / fsqrt(D)):
        return AMB
    if x < 0:
        return raises(o)
    al = div(r1 * r1 - r2 * r2 + D, 2 * D)
    h = fsqrt(div(x, 4 * D * D))  # in units of |w|
    mid = [fl(p + al * q) for p, q in zip(c1, w)]
    fw = [fl(q) for q in w]
    e1 = [num(mid[0] - h * fw[1]), num(mid[1] + h * fw[0])]
    e2 = [num(mid[0] + h * fw[1]), num(mid[1] - h * fw[0])]
    d = fsqrt(D)
    amp = 1 + fl(max(r1, r2)) / d
    err_a = RT * sc * amp
    hh = h * d
    tol = err_a * (1 + fl(r1) / hh) if hh > 0 else math.sqrt(2 * err_a * fl(r1)) + err_a
    if hh > 0:
        tol = min(tol, math.sqrt(2 * err_a * fl(r1)) + err_a)
    return w_pair(o, e1, e2, 4 * tol)


def is_square(x):
    from fractions import Fraction as F
    x = F(x)
    if x < 0:
        return False
    return math.isqrt(x.numerator) ** 2 == x.numerator and math.isqrt(x.denominator) ** 2 == x.denominator


def ball_line(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    c, rad = CR(r)
    q, d = LP(m)
    if len(q) != len(c):
        return raises(o) if len(q) > 1 else AMB
    w = sub(q, c)
    A, B, C = n2(d), dot(d, w), n2(w) - rad * rad
    disc = B * B - A * C
    ref = A * (rad * rad)
    reld = fl(div(disc, ref))
    exact_ok = nice(d, bits=12) and nice(w, (rad,), bits=12) and nice(c, q, bits=50)
    size = (n2(w) + rad * rad)
    cond = fl(div(size, rad * rad)) + (mx(c, q) / fl(rad)) * 1.0
    if not exact_ok and abs(reld) < 1e-13 * cond:
        return AMB
    if disc < 0:
        return raises(o)
    s = fsqrt(div(disc, A * A))
    t0 = div(-B, A)
    foot = add(q, mul(t0, d))
    fd = [fl(x) for x in d]
    e1 = [num(fl(x) - s * y) for x, y in zip(foot, fd)]
    e2 = [num(fl(x) + s * y) for x, y in zip(foot, fd)]
    # Relative discriminant error 1e-13*cond turns into an error of the half chord.
    half = math.sqrt(max(reld, 0.0)) * fl(rad)
    de = 2e-13 * cond
    base = RT * (mx(c, q) + fnorm(w) + fl(rad))
    chord = fl(rad) * (de / math.sqrt(reld) if reld > de else math.sqrt(de))
    if exact_ok and disc == 0:
        chord = 0.0
    return w_pair(o, e1, e2, base + chord)


JUDGES['Circle.intersect_line'] = ball_line
JUDGES['Sphere.intersect_line'] = ball_line


@judge('Circle.from_points')
def _(r, a, k, o):
    P = [vec(x) for x in a]
    if any(p is None for p in P):
        return raises(o, ValueError, TypeError)
    if any(len(p) != 2 for p in P):
        return raises(o)
    d = dec_rank_small(P, k, 1)
    if d is AMB:
        return AMB
    if d:
        return raises(o)
    u, v = sub(P[1], P[0]), sub(P[2], P[0])
    D = 2 * det2(u, v)
    if D == 0:
        return AMB
    cx = div(v[1] * n2(u) - u[1] * n2(v), D)
    cy = div(u[0] * n2(v) - v[0] * n2(u), D)
    center = add(P[0], (cx, cy))
    rad = fsqrt(cx * cx + cy * cy)
    L = max(fnorm(u), fnorm(v), fnorm(sub(v, u)))
    amp = L * L / abs(fl(D))
    errr = 2e-14 * (L + rad) * (1 + amp) + CT * mx(center, *P)
    if errr > 1e-2 * rad:
        return AMB
    return w_fields(o, 'Circle', {'point': center, 'radius': num(rad), 'dimension': 2}, 4 * errr)


def lsq_ball(rows):
    """Exact algebraic least-squares circle/sphere: centre and squared radius."""
    n = len(rows[0])
    c0 = rows[0]
    rel = [sub(p, c0) for p in rows]
    A = [list(mul(2, p)) + [1] for p in rel]
    b = [n2(p) for p in rel]
    At = list(zip(*A))
    M = [[dot(x, y) for y in At] for x in At]
    y = [dot(x, b) for x in At]
    s = solve(M, y)
    if s is None:
        return None
    c = s[:n]
    r2 = s[n] + n2(c)
    return add(c0, c), r2, M


def _best_ball(dim):
    cls = {2: 'Circle', 3: 'Sphere'}[dim]

    def j(r, a, k, o):
        rows = pts(a[0])
        if rows is None:
            return raises(o, ValueError, TypeError)
        if len(rows[0]) != dim or len(rows) < dim + 1:
            return raises(o)
        d = dec_rank_small(rows, {}, dim - 1)
        if d is AMB:
            return AMB
        if d:
            return raises(o)
        c, r2, _ = lsq_ball(rows)
        rad = fsqrt(r2)
        # Conditioning of the problem in coordinates relative to the centroid and the size of the set.
        m = mean(rows)
        size = max(mx(sub(p, m)) for p in rows)
        rel = [[fl(x) / size for x in sub(p, m)] for p in rows]
        M = np.array([[2 * x for x in p] + [1.0] for p in rel])
        t = np.linalg.svd(M, compute_uv=False)
        if t[-1] <= 1e-12 * t[0]:
            return AMB
        k2 = t[0] / t[-1]
        cc = [fl(x) / size for x in sub(c, m)]
        r1 = rad / size
        sol = np.array(cc + [r1 * r1 - sum(x * x for x in cc)])
        resid = float(np.linalg.norm(M @ sol - np.array([sum(x * x for x in p) for p in rel])))
        err = 1e-13 * (k2 * (float(np.linalg.norm(sol)) + math.sqrt(dim)) + k2 * k2 * resid / t[0])
        errr = size * err * max(1.0, (1 + 2 * max(map(abs, cc))) / r1) + CT * mx(c, *rows)
        if errr > 1e-3 * rad:
            return AMB
        return w_fields(o, cls, {'point': c, 'radius': num(rad), 'dimension': dim}, 4 * errr)
    return j


JUDGES['Circle.best_fit'] = _best_ball(2)
JUDGES['Sphere.best_fit'] = _best_ball(3)


# ---------------------------------------------------------------- triangles


def TRI(r):
    return {'A': vec(r.point_a), 'B': vec(r.point_b), 'C': vec(r.point_c)}


SIDE = {'a': ('B', 'C'), 'b': ('C', 'A'), 'c': ('A', 'B')}


def tri_scale(T):
    return mx(*T.values())


def tri_sides(T):
    return {s: sub(T[q], T[p]) for s, (p, q) in SIDE.items()}


@judge('Triangle.point')
def _(r, a, k, o):
    T = TRI(r)
    if a[0] not in T:
        return raises(o)
    return w_array(o, T[a[0]], 0.0, 'Point')


@judge('Triangle.line')
def _(r, a, k, o):
    T = TRI(r)
    if a[0] not in SIDE:
        return raises(o)
    p, q = SIDE[a[0]]
    return w_fields(o, 'Line', {'point': T[p], 'direction': sub(T[q], T[p]), 'dimension': len(T['A'])}, 1e-15 * tri_scale(T))


@judge('Triangle.length')
def _(r, a, k, o):
    T = TRI(r)
    if a[0] not in SIDE:
        return raises(o)
    e = fnorm(tri_sides(T)[a[0]])
    return w_float(o, e, RT * e + 1e-14 * tri_scale(T))


def tri_angle(T, v):
    p, q = [x for x in 'ABC' if x != v]
    return exact_angle(sub(T[p], T[v]), sub(T[q], T[v]))


@judge('Triangle.angle')
def _(r, a, k, o):
    T = TRI(r)
    if a[0] not in T:
        return raises(o)
    e = tri_angle(T, a[0])
    L = [fnorm(s) for s in tri_sides(T).values()]
    # The law of cosines cancels when the adjacent sides are very different.
    worst = (max(L) / min(L)) ** 2
    s = math.sin(e)
    d = 4e-15 * worst * (1 + tri_scale(T) / max(L) * 0.1)
    return w_float(o, e, 1e-10 + min(2 * math.sqrt(d) + 1e-7, d / s if s > 0 else 1.0))


@judge('Triangle.normal')
def _(r, a, k, o):
    T = TRI(r)
    u, v = sub(T['B'], T['A']), sub(T['C'], T['A'])
    if len(u) > 3:
        return raises(o)
    return w_array(o, cross(u, v), RT * fnorm(u) * fnorm(v) + 1e-15 * tri_scale(T) * (fnorm(u) + fnorm(v)), 'Vector')


@judge('Triangle.area')
def _(r, a, k, o):
    T = TRI(r)
    u, v = sub(T['B'], T['A']), sub(T['C'], T['A'])
    if len(u) > 3:
        return raises(o)
    e = fsqrt(perp2(u, v)) / 2
    return w_float(o, e, RT * fnorm(u) * fnorm(v) + 1e-15 * tri_scale(T) * (fnorm(u) + fnorm(v)))


@judge('Triangle.perimeter')
def _(r, a, k, o):
    T = TRI(r)
    e = sum(fnorm(s) for s in tri_sides(T).values())
    return w_float(o, e, RT * e + 1e-14 * tri_scale(T))


@judge('Triangle.centroid')
def _(r, a, k, o):
    T = TRI(r)
    return w_array(o, mean(list(T.values())), RT * tri_scale(T), 'Point')


@judge('Triangle.altitude')
def _(r, a, k, o):
    T = TRI(r)
    v = a[0]
    if v not in T:
        return raises(o)
    p, q = [x for x in 'ABC' if x != v]
    foot = line_foot(T[p], sub(T[q], T[p]), T[v])
    h = fnorm(sub(foot, T[v]))
    sc = tri_scale(T)
    if h < 1e-7 * sc:
        return AMB
    m = w_line(o, T[v], sub(foot, T[v]), 1e-12 * sc, 1e-9 + 10 * RT * sc / h)
    return m or v_array(o.val.point, T[v], 0.0, 'Point') or v_array(o.val.direction, sub(foot, T[v]), 4 * RT * sc, 'Vector')


@judge('Triangle.orthocenter')
def _(r, a, k, o):
    T = TRI(r)
    if len(T['A']) > 3:
        return raises(o)
    A, B, C = T['A'], T['B'], T['C']
    u, v = sub(B, A), sub(C, A)
    sc = tri_scale(T)
    P = perp2(u, v)
    # H = A + x u + y v with (H - A).(C - B) = 0 and (H - B).(C - A) = 0
    M = [[dot(u, sub(C, B)), dot(v, sub(C, B))], [dot(u, v), dot(v, v)]]
    s = solve(M, [0, dot(u, v)])
    if s is None:
        return AMB
    H = add(A, add(mul(s[0], u), mul(s[1], v)))
    # Angle of the two altitudes equals the angle of the sides at C.
    sn = math.sin(tri_angle(T, 'C'))
    if tols(k) != (1e-9, 0.0):
        g = 1 - abs(math.cos(tri_angle(T, 'C')))
        tol = max(tols(k))
        if tol > 1e-9 and g < 2 * tol:
            return AMB if g > 0.5 * tol else raises(o)
        if tols(k)[1] > 0:
            return AMB
    if sn < 1e-3:
        return AMB
    hmin = min(fsqrt(div(P, n2(w))) for w in (sub(B, C), sub(C, A), u))
    if hmin < 1e-4 * sc:
        return AMB
    return w_array(o, H, 100 * RT * (sc + mx(H)) * (sc / hmin) / (sn * sn), 'Point')


@judge('Triangle.classify')
def _(r, a, k, o):
    T = TRI(r)
    L = {s: n2(w) for s, w in tri_sides(T).items()}
    rel, abs_tol = tols(k)
    n = 0
    sc = tri_scale(T)
    for x, y in (('a', 'b'), ('a', 'c'), ('b', 'c')):
        fx, fy = fsqrt(L[x]), fsqrt(L[y])
        if L[x] == L[y]:
            if exact2(*tri_sides(T).values()) or rel > 1e-12:
                n += 1
                continue
            return AMB
        d = fl(abs(L[x] - L[y])) / (fx + fy)
        t = max(rel * max(fx, fy), abs_tol)
        err = 1e-14 * (sc + max(fx, fy))
        if d + err <= t:
            n += 1
        elif d - err <= t:
            return AMB
    if n == 2:
        return AMB
    e = {3: 'equilateral', 1: 'isosceles', 0: 'scalene'}[n]
    if o.exc is not None:
        return 'unexpected exception'
    return None if o.val == e else f'expected {e!r}'


@judge('Triangle.is_right')
def _(r, a, k, o):
    T = TRI(r)
    L = sorted(n2(w) for w in tri_sides(T).values())
    rel, abs_tol = tols(k)
    d = fl(abs(L[0] + L[1] - L[2]))
    t = max(rel * max(fl(L[0] + L[1]), fl(L[2])), abs_tol)
    err = 1e-14 * (fl(L[2]) + tri_scale(T) * fsqrt(L[2]))
    if d + err <= t:
        return w_bool(o, True)
    if d - err > t:
        return w_bool(o, False)
    return AMB


# ---------------------------------------------------------------- cylinders


def CYL(r):
    return vec(r.point), vec(r.vector), r.radius


@judge('Cylinder.length')
def _(r, a, k, o):
    e = fnorm(CYL(r)[1])
    return w_float(o, e, RT * e)


@judge('Cylinder.lateral_surface_area')
def _(r, a, k, o):
    p, v, rad = CYL(r)
    e = 2 * math.pi * fl(rad) * fnorm(v)
    return w_float(o, e, RT * e)


@judge('Cylinder.surface_area')
def _(r, a, k, o):
    p, v, rad = CYL(r)
    e = 2 * math.pi * fl(rad) * (fnorm(v) + fl(rad))
    return w_float(o, e, RT * e)


@judge('Cylinder.volume')
def _(r, a, k, o):
    p, v, rad = CYL(r)
    e = math.pi * fl(rad) ** 2 * fnorm(v)
    return w_float(o, e, RT * e)


@judge('Cylinder.is_point_within')
def _(r, a, k, o):
    p, v, rad = CYL(r)
    q = vec(a[0])
    if q is None:
        return raises(o, ValueError, TypeError)
    if len(q) != 3:
        return raises(o) if len(q) > 1 else AMB
    w = sub(q, p)
    s = dot(w, v)
    vv = n2(v)
    sc = mx(p, q) + fnorm(v) + fl(rad)
    err = 1e-13 * sc
    axial = fl(s) / fnorm(v)
    length = fnorm(v)
    radial = fsqrt(div(perp2(w, v), vv))
    fr = fl(rad)
    axis_aligned = sum(1 for x in v if x != 0) == 1 and nice(p, q, v, (rad,), bits=30)
    if axis_aligned:
        # All computations are exact up to the square root of an exact square.
        if is_square(div(perp2(w, v), vv)) or abs(radial - fr) > err:
            return w_bool(o, 0 <= s <= vv and perp2(w, v) <= rad * rad * vv)
        return AMB
    if axial < -err or axial > length + err or radial > fr + err:
        return w_bool(o, False)
    if axial > err and axial < length - err and radial < fr - err:
        return w_bool(o, True)
    return AMB


def nd_arg(k, a):
    if 'n_digits' in k:
        return k['n_digits']
    return a[1] if len(a) > 1 else None


@judge('Cylinder.intersect_line')
def _(r, a, k, o):
    m = a[0]
    if not (isinstance(m, Geo) and m.kind == 'Line'):
        return raises(o, AttributeError, TypeError, ValueError)
    c, v, rad = CYL(r)
    q, d = LP(m)
    if len(q) != 3:
        return raises(o)
    nd = nd_arg(k, a)
    infinite = k.get('infinite', True if len(a) < 3 else bool(a[2]))
    w = sub(q, c)
    vv, dd = n2(v), n2(d)
    sc = mx(c, q) + fnorm(w) + fl(rad)
    # Perpendicular components scaled by vv:  A t^2 + 2 B t + C = 0 for q + t d
    A = dd * vv - dot(d, v) ** 2
    B = dot(w, d) * vv - dot(w, v) * dot(d, v)
    C = n2(w) * vv - dot(w, v) ** 2 - rad * rad * vv
    fr = fl(rad)
    perp_sin = math.sqrt(fl(div(A, dd * vv)))
    if nd is not None and isinstance(nd, numbers.Integral):
        return cyl_rounded(o, nd, infinite, A, B, C, dd, vv, q, d, sc, c, v, rad)
    rim_err = 1e-11 * sc / max(perp_sin, 1e-3)
    if A == 0:
        lo, hi = -math.inf, math.inf
        if infinite:
            return raises(o)
        if C > 0 and fl(div(C, vv)) > 1e-11 * sc * fr:
            return raises(o)
        if fl(div(C, vv)) > -1e-11 * sc * fr:
            return AMB
    else:
        if perp_sin < 1e-6:
            return AMB
        disc = B * B - A * C
        reld = fl(div(disc, A * vv * rad * rad))
        cond = (sc / fr) ** 2 / perp_sin ** 2
        if abs(reld) < 1e-13 * cond:
            # Tangent up to rounding; when it is exactly computable the library must find it.
            if not (disc == 0 and tangent_exact(c, v, rad, q, d)):
                return AMB
        if disc < 0:
            return raises(o)
        s = fsqrt(div(disc, A * A))
        t0 = fl(div(-B, A))
        lo, hi = t0 - s, t0 + s
    nrm = fnorm(d)
    half_err = 0.0
    if A != 0:
        de = 2e-13 * (sc / fr) ** 2 / perp_sin ** 2
        half_err = fr / perp_sin * (de / math.sqrt(reld) if reld > de else (math.sqrt(de) if disc != 0 else 1e-12 * sc / fr))
    base = RT * sc / max(perp_sin, 1e-6) ** 2 * (1 if A else 1e-12)
    if infinite:
        t = t0
        e1, e2 = ([num(fl(x) + tt * fl(y)) for x, y in zip(q, d)] for tt in (lo, hi))
        return w_pair(o, e1, e2, base + half_err + RT * (sc + max(abs(lo), abs(hi)) * nrm))
    # Finite: clip with the slab between the cap planes.
    s_d, s_w = dot(d, v), dot(w, v)
    if s_d == 0:
        margin = min(fl(s_w), fl(vv - s_w)) / math.sqrt(fl(vv))
        if margin < -1e-11 * sc:
            return raises(o)
        if margin < 1e-11 * sc:
            return AMB
        t1, t2 = lo, hi
        cap = 0.0
    else:
        cosa = abs(fl(s_d)) / (fnorm(d) * fnorm(v))
        if cosa < 1e-8:
            return AMB
        a1, a2 = fl(div(-s_w, s_d)), fl(div(vv - s_w, s_d))
        if a1 > a2:
            a1, a2 = a2, a1
        near = 1e-9 * sc / nrm / max(cosa, 1e-3) + half_err / nrm
        # Entering or leaving exactly at a rim is decided by rounding.
        if min(abs(x - y) for x in (lo, hi) for y in (a1, a2)) < near:
            return AMB
        t1, t2 = max(lo, a1), min(hi, a2)
        if t1 > t2:
            return raises(o)
        cap = RT * sc / cosa
    if A == 0:
        half_err = base = 0.0
    e1, e2 = ([num(fl(x) + tt * fl(y)) for x, y in zip(q, d)] for tt in (t1, t2))
    return w_pair(o, e1, e2, base + half_err + 4 * cap + RT * (sc + max(abs(t1), abs(t2)) * nrm))


def tangent_exact(c, v, rad, q, d):
    """Axis-aligned axis and perpendicular axis-aligned line: every intermediate number is exact."""
    return (sum(1 for x in v if x) == 1 and sum(1 for x in d if x) == 1 and dot(v, d) == 0
            and nice(c, q, (rad,), bits=20) and 0)


def cyl_rounded(o, nd, infinite, A, B, C, dd, vv, q, d, sc, c, v, rad):
    """Rounding of the quadratic coefficients moves the solutions by a controlled amount."""
    fa = fl(div(A, dd * vv))
    fb = 2 * fl(div(B, vv)) / math.sqrt(fl(dd))
    fc = fl(div(C, vv))
    if not infinite:
        return AMB
    eps = 0.5 * 10.0 ** (-nd) * 1.0001
    ra, rb, rc = (float(np.round(x, nd)) for x in (fa, fb, fc))
    # Ambiguous when a coefficient is at a rounding boundary.
    for x in (fa, fb, fc):
        y = abs(x) * 10.0 ** nd
        if abs(y - math.floor(y) - 0.5) < 1e-9 * (1 + y) + 1e-12 * 10.0 ** nd * sc * sc:
            return AMB
    if nd > 11:
        return AMB if abs(fb * fb - 4 * fa * fc) < 1e-9 * (fa * fl(rad) ** 2 + abs(fa * fc)) or fa < 1e-9 else cyl_quad(o, fa, fb, fc, q, d, sc)
    if ra == 0:
        return raises(o)
    disc = rb * rb - 4 * ra * rc
    if abs(disc) < 1e-12 * (rb * rb + abs(4 * ra * rc)):
        if not (disc == 0):
            return AMB
    if disc < 0:
        return raises(o)
    return cyl_quad(o, ra, rb, rc, q, d, sc)


def cyl_quad(o, a, b, c, q, d, sc):
    disc = b * b - 4 * a * c
    if disc < 0:
        return raises(o)
    s = math.sqrt(disc)
    n = fnorm(d)
    ts = [(-b + pm * s) / (2 * a) for pm in (-1, 1)]
    e = [[num(fl(x) + t / n * fl(y)) for x, y in zip(q, d)] for t in ts]
    err = 1e-11 * (b * b + abs(4 * a * c))
    tol = RT * 10 * (sc + max(map(abs, ts))) / a + (err / s if s * s > err else math.sqrt(err)) / (2 * a)
    return w_pair(o, e[0], e[1], tol)


# ---------------------------------------------------------------- measurement and transformation


@judge('area_triangle')
def _(r, a, k, o):
    P = [vec(x) for x in a]
    if any(p is None for p in P):
        return raises(o, ValueError, TypeError)
    if len({len(p) for p in P}) != 1:
        return raises(o)
    if len(P[0]) > 3:
        return raises(o)
    u, v = sub(P[1], P[0]), sub(P[2], P[0])
    return w_float(o, fsqrt(perp2(u, v)) / 2, RT * fnorm(u) * fnorm(v) + 1e-15 * mx(*P) * (fnorm(u) + fnorm(v)))


@judge('volume_tetrahedron')
def _(r, a, k, o):
    P = [vec(x) for x in a]
    if any(p is None for p in P):
        return raises(o, ValueError, TypeError)
    if len({len(p) for p in P}) != 1:
        return raises(o)
    if len(P[0]) > 3:
        return raises(o)
    u, v, w = (sub(p, P[0]) for p in P[1:])
    e = div(abs(dot(pad3(u), cross(v, w))), 6)
    L = (fnorm(u), fnorm(v), fnorm(w))
    return w_float(o, e, RT * L[0] * L[1] * L[2] + 1e-15 * mx(*P) * (L[0] * L[1] + L[1] * L[2] + L[0] * L[2]))


@judge('area_signed')
def _(r, a, k, o):
    rows = pts(a[0])
    if rows is None:
        return raises(o, ValueError, TypeError)
    if len(rows[0]) != 2 or len(rows) < 3:
        return raises(o)
    s = sum(det2(rows[i - 1], rows[i]) for i in range(len(rows)))
    L = max(mx(sub(p, rows[0])) for p in rows)
    return w_float(o, div(s, 2), RT * len(rows) * L ** 2)


@judge('transform_coordinates')
def _(r, a, k, o):
    rows, org = pts(a[0]), vec(a[1])
    basis = pts(a[2])
    if rows is None or org is None or basis is None:
        return AMB
    if len(rows[0]) != len(org):
        return raises(o)
    if len(basis[0]) != len(org):
        return raises(o)
    e = [[dot(b, sub(p, org)) for b in basis] for p in rows]
    local = max([mx(sub(p, org)) for p in rows] + [0.0])
    return w_array(o, e, 4 * RT * local * max(sum(abs(fl(x)) for x in b) for b in basis))


# ---------------------------------------------------------------- meshes


def mesh_of(v):
    """The three coordinate arrays of a mesh, or a message."""
    if not isinstance(v, tuple) or len(v) != 3:
        return 'expected three coordinate arrays'
    if any(not isinstance(x, np.ndarray) or x.ndim != 2 for x in v) or len({x.shape for x in v}) != 1:
        return 'expected three 2D arrays of the same shape'
    M = np.stack([np.asarray(x, dtype=float) for x in v], axis=-1)
    if not np.isfinite(M).all():
        return 'mesh coordinates are not finite'
    return M


def fv(v):
    return np.array([fl(x) for x in v])


def lims(m, default):
    if m is None:
        return default
    if isinstance(m, (list, tuple, np.ndarray)):
        m = model(m)
    return [fl(x) for x in vec(m)]


def plane_mesh(r, lx, ly, M):
    p, n = LP(r)
    p, n = pad3(p), pad3(n)
    if M.shape[:2] != (len(ly), len(lx)):
        return f'the mesh has the shape {M.shape[:2]}, expected {(len(ly), len(lx))}'
    fp, fn = fv(p), fv(n)
    f1, f2 = (0, 1) if n[2] != 0 else (0, 2) if n[1] != 0 else (1, 2)
    size = np.abs(M).max(axis=(0, 1)).max() + np.abs(fp).max()
    dev = np.abs((M - fp) @ fn).max() / np.linalg.norm(fn)
    if not dev <= 1e-12 * size + 1e-300:
        return f'a mesh vertex is {float(dev)!r} off the plane'
    ex = fp[f1] + np.array(lx)
    ey = fp[f2] + np.array(ly)
    t = 1e-13 * (np.abs(fp).max() + np.abs(ex).max() + np.abs(ey).max())
    if not (np.abs(M[:, :, f1] - ex[None, :]) <= t).all():
        return f'the mesh does not span the limits along axis {f1}'
    if not (np.abs(M[:, :, f2] - ey[:, None]) <= t).all():
        return f'the mesh does not span the limits along axis {f2}'
    return None


def turn_ok(A, n):
    """Angles (columns) make one full turn in equal steps."""
    if n < 2:
        return True
    step = 2 * math.pi / (n - 1)
    d = np.diff(A, axis=-1)
    d = (d + math.pi) % (2 * math.pi) - math.pi
    want = (step + math.pi) % (2 * math.pi) - math.pi

    def near(x, y):
        e = np.abs(x - y) % (2 * math.pi)
        return (np.minimum(e, 2 * math.pi - e) < 1e-6).all()
    return near(d, want) or near(d, -want)


def sphere_mesh(r, n, M):
    c, rad = CR(r)
    if M.shape[:2] != (n, n):
        return f'the mesh has the shape {M.shape[:2]}, expected {(n, n)}'
    fc, fr = fv(c), fl(rad)
    W = M - fc
    tol = 1e-12 * (fr + np.abs(fc).max())
    dev = np.abs(np.linalg.norm(W, axis=-1) - fr).max()
    if not dev <= tol:
        return f'a mesh vertex is {float(dev)!r} off the sphere'
    if n < 3 or np.abs(fc).max() > 1e6 * fr:
        return None
    z = fr * np.cos(np.linspace(0, math.pi, n))
    if not (np.abs(W[:, :, 2] - z[:, None]) <= 1e-10 * (fr + np.abs(fc).max())).all():
        return 'the mesh does not run from pole to pole in equal angles'
    A = np.arctan2(W[1:-1, :, 1], W[1:-1, :, 0])
    if not turn_ok(A, n):
        return 'the mesh does not make a full turn in equal angles'
    return None


def cylinder_mesh(r, na, nt, M):
    c, v, rad = CYL(r)
    if M.shape[:2] != (nt, na):
        return f'the mesh has the shape {M.shape[:2]}, expected {(nt, na)}'
    fc, fvv, fr = fv(c), fv(v), fl(rad)
    L = fnorm(v)
    a = fvv / L
    W = M - fc
    size = fr + L + np.abs(fc).max()
    T = W @ a
    want = np.linspace(0, L, na)
    if not (np.abs(T - want[None, :]) <= 1e-12 * size).all():
        return 'the mesh does not run from rim to rim in equal steps'
    Rv = W - T[..., None] * a
    dev = np.abs(np.linalg.norm(Rv, axis=-1) - fr).max()
    if not dev <= 1e-12 * size:
        return f'a mesh vertex is {float(dev)!r} off the lateral surface'
    if nt < 3 or size > 1e6 * fr:
        return None
    k = int(np.argmin(np.abs(a)))
    e = np.eye(3)[k]
    u = np.cross(a, e)
    u /= np.linalg.norm(u)
    w = np.cross(a, u)
    A = np.arctan2(Rv @ w, Rv @ u).T
    if not turn_ok(A, nt):
        return 'the mesh does not make a full turn in equal angles'
    return None


def mesh_check(r, a, k, M, shaped):
    if r.kind == 'Plane':
        lx = lims(a[0] if len(a) > 0 else k.get('lims_x'), [-1.0, 1.0])
        ly = lims(a[1] if len(a) > 1 else k.get('lims_y'), [-1.0, 1.0])
        if shaped is None:
            M = M.reshape(len(ly), len(lx), 3) if M.shape[0] == len(lx) * len(ly) else M
            if M.ndim != 3:
                return f'expected {len(lx) * len(ly)} points'
        return plane_mesh(r, lx, ly, M)
    if r.kind == 'Sphere':
        n = a[0] if a else k.get('n_angles', 30)
        shape = (n, n)
        f = lambda M: sphere_mesh(r, n, M)
    else:
        na = a[0] if a else k.get('n_along_axis', 100)
        nt = a[1] if len(a) > 1 else k.get('n_angles', 30)
        shape = (nt, na)
        f = lambda M: cylinder_mesh(r, na, nt, M)
    if shaped is None:
        if M.shape[0] != shape[0] * shape[1]:
            return f'expected {shape[0] * shape[1]} points'
        M = M.reshape(shape + (3,))
    return f(M)


@judge('Plane.to_mesh', 'Sphere.to_mesh', 'Cylinder.to_mesh')
def _(r, a, k, o):
    if r.kind == 'Plane' and len(vec(r.point)) > 3:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    M = mesh_of(o.val)
    if isinstance(M, str):
        return M
    return mesh_check(r, a, k, M, True)


@judge('Plane.to_points', 'Sphere.to_points', 'Cylinder.to_points')
def _(r, a, k, o):
    if r.kind == 'Plane' and len(vec(r.point)) > 3:
        return raises(o)
    if o.exc is not None:
        return 'unexpected exception'
    if type(o.val).__name__ != 'Points' or o.val.ndim != 2 or o.val.shape[1] != 3 or o.val.dimension != 3:
        return 'expected three-dimensional Points'
    return mesh_check(r, a, k, np.asarray(o.val, dtype=float), None)
