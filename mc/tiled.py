"""
Large point sets made of many copies of a small one.

The exact specifications are too slow for a hundred thousand points; a set that repeats a small set N times needs none of that:
a per-point result is the result of the small set (which is judged against the exact specification), repeated, and a statistic
is that of the small set or N times as large.
"""
import numpy as np

from . import lib
from .interp import run_program

SIZES = [2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10007, 16385, 32769, 65535, 65536, 65537, 100003, 131073]


def close(a, b, slack):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f'has shape {a.shape}, not {b.shape}'
    bad = ~(np.abs(a - b) <= slack)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f'is {a[i]!r} at {i}, but {b[i]!r} for the same point in the small set ({int(bad.sum())} entries differ)'
    return None


def obj(spec):
    if spec is None:
        return None
    cls, p, v = spec
    return getattr(lib, cls)(p, v)


def run(case, S):
    """case: (kind, object or None, rows of the small set, number of points)"""
    kind, spec, rows, n = case
    rows = [list(r) for r in rows]
    small = np.array(rows, dtype=float)
    k = len(rows)
    reps = -(-n // k)
    exact = kind in ('sum', 'centroid', 'fit', 'fit_ball')
    n = reps * k if exact else n
    big = np.tile(small, (reps, 1))[:n]
    scale = float(np.abs(small).max()) or 1.0
    S.traces += 1
    S.transitions += 1
    S.state((kind, repr(spec), n, small.shape))
    S.outcome('tiled', kind)

    def tiled(x):
        x = np.asarray(x)
        return np.tile(x, (reps,) + (1,) * (x.ndim - 1))[:n]

    if kind in ('project_points', 'distance_points', 'distance_points_signed', 'transform_points'):
        base = [['new', spec[0], [{'P': spec[1]}, {'V': spec[2]}]], ['op', {'$': 0}, kind, [{'S': rows}], {}]]
        msg = run_program(base, S)
        if msg:
            return msg
        o = obj(spec)
        before = big.copy()
        msg = close(getattr(o, kind)(big), tiled(getattr(o, kind)(rows)), 1e-12 * scale)
        if not msg and not np.array_equal(big, before):
            msg = 'changed its argument'
        return msg and f'{spec[0]}.{kind} of {n} points {msg}'
    if kind == 'transform_coordinates':
        origin, basis = spec
        base = [['fn', kind, [{'S': rows}, {'P': origin}, [{'V': v} for v in basis]], {}]]
        msg = run_program(base, S)
        f = lib.transformation.transform_coordinates
        msg = msg or close(f(big, origin, basis), tiled(f(rows, origin, basis)), 1e-12 * scale * max(1, np.abs(basis).max()) * 10)
        return msg and f'transform_coordinates of {n} points {msg}'
    if kind == 'sum':
        base = [['new', spec[0], [{'P': spec[1]}, {'V': spec[2]}]], ['op', {'$': 0}, 'sum_squares', [{'S': rows}], {}]]
        msg = run_program(base, S)
        o = obj(spec)
        want = reps * float(o.sum_squares(rows))
        msg = msg or close(o.sum_squares(big), want, 1e-9 * abs(want) + 1e-12 * n * scale * scale)
        return msg and f'{spec[0]}.sum_squares of {n} points {msg}'
    if kind == 'centroid':
        base = [['new', 'Points', [{'S': rows}]]] + [['op', {'$': 0}, m, [], {}] for m in ('centroid', 'mean_center', 'normalize_distance', 'unique', 'are_collinear', 'are_coplanar')]
        msg = run_program(base, S)
        if msg:
            return msg
        a, b = lib.Points(rows), lib.Points(big)
        for what, x, y in (('centroid', b.centroid(), a.centroid()), ('mean_center', b.mean_center(), tiled(a.mean_center())),
                           ('normalize_distance', b.normalize_distance(), tiled(a.normalize_distance())),
                           ('mean_center(return_centroid=True)', b.mean_center(return_centroid=True)[1], a.centroid())):
            msg = close(x, y, 1e-10 * scale)
            if msg:
                return f'{what} of {n} points {msg}'
        u, v = b.unique(), a.unique()
        if sorted(u.tolist()) != sorted(v.tolist()):
            return f'unique of {n} points has {len(u)} rows, not {len(v)}'
        for what in ('are_concurrent', 'are_collinear', 'are_coplanar', 'affine_rank'):
            x, y = getattr(b, what)(tol=1e-6), getattr(a, what)(tol=1e-6)
            if x != y:
                return f'{what} of {n} points is {x}, not {y}'
        return None
    if kind == 'fit':
        cls = getattr(lib, spec)
        msg = run_program([['cm', spec, 'best_fit', [{'S': rows}], {}], ['cm', spec, 'best_fit', [{'S': rows}], {'return_error': True}]], S)
        if msg:
            return msg
        a, ea = cls.best_fit(rows, full_matrices=False, return_error=True)
        b, eb = cls.best_fit(big, full_matrices=False, return_error=True)
        msg = close(b.point, a.point, 1e-9 * scale)
        if msg:
            return f'the point of {spec}.best_fit of {n} points {msg}'
        if abs(abs(float(np.dot(a.vector.unit(), b.vector.unit()))) - 1) > 1e-9:
            return f'the direction of {spec}.best_fit of {n} points is {b.vector}, that of the same points once is {a.vector}'
        if abs(eb - reps * ea) > 1e-7 * reps * scale * scale * k:
            return f'the error of {spec}.best_fit of {n} points is {eb}, not {reps} times {ea}'
        return None
    if kind == 'fit_ball':
        cls = getattr(lib, spec)
        msg = run_program([['cm', spec, 'best_fit', [{'S': rows}], {}]], S)
        if msg:
            return msg
        a, b = cls.best_fit(rows), cls.best_fit(big)
        msg = close(b.point, a.point, 1e-7 * scale) or close(b.radius, a.radius, 1e-7 * scale)
        return msg and f'{spec}.best_fit of {n} points {msg}'
    raise ValueError(kind)


SMALL = [[3, -2, 1], [0, 4, -1], [-5, 1, 2], [2, 2, 2], [1, -3, 0], [4, 0, -4], [-1, -1, 5]]


def rows(k, dim):
    return [((r * 2)[i % 3:] + r)[:dim] for i, r in enumerate(SMALL[:k])]


def gen_points(kinds, tier):
    """Per-point measurements of lines and planes: every size x sets of 1, 3 and 7 points x dimensions 2 and 3."""
    def g():
        for n in SIZES:
            for dim in (3, 2) if n < 20000 or tier == 'thorough' else (3,):
                for k in (7, 1, 3) if n < 6000 or tier == 'thorough' else (7,):
                    for cls, names in kinds.items():
                        for kind in names:
                            m = min(n, 10007) if kind in ('sum', 'distance_points') and cls == 'Line' and tier == 'quick' else n
                            yield [kind, [cls, [1, -2, 3][:dim], [2, -1, 2][:dim]], rows(k, dim), m]
    return g


def gen_sets(kinds, tier):
    def g():
        for n in SIZES:
            for kind, spec in kinds:
                for k in (7, 4):
                    yield [kind, spec, rows(k, 2 if spec == 'Circle' else 3), n]
        if tier == 'thorough':
            for n in SIZES:
                for kind, spec in kinds:
                    yield [kind, spec, rows(5, 2 if spec == 'Circle' else 3), n]
    return g


def gen_transform(tier):
    def g():
        for n in SIZES:
            for dim in (3, 2, 1):
                for basis in ([[1, 2, 2][:dim]], [[1, 0, 0][:dim], [0, -1, 2][:dim] if dim > 1 else [2]], [[1, 1, 1][:dim], [0, 0, 3][:dim] if dim > 2 else [1] * dim, [2, 0, 0][:dim]]):
                    yield ['transform_coordinates', [[1, -2, 3][:dim], basis], rows(7, dim), n]
    return g


BOUNDS = 'sets of 2048 .. 131073 points made of copies of a small set that is judged against the exact specification'
