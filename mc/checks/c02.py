"""C02: composite objects exist only in a valid state and hold exactly their inputs."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

BADV = [[{'f': 'nan'}, 1], [1, {'f': 'inf'}], [[1, 2]], [], 3, [[1], [2]]]


def small(dim):
    return lattice(dim, {1: (-2, -1, 0, 1, 3), 2: (-1, 0, 1, 2), 3: (-1, 0, 2)}.get(dim, (0, 1))) if dim <= 3 else vecs_dim(dim) + [[0] * dim]


def gen_line_plane(tier):
    def g():
        for cls in ('Line', 'Plane'):
            for dim in range(1, 7):
                L = small(dim)
                for p, d in product(L if dim < 3 else L[::2], L):
                    yield [['new', cls, [P(p), V(d)]]]
            for a, b in product(range(1, 7), repeat=2):
                for p in ([1] * a, [0] * a, list(range(a))):
                    for d in ([1] * b, [0] * b, [0] * (b - 1) + [2], [3] + [0] * (b - 1)):
                        yield [['new', cls, [P(p), V(d)]]]
            for bad in BADV:
                for good in ([1, 2], [1, 2, 3]):
                    yield [['new', cls, [bad, V(good)]]]
                    yield [['new', cls, [P(good), bad]]]
            for s in SCALES:
                for dim in (1, 2, 3):
                    for d in lattice(dim, (-1, 0, 2)):
                        yield xform([['new', cls, [P([1, 2, 3][:dim]), V(d)]]], scale=s)
                        yield [['new', cls, [P([1, 2, 3][:dim]), V([s * x for x in d])]]]
    return g


def gen_segments(tier):
    def g():
        for dim in range(1, 7):
            L = small(dim)
            for p, q in product(L, L):
                yield [['new', 'LineSegment', [P(p), P(q)]], ['cm', 'Line', 'from_points', [P(p), P(q)], {}]]
        for a, b in product(range(1, 7), repeat=2):
            for x, y in ((1, 1), (1, 2), (0, 0), (0, 1)):
                yield [['new', 'LineSegment', [P([x] * a), P([y] * b)]], ['cm', 'Line', 'from_points', [P([x] * a), P([y] * b)], {}]]
        # endpoints that are nearly equal: a relative tolerance of 1e-9 in every coordinate
        for base in ([1, 1], [1, 0], [1000, 3], [1e-3, 2.5], [3, 4, 5], [0, 0, 7], [-8, 1]):
            for i in range(len(base)):
                for e in LADDER:
                    for sg in (1, -1):
                        q = list(base)
                        q[i] = q[i] * (1 + sg * e) if q[i] else sg * e
                        yield [['new', 'LineSegment', [P(base), P(q)]]]
                        for s in (2.0 ** -30, 2.0 ** 30):
                            yield xform([['new', 'LineSegment', [P(base), P(q)]]], scale=s)
        for bad in BADV:
            for cm in (['new', 'LineSegment'], ['cm', 'Line', 'from_points']):
                if bad == 3 and cm[0] == 'cm':
                    continue  # NumPy broadcasting
                for args in ([bad, P([1, 2])], [P([1, 2]), bad]):
                    yield [cm + [args]] if cm[0] == 'new' else [cm + [args, {}]]
        for s in SCALES:
            for p, q in product(lattice(2, (-1, 0, 2)), repeat=2):
                yield xform([['new', 'LineSegment', [P(p), P(q)]], ['cm', 'Line', 'from_points', [P(p), P(q)], {}]], scale=s)
        for sl in (0, 1, -2, 0.5, 1e6, -1e-6, 3.7):
            for b in (0, 1, -3, 0.25, 1e3, -1e-5):
                yield [['cm', 'Line', 'from_slope', [sl, b], {}]]
    return g


def gen_round(tier):
    def g():
        radii = [-1, -0.5, 0, 0.0, -0.0, {'f': 'nan'}, {'f': '-inf'}, 1, 2, 0.5, 1e-3, 1e-12, 1e12, 2.0 ** -60, 2.0 ** 60, 7, 10 ** 6, -1e-15, 5e-324]
        for cls in ('Circle', 'Sphere'):
            for dim in range(1, 7):
                L = small(dim) if dim <= 3 else vecs_dim(dim)[:5]
                for p in L:
                    for r in radii:
                        yield [['new', cls, [P(p), r]]]
                        if not isinstance(r, dict) and float(r).is_integer():
                            for rep in ('int64', 'float64', 'int32'):
                                yield [['new', cls, [P(p), {'R': r, 'rep': rep}]]]
            for bad in BADV:
                yield [['new', cls, [bad, 1]]]
        for m in ('new', 'cm'):
            for a, b in product(range(1, 6), repeat=2):
                for p in ([1, 2, 3, 4, 5][:a], [0] * a):
                    for v in ([1] * b, [0] * b, [0] * (b - 1) + [2]):
                        for r in (1, 0, -2, 0.5):
                            yield [['new', 'Cylinder', [P(p), V(v), r]]] if m == 'new' else [['cm', 'Cylinder', 'from_points', [P(p), P(v), r], {}]]
            for p in lattice(3, (-1, 0, 2)):
                for v in lattice(3, (-1, 0, 2)):
                    for r in (1, 2.5, 0, {'f': 'nan'}) if (p[0] + v[1]) % 3 == 0 else (3,):
                        yield [['new', 'Cylinder', [P(p), V(v), r]]] if m == 'new' else [['cm', 'Cylinder', 'from_points', [P(p), P(v), r], {}]]
            for s in SCALES:
                for v in lattice(3, (-1, 0, 2)):
                    pr = [['new', 'Cylinder', [P([1, 2, 3]), V(v), R(2)]]] if m == 'new' else [['cm', 'Cylinder', 'from_points', [P([1, 2, 3]), P(v), R(2)], {}]]
                    yield xform(pr, scale=s)
    return g


def tri_prog(a, b, c, planes=True):
    s = [['new', 'Triangle', [P(a), P(b), P(c)]]]
    if planes:
        s.append(['cm', 'Plane', 'from_points', [P(a), P(b), P(c)], {}])
        s.append(['cm', 'Circle', 'from_points', [P(a), P(b), P(c)], {}])
    return s


def gen_triangles(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals in ((1, (-1, 0, 1, 2)), (2, (-1, 0, 1, 2, 4) if big else (-1, 0, 1, 3)), (3, (0, 1, 3) if big else (0, 2)), (4, (0, 1))):
            L = lattice(dim, vals)
            for t in product(L, L, L):
                yield tri_prog(*t)
        for dim in (4, 5, 6):
            L = vecs_dim(dim)[:12]
            for t in product(L, L, L):
                yield tri_prog(*t, planes=dim == 4)
        for s in SCALES:
            L = lattice(2, (0, 1, 3))
            for a, b in product(L, L):
                yield xform(tri_prog([1, 1], a, b), scale=s)
            L = lattice(3, (0, 2))
            for a, b in product(L, L):
                yield xform(tri_prog([1, 2, 0], a, b), scale=s)
        for off in (OFFS, [2.0 ** 20, -2.0 ** 22, 2.0 ** 18], [100, 100, 100]):
            L = lattice(2, (0, 1, 2, 3, 5))
            for a, b in product(L, L):
                yield xform(tri_prog([1, 1], a, b), offset=off)
            L = lattice(3, (0, 1, 2))
            for a, b in product(L, L):
                yield xform(tri_prog([1, 1, 1], a, b), offset=off)
        for dims in product((1, 2, 3, 4), repeat=3):
            yield tri_prog(*[[i + j * j for j in range(d)] for i, d in enumerate(dims)])
        for bad in BADV:
            yield tri_prog(bad, [1, 2], [3, 5]) if False else [['new', 'Triangle', [bad, P([1, 2]), P([3, 5])]]]
            yield [['new', 'Triangle', [P([1, 2]), bad, P([3, 5])]]]
            yield [['new', 'Triangle', [P([1, 2]), P([3, 5]), bad]]]
        # thin triangles
        for e in LADDER:
            for p in ([0, 0], [3, 1], [-2, 5]):
                for d in ([1, 0], [0, 1], [1, 1], [2, -1]):
                    q = [p[0] + 2 * d[0], p[1] + 2 * d[1]]
                    m = [p[0] + d[0] - e * d[1], p[1] + d[1] + e * d[0]]
                    yield tri_prog(p, q, m)
                    yield tri_prog(m, p, q)
    return g


def gen_vectors(tier):
    def g():
        for dim in (1, 2, 3):
            L = lattice(dim, (-1, 0, 1, 2) if dim < 3 else (-1, 0, 2))
            for u, v in product(L, L):
                yield [['cm', 'Plane', 'from_vectors', [P([1, 2, 3][:dim]), V(u), V(v)], {}]]
        for u, v in product(nonzero(lattice(3, (0, 1, 2))), repeat=2):
            for s in SCALES_MID:
                yield xform([['cm', 'Plane', 'from_vectors', [P([1, -2, 3]), V(u), V(v)], {}]], scale=s)
            for kw in ({'rel_tol': 1e-2}, {'abs_tol': 0.1}, {'abs_tol': 1.0}, {'rel_tol': 1e-12}):
                yield [['cm', 'Plane', 'from_vectors', [P([1, -2, 3]), V(u), V(v)], kw]]
        for a, b, c in product(range(1, 5), repeat=3):
            yield [['cm', 'Plane', 'from_vectors', [P([1] * a), V(list(range(1, b + 1))), V([2] + [3] * (c - 1))], {}]]
        for tol in (1e-9, 1e-3, 0.5, 1.5, 4):
            for a, b in product(lattice(2, (0, 1, 2)), repeat=2):
                yield [['cm', 'Plane', 'from_points', [P([0, 0, 1]), P(a + [1]), P(b + [0])], {'tol': tol}]]
                yield [['cm', 'Circle', 'from_points', [P([0, 1]), P(a), P(b)], {'tol': tol}]]
    return g


def EXPLORE(tier):
    return [
        Exploration('line_plane', gen_line_plane(tier), bounds='all point/direction pairs of small lattices, dimensions 1-6, mixed dimensions, invalid inputs, ten scales'),
        Exploration('segments', gen_segments(tier), bounds='all endpoint pairs of small lattices, dimensions 1-6, nearly equal endpoints, ten scales, slopes'),
        Exploration('round', gen_round(tier), bounds='circles, spheres, cylinders with all centres/axes of the lattice and 19 radii, mixed dimensions'),
        Exploration('triangles', gen_triangles(tier), bounds='all point triples of lattices in dimensions 1-4, structured in 5-6, scales, offsets, thin triangles'),
        Exploration('vectors', gen_vectors(tier), bounds='plane spanned by all vector pairs, tolerances'),
    ]
