"""C26: coordinate transforms and parametrisations are exact and consistent."""
from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def tc(rows, o, vs):
    return [['fn', 'transform_coordinates', [S(rows), P(o), [V(v) for v in vs]], {}],
            ['new', 'Points', [S(rows)]], ['fn', 'transform_coordinates', [ref(1), P(o), {'t': [V(v) for v in vs]}], {}],
            ['fn', 'transform_coordinates', [S(rows), P(o), {**S(vs), 'rep': 'float64'}], {}]]


def line(p, d, ts, rows):
    s = [['new', 'Line', [P(p), V(d)]]]
    for t in ts:
        i = len(s)
        s += [['op', ref(0), 'to_point', [], {'t': t}], ['op', ref(0), 'transform_points', [[ref(i)]], {}], ['op', ref(0), 'contains_point', [ref(i)], {'abs_tol': 1e-6}]]
    s += [['op', ref(0), 'to_point', [], {}], ['op', ref(0), 'transform_points', [S(rows)], {}]]
    s += [['new', 'Points', [S(rows)]], ['op', ref(0), 'transform_points', [ref(len(s))], {}]]
    return s


def gen_transform(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals in ((1, (-2, 0, 1, 3)), (2, (-1, 0, 2)), (3, (0, 1) if not big else (-1, 0, 2))):
            L = lattice(dim, vals)
            basis = [[1 if i == j else 0 for j in range(dim)] for i in range(dim)] + [[1] * dim, [-(i + 1) for i in range(dim)], [2] + [0] * (dim - 1)]
            for n in (1, 2, 3, 4):
                rows = spread(n, dim)
                for o in L:
                    for m in (1, 2, 3, 4):
                        for vs in product(basis, repeat=m) if m <= (3 if dim < 3 or big else 2) else [basis[:m], basis[::-1][:m], [basis[i % 2] for i in range(m)]]:
                            yield tc(rows, o, list(vs))
            for rows in product(L, repeat=2):
                yield tc(list(rows), L[-1], basis[:2])
        # rigid frames with irrational-free entries
        F = [[3 / 5, 4 / 5, 0], [-4 / 5, 3 / 5, 0], [0, 0, 1]]
        for rows in (spread(3, 3), spread(1, 3), spread(7, 3)):
            for o in lattice(3, (-1, 0, 2)):
                yield tc(rows, o, F)
                yield tc(rows, o, F[:2])
                yield tc(rows, o, F[::-1])
                for far in ([1e5, -3e6, 2e5], [2.0 ** 40, 2.0 ** 41, -2.0 ** 40], [3e12, 0, -1e9]):  # the offsets stay exact
                    yield tc([[a + f for a, f in zip(r, far)] for r in rows], [a + f for a, f in zip(o, far)], F)
        for n in SIZES_SMALL:
            for dim in (1, 2, 3, 4, 5, 6):
                for m in (1, 2, 3, 5):
                    if n <= 130 or dim in (2, 3):
                        yield tc(spread(n, dim), spread(2, dim)[1], spread(m + 2, dim)[2:])
        for n in range(1, 9):  # square in every pair of sizes
            for d in range(1, 9):
                for m in range(1, 9):
                    yield tc(spread(n, d), [1] * d, spread(m + 1, d)[1:])
        # mismatched dimensions
        for a, b, c in product((1, 2, 3, 4), repeat=3):
            if not a == b == c:
                yield tc(spread(2, a), [1] * b, spread(2, c))
                yield tc(spread(c, a), [1] * b, spread(b, c))
        for s in SCALES + [0.1]:
            for dim in (2, 3):
                yield xform(tc(spread(4, dim), [1] * dim, spread(4, dim)[2:]), scale=s)
                yield xform(tc(spread(4, dim), [1] * dim, spread(4, dim)[2:]), scale=s, vscale=1)
        # basis vectors of almost unit length, and bases that are almost orthogonal
        for s in NEAR_ONE:
            for dim in (1, 2, 3):
                for b in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, -1]]):
                    b = [v[:dim] for v in b[:dim]]
                    yield tc([[s * x for x in r] for r in spread(4, dim)], [1] * dim, [[s * x for x in v] for v in b])
                    yield tc(spread(4, dim), [1] * dim, [[s * x for x in v] for v in b])
                    yield tc(spread(4, dim), [1] * dim, [[s * x for x in b[0]]] + b[1:])
                    if dim > 1:
                        yield tc(spread(4, dim), [1] * dim, [[b[0][0], b[0][1] + s - 1] + b[0][2:]] + b[1:])
                        yield tc(spread(4, dim), [1] * dim, [b[0], [b[1][0] + s - 1, b[1][1]] + b[1][2:]] + b[2:])
        for o in (OFFS[:3], [2.0 ** 30, 2.0 ** 28, -2.0 ** 29], [0.1, -0.7, 0.3], *FAROFF):
            for dim in (1, 2, 3):
                yield xform(tc(spread(4, dim), [1] * dim, spread(4, dim)[2:]), offset=o)
    return g


def gen_line(tier):
    big = tier == 'thorough'

    def g():
        T = [0, 1, -1, 2, 0.5, -7, 100, 1e-3, 3.7]
        for dim, vals in ((1, (-3, -1, 0, 1, 2, 5)), (2, (-3, -2, -1, 0, 1, 2, 4)), (3, (-1, 0, 1, 2) if big else (-1, 0, 2))):
            for d in nonzero(lattice(dim, vals)):
                for p in ([0] * dim, [1, -2, 3][:dim], [-4, 0, 1][:dim]):
                    yield line(p, d, T, spread(5, dim))
        for dim in (4, 5, 6):
            for d in vecs_dim(dim):
                yield line([1, -2, 3, 0, 5, -1][:dim], d, T, spread(5, dim))
        for n in SIZES_SMALL:
            for dim in (1, 2, 3, 4):
                yield line([1, -2, 3, 0][:dim], [2, -1, 2, 3][:dim], [3], spread(n, dim))
        for n in range(1, 10):
            yield line(spread(1, n)[0], [1] * n, [3], spread(n, n))
        for s in SCALES + [0.1, 3.7]:
            for d in ([1, 2, 2], [0, 0, -3], [1, 1, 1]):
                yield xform(line([1, -2, 3], d, T, spread(4, 3)), scale=s)
                yield xform(line([1, -2, 3], d, T, spread(4, 3)), vscale=s)
        for o in (OFFS[:3], [2.0 ** 30, 2.0 ** 28, -2.0 ** 29], [0.1, -0.7, 0.3], *FAROFF):
            for d in ([1, 2, 2], [0, 0, -3], [1, 1, 1]):
                yield xform(line([1, -2, 3], d, T, spread(4, 3)), offset=o)
        for k in (2, 6, 60, 100, 128, 1000, 2 ** 20, 10 ** 9):  # integers of one, fractions of the other
            for d in ([1, 2, 2], [0, 0, -3], [1, 0], [-2]):
                p = [0.25, -0.5, 0.1][:len(d)]
                yield line(p, [k * x for x in d], T, spread(4, len(d)))
                yield line([k * x for x in d], [p[-1]] + p[:-1], T, spread(4, len(d)))
        for a, b in product((1, 2, 3, 4), repeat=2):
            if a != b:
                yield [['new', 'Line', [P([1] * a), V([1] * a)]], ['op', ref(0), 'transform_points', [S(spread(3, b))], {}]]
    return g


def gen_slope(tier):
    def g():
        vals = [0, 1, -1, 2, -0.5, 3, -7, 0.1, 100, 1e-3, 1e6, -1e-6]
        for m, b in product(vals, repeat=2):
            s = [['cm', 'Line', 'from_slope', [m, b], {}]]
            for x in (0, 1, -2, 5):
                s += [['op', ref(0), 'contains_point', [P([x, m * x + b])], {'abs_tol': 1e-6 * max(1, abs(m), abs(b))}],
                      ['op', ref(0), 'distance_point', [P([x, m * x + b + 1])], {}], ['op', ref(0), 'side_point', [P([x, m * x + b + 1])], {}],
                      ['op', ref(0), 'side_point', [P([x, m * x + b - 1])], {}]]
            s += [['op', ref(0), 'to_point', [], {'t': 0}], ['op', ref(0), 'to_point', [], {'t': 1}]]
            yield s
            yield [['cm', 'Line', 'from_slope', [], {'slope': m, 'y_intercept': b}]]
        for bad in ({'f': 'nan'}, {'f': 'inf'}):
            yield [['cm', 'Line', 'from_slope', [bad, 1], {}]]
            yield [['cm', 'Line', 'from_slope', [1, bad], {}]]
    return g


def gen_cart(tier):
    big = tier == 'thorough'

    def g():
        for n in nonzero(lattice(3, range(-3, 4) if big else (-2, -1, 0, 1, 3))):
            for p in lattice(3, (-1, 0, 2)):
                yield [['new', 'Plane', [P(p), V(n)]], ['op', ref(0), 'cartesian', [], {}]]
        for n in nonzero(lattice(2, (-2, -1, 0, 1, 3))):
            for p in lattice(2, (-1, 0, 2)):
                yield [['new', 'Plane', [P(p), V(n)]], ['op', ref(0), 'cartesian', [], {}]]
        for d in (1, 4, 5, 6):
            for n in nonzero(lattice(1, (-2, 0, 1)) if d == 1 else vecs_dim(d)):
                yield [['new', 'Plane', [P([1, -2, 3, 0, 5, -1][:d]), V(n)]], ['op', ref(0), 'cartesian', [], {}]]
        # integer normals with common factors, and points with fractions
        for k in (2, 6, 10, 60, 100, 128, 1000, 2 ** 20, 10 ** 9):
            for n in ([1, 0, 2], [0, 0, -3], [1, -1, 1], [2, 5, 0], [1, 0]):
                for p in ([0.25, 0.5, -0.75], [1, 2, 3], [0.1, 0, -7], [1 / 3, 1e3, 1e-3]):
                    d = len(n)
                    yield [['new', 'Plane', [P(p[:d]), V([k * x for x in n])]], ['op', ref(0), 'cartesian', [], {}]]
                    yield [['new', 'Plane', [P([k * x for x in n]), V(p[:d])]], ['op', ref(0), 'cartesian', [], {}]]
        for s in SCALES + [0.1]:
            for n in ([1, 2, 2], [0, 0, -3], [1, -1, 1], [0, 5, 0]):
                a = [['new', 'Plane', [P([1, -2, 3]), V(n)]], ['op', ref(0), 'cartesian', [], {}]]
                yield xform(a, scale=s)
                yield xform(a, vscale=s)
                for o in (OFFS[:3], [0.1, -0.7, 0.3], *FAROFF):
                    yield xform(a, vscale=s, offset=o)
    return g


def EXPLORE(tier):
    return [
        Exploration('transform', gen_transform(tier), bounds='1-4 points x lattice origins x ordered bases of 1-4 vectors in dims 1-3, all (N,D,M) in 1..8, sizes to 1025, dimension mismatches'),
        Exploration('line', gen_line(tier), bounds='lattice lines in dims 1-6 x 9 parameters, sizes to 1025, scales, offsets'),
        Exploration('slope', gen_slope(tier), bounds='12x12 slopes and intercepts'),
        Exploration('cartesian', gen_cart(tier), bounds='normals -2..3 x 27 points in 3D, 2D, dims 1,4-6'),
        Exploration('large', tiled.gen_transform(tier), tiled.run, bounds=tiled.BOUNDS),
        Exploration('large_line', tiled.gen_points({'Line': ['transform_points']}, tier), tiled.run, bounds=tiled.BOUNDS),
    ]
