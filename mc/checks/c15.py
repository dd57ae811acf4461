"""C15: distances are the true minimum distances, and batch results match single ones."""
from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def lp_prog(cls, p, d, q):
    s = [['new', cls, [P(p), V(d)]], ['op', ref(0), 'distance_point', [P(q)], {}]]
    if cls == 'Plane':
        s.append(['op', ref(0), 'distance_point_signed', [P(q)], {}])
    s.append(['new', 'Point', [P(q)]])
    s.append(['op', ref(len(s) - 1), 'distance_point', [P(p)], {}])
    return s


def batch_prog(cls, p, d, rows):
    s = [['new', cls, [P(p), V(d)]], ['op', ref(0), 'distance_points', [S(rows)], {}]]
    if cls == 'Plane':
        s.append(['op', ref(0), 'distance_points_signed', [S(rows)], {}])
    s.append(['op', ref(0), 'sum_squares', [S(rows)], {}])
    s.append(['op', ref(0), 'project_points', [S(rows)], {}])
    return s


def lines_prog(p, d, q, e):
    return [['new', 'Line', [P(p), V(d)]], ['new', 'Line', [P(q), V(e)]], ['op', ref(0), 'distance_line', [ref(1)], {}],
            ['op', ref(1), 'distance_line', [ref(0)], {}]]


def gen_single(tier):
    big = tier == 'thorough'

    def g():
        for cls in ('Line', 'Plane'):
            for d in nonzero(lattice(1, (-3, -1, 0, 1, 2))):
                for p, q in product((-1, 0, 2), repeat=2):
                    yield lp_prog(cls, [p], d, [q])
            for d in nonzero(lattice(2, range(-3, 4))):
                for p in lattice(2, (0, 1)):
                    for q in lattice(2, (-2, 0, 1, 3)):
                        yield lp_prog(cls, p, d, q)
            for d in nonzero(lattice(3, (-2, -1, 0, 1, 2) if not big else range(-3, 4))):
                for p in ([0, 0, 0], [1, -2, 3]):
                    for q in lattice(3, (-1, 0, 2)):
                        yield lp_prog(cls, p, d, q)
            for dim in range(4, 7):
                for d, q in product(vecs_dim(dim), repeat=2):
                    yield lp_prog(cls, [(-1) ** i * i for i in range(dim)], d, q)
            for a, b in product(range(1, 7), repeat=2):
                yield lp_prog(cls, [1] * a, [2] * a, [3] * b)
            for d in nonzero(lattice(3, (-1, 0, 2))):
                for q in ([0, 0, 0], [1, -2, 3], [4, 1, 1], [1 + d[0], -2 + d[1], 3 + d[2]]):
                    pr = lp_prog(cls, [1, -2, 3], d, q)
                    for s in SCALES:
                        yield xform(pr, scale=s)
                    for k in (-1, 0.1, 1e-6, -1e6, 2.0 ** -40):
                        yield lp_prog(cls, [1, -2, 3], [k * x for x in d], q)
                    for off in (OFFS[:3], [2.0 ** 30, -2.0 ** 31, 1.0], *FAROFF):
                        yield xform(pr, offset=off)
    return g


def gen_balls(tier):
    def g():
        for cls, dim in (('Circle', 2), ('Sphere', 3)):
            for c in ([0] * dim, [1, -2, 3][:dim]):
                for q in lattice(dim, (-3, -2, -1, 0, 1, 2, 3) if dim == 2 else (-2, 0, 1, 3)):
                    for r in (1, 2.5, 5, 1e-3):
                        pr = [['new', cls, [P(c), R(r)]], ['op', ref(0), 'distance_point', [P(q)], {}]]
                        yield pr
                        if q[0] >= 0 and r != 5:
                            for s in SCALES[::3]:
                                yield xform(pr, scale=s)
                            yield xform(pr, offset=OFFS)
            for a in range(1, 6):
                yield [['new', cls, [P([1] * dim), 2]], ['op', ref(0), 'distance_point', [P([3] * a)], {}]]
        for a, b in product(lattice(2, range(-3, 4)), lattice(2, (-1, 0, 2))):
            yield [['new', 'Point', [P(a)]], ['op', ref(0), 'distance_point', [P(b)], {}]]
        for n in SIZES:
            yield [['new', 'Point', [P([(i * 5 % 9) - 4 for i in range(n)])]], ['op', ref(0), 'distance_point', [P([(i * 3 % 7) - 3 for i in range(n)])], {}]]
            yield [['new', 'Point', [P([0] * (n - 1) + [4])]], ['op', ref(0), 'distance_point', [P([0] * n)], {}]]
        for a, b in product(range(1, 7), repeat=2):
            yield [['new', 'Point', [P([1] * a)]], ['op', ref(0), 'distance_point', [P([2] * b)], {}]]
        for s in SCALES + [1e-9, 1e9]:
            for a, b in product(lattice(3, (-1, 0, 2))[::2], repeat=2):
                yield xform([['new', 'Point', [P(a)]], ['op', ref(0), 'distance_point', [P(b)], {}]], scale=s)
    return g


def gen_lines(tier):
    big = tier == 'thorough'

    def g():
        for p, q in product([[0], [1], [3]], repeat=2):
            for d, e in product((-2, -1, 1, 3), repeat=2):
                yield lines_prog(p, [d], q, [e])
        D = nonzero(lattice(2, (-2, -1, 0, 1, 2)))
        for d, e in product(D, D):
            for q in lattice(2, (-1, 0, 2)):
                yield lines_prog([0, 1], d, q, e)
        D = nonzero(lattice(3, (-1, 0, 1) if not big else (-1, 0, 1, 2)))
        Q = lattice(3, (-1, 0, 2))
        for d, e in product(D, D):
            for q in Q if big else Q[::2] + [[0, 0, 0], [2, 0, 0]]:
                yield lines_prog([0, 0, 0], d, q, e)
        for dim in (4, 5, 6):
            V_ = vecs_dim(dim)
            for d, e in product(V_, V_):
                yield lines_prog([0] * dim, d, [1] * dim, e)
                yield lines_prog([1, 2] + [0] * (dim - 2), d, [1 + e[0], 2 + e[1]] + e[2:], [-2 * x for x in d])
        for a, b in product(range(1, 5), repeat=2):
            yield lines_prog([1] * a, [2] * a, [3] * b, list(range(1, b + 1)))
    return g


def gen_lines_scaled(tier):
    def g():
        D = [[1, 0, 0], [0, -1, 0], [0, 0, 2], [1, 1, 0], [1, -1, 2], [-2, 1, 1], [3, 4, 0]]
        for d, e in product(D, D):
            for q in ([0, 0, 0], [1, 2, 3], [0, 5, 0], [2, -1, 0]):
                pr = lines_prog([0, 1, 0], d, q, e)
                for s in SCALES:
                    yield xform(pr, scale=s)
                for s in SCALES_MID:
                    yield xform(pr, scale=s, vscale=1)
                    yield xform(pr, scale=1, vscale=s)
                for off in (OFFS[:3], [2.0 ** 20, 2.0 ** 21, -2.0 ** 19], *FAROFF):
                    yield xform(pr, offset=off)
                for k in (-1, 0.1, 1e3, -1e-3):
                    yield lines_prog([0, 1, 0], d, q, [k * x for x in e])
    return g


def gen_lines_near(tier):
    """Skew lines that pass each other closely, or that are almost parallel."""
    def g():
        D = [([1, 0, 0], [0, 1, 0]), ([1, 1, 0], [1, -1, 0]), ([1, 2, 2], [2, 1, -2]), ([3, 0, 4], [0, 1, 0]), ([1, 0, 0], [1, 0, 1]), ([1, -2, 1], [2, 1, 3])]
        for d, e in D:
            n = [d[1] * e[2] - d[2] * e[1], d[2] * e[0] - d[0] * e[2], d[0] * e[1] - d[1] * e[0]]
            for h in LADDER:
                for p in ([0, 0, 0], [1, -2, 3]):
                    for a, b in ((0, 0), (2, -1)):
                        q = [p[i] + a * d[i] + b * e[i] + h * n[i] for i in range(3)]
                        yield lines_prog(p, d, q, e)
                for q in ([0, 0, 1], [3, -1, 2]):
                    yield lines_prog([0, 0, 0], d, q, [x + h * y for x, y in zip(d, e)])
            for h, s in product(LADDER[::4], SCALES_MID):
                yield xform(lines_prog([0, 0, 0], d, [h * x for x in n], e), scale=s)
    return g


def gen_batches(tier):
    def g():
        for n in SIZES_SMALL + [2048, 2049]:
            for cls, dims in (('Line', (1, 2, 3, 4, 5)), ('Plane', (1, 2, 3, 4))):
                for dim in dims:
                    d = ([2, -1, 3, 1, -2])[:dim]
                    yield batch_prog(cls, [1, -2, 3, 0, 1][:dim], d, spread(n, dim))
                    if n <= 300:
                        yield batch_prog(cls, [0.5, -2, 3, 0, 1][:dim], [0] * (dim - 1) + [-3], [[0.3 * x for x in r] for r in spread(n, dim)])
                    # one distant point at several positions
                    for i in sorted({0, n // 2, n - 1}):
                        rows = [[1] * dim for _ in range(n)]
                        rows[i] = [9] + [-4] * (dim - 1)
                        yield batch_prog(cls, [1] * dim, d, rows)
        L = lattice(2, (-1, 0, 2))
        for rows in product(L, repeat=2):
            for cls in ('Line', 'Plane'):
                for d in ([1, 0], [0, 1], [2, 1], [-1, 1]):
                    yield batch_prog(cls, [1, 0], d, list(rows))
                for a in (1, 3):
                    yield batch_prog(cls, [1] * a, [2] * a, list(rows))
        L = lattice(3, (-1, 1))
        for rows in product(L, repeat=3):
            for cls in ('Line', 'Plane'):
                yield batch_prog(cls, [1, 0, 2], [1, -2, 2], list(rows))
        for n in (1, 2, 3, 4, 5, 9, 33):
            for cls in ('Line', 'Plane'):
                for d in ([2, -1, 2], [0, 0, 1], [1, 0, 0]):
                    for s in SCALES:
                        yield xform(batch_prog(cls, [1, -2, 3], d, spread(n, 3)), scale=s)
                    for off in (OFFS[:3], [2.0 ** 20, 2.0 ** 21, -2.0 ** 19], *FAROFF):
                        yield xform(batch_prog(cls, [1, -2, 3], d, spread(n, 3)), offset=off)
    return g


def EXPLORE(tier):
    return [
        Exploration('single', gen_single(tier), bounds='all lattice lines/planes x points dims 1-3, structured 4-6, mixed dimensions, scales, offsets'),
        Exploration('balls', gen_balls(tier), bounds='circles/spheres/points against all lattice points, lengths up to 2049, scales'),
        Exploration('lines', gen_lines(tier), bounds='all pairs of lattice lines dims 1-3 (directions entries -1..1, 2D -2..2), structured dims 4-6'),
        Exploration('lines_scaled', gen_lines_scaled(tier), bounds='pairs of lines at ten scales, offsets, direction lengths'),
        Exploration('lines_near', gen_lines_near(tier), bounds='skew lines at distances of, or directions that differ by, 1e-1 .. 1e-13'),
        Exploration('batches', gen_batches(tier), bounds='batches of up to 2049 points, square inputs, outlier positions, scales'),
        Exploration('large', tiled.gen_points({'Line': ['distance_points', 'sum'], 'Plane': ['distance_points', 'distance_points_signed', 'sum']}, tier), tiled.run, bounds=tiled.BOUNDS),
    ]
