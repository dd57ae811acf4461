"""C25: areas, volumes, lengths and circumferences equal the exact measures."""
from itertools import combinations_with_replacement, permutations

from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def tri(T):
    s = []
    for Q in (T, [T[1], T[0], T[2]], [T[2], T[0], T[1]]):
        s.append(['fn', 'area_triangle', [P(p) for p in Q], {}])
    s.append(['new', 'Triangle', [P(p) for p in T]])
    s += [['op', ref(3), m, [], {}] for m in ('area', 'perimeter')] + [['op', ref(3), 'length', [x], {}] for x in 'abc']
    return s


def tet(T):
    s = []
    for Q in (T, [T[1], T[0], T[2], T[3]], [T[3], T[2], T[1], T[0]], [T[2], T[3], T[0], T[1]]):
        s.append(['fn', 'volume_tetrahedron', [P(p) for p in Q], {}])
    return s


def poly(rows, extra=()):
    s = []
    n = len(rows)
    for k in sorted({0, 1, n // 2}):
        s.append(['fn', 'area_signed', [S(rows[k:] + rows[:k])], {}])
    s.append(['fn', 'area_signed', [S(rows[::-1])], {}])
    s += [['new', 'Points', [S(rows)]], ['fn', 'area_signed', [ref(len(s))], {}]]
    return s


def round_things(c2, c3, v, r):
    s = [['new', 'Circle', [P(c2), R(r)]], ['op', ref(0), 'area', [], {}], ['op', ref(0), 'circumference', [], {}],
         ['new', 'Sphere', [P(c3), R(r)]], ['op', ref(3), 'volume', [], {}], ['op', ref(3), 'surface_area', [], {}],
         ['new', 'Cylinder', [P(c3), V(v), R(r)]]]
    return s + [['op', ref(6), m, [], {}] for m in ('length', 'lateral_surface_area', 'surface_area', 'volume')]


def gen_triangles(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals in ((1, (-2, 0, 1, 3)), (2, (-2, -1, 0, 1, 3) if big else (-1, 0, 1, 3)), (3, (-1, 0, 2) if big else (0, 1))):
            L = lattice(dim, vals)
            for T in combinations_with_replacement(L, 3):
                yield tri(list(T))
        for B, C in product(lattice(3, (-2, -1, 0, 1, 3)), repeat=2) if big else product(lattice(3, (-1, 0, 2)), repeat=2):
            yield tri([[1, -1, 2], B, C])
        for d in (4, 5, 6):
            X = vecs_dim(d)
            yield tri([[0] * d, X[0], X[3]])
            yield tri([X[2], X[1], X[-1]])
        for dims in product(range(1, 5), repeat=3):
            yield tri([vecs_dim(d)[1 + i % 3] for i, d in enumerate(dims)])
        for T in ([[0, 0], [3, 0], [0, 4]], [[1, 2, 3], [-4, 0, 1], [2, 5, -1]], [[0, 0, 0], [0, 2, 0], [0, 0, 3]], [[0, 0, 1], [3, 0, 1], [0, 5, 1]], [[0], [2], [5]]):
            for Q in permutations(T):
                for s in SCALES + [0.1, 3.7]:
                    yield xform(tri(list(Q)), scale=s)
                for o in (OFFS[:3], [2.0 ** 20, -2.0 ** 19, 1], [0.1, -0.7, 0.3], *FAROFF):
                    yield xform(tri(list(Q)), offset=o[:len(T[0])])
    return g


def gen_tetra(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(3, (0, 1)) + [[2, -1, 3], [-2, 0, 0], [0, 3, -1]]
        for T in combinations_with_replacement(L, 4) if not big else product(L, repeat=4):
            yield tet(list(T))
        L = lattice(3, (-1, 0, 2))
        for B, C in product(L, repeat=2):
            for D in ([0, 0, 5], [1, 2, 3]):
                yield tet([[0, 0, 0], B, C, D])
        for d in (1, 2, 4, 5):
            yield tet(spread(4, d))
            yield tet([spread(9, d)[i] for i in (1, 5, 8, 2)])
        L = lattice(2, (-1, 0, 2))
        for T in combinations_with_replacement(L, 4):
            yield tet(list(T))
        for dims in product(range(1, 5), repeat=4):
            yield tet([vecs_dim(d)[i] for i, d in enumerate(dims)])
        for T in ([[0, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, 5]], [[1, 2, 3], [-4, 0, 1], [2, 5, -1], [0, 0, 7]], [[0, 0, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1]]):
            for Q in permutations(T):
                yield tet(list(Q))
                for s in SCALES + [0.1, 3.7]:
                    yield xform(tet(list(Q)), scale=s)
                for o in (OFFS[:3], [2.0 ** 20, -2.0 ** 19, 1], [0.1, -0.7, 0.3], *FAROFF):
                    yield xform(tet(list(Q)), offset=o)
    return g


def ring(n):
    """A star-shaped simple integer polygon, counter-clockwise."""
    import math
    out = []
    for i in range(n):
        r = 100 + (i * 7) % 13
        out.append([round(r * math.cos(2 * math.pi * i / n)), round(r * math.sin(2 * math.pi * i / n))])
    return out


def gen_poly(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(2, (-1, 0, 2))
        for n in (1, 2, 3, 4):
            for rows in product(L, repeat=n):
                yield poly(list(rows))
        L = lattice(2, (0, 1)) + [[3, 1]]
        for rows in product(L, repeat=5):
            yield poly(list(rows))
        if big:
            for rows in product(lattice(2, (-2, 0, 1, 3)), repeat=4):
                yield poly(list(rows))
        for n in SIZES:
            if n >= 3:
                yield poly(ring(n))
                yield poly(spread(n, 2))
                yield poly([[0.37 * x, y - 0.1] for x, y in spread(n, 2)])
        for n in (1, 2, 3, 4, 7):
            for d in (1, 3, 4):
                yield poly(spread(n, d))
        for rows in (ring(3), ring(4), ring(7), ring(64), [[0, 0], [4, 0], [4, 3], [0, 3]], [[0, 0], [4, 0], [1, 1], [0, 4]]):
            for s in SCALES + [0.1, 3.7]:
                yield xform(poly(rows), scale=s)
            for o in ([1000, -2000], [2.0 ** 20, -2.0 ** 19], [0.1, -0.7], [1e6, 1e6], *FAROFF):
                yield xform(poly(rows), offset=o)
        for bad in ([], [[]], [1, 2, 3], [[1, 2], [3]], None, [[{'f': 'nan'}, 0], [1, 1], [2, 3]], [['a', 'b']] * 3):
            yield [['fn', 'area_signed', [bad], {}]]
    return g


def gen_round(tier):
    big = tier == 'thorough'

    def g():
        for v in nonzero(lattice(3, (-2, -1, 0, 1, 2, 3) if big else (-2, -1, 0, 1, 3))):
            for r in (0.25, 0.5, 1, 2, 3, 10, 1e-6, 1e6, 2.0 ** -30, 2.0 ** 30):
                yield round_things([1, 2], [1, -2, 3], v, r)
        for r in (1, 2, 3, 0.1, 7.3, 1e-9, 1e9):
            for v in ([0, 0, 1], [1, 2, 2], [0.3, -0.1, 4], [1e-4, 0, 0]):
                for s in SCALES:
                    yield xform(round_things([0, 0], [0, 0, 0], v, r), scale=s)
        for r in range(1, 200):
            yield round_things([0, 1], [0, 1, 2], [r % 5, 1, r % 7], r / 8)
    return g


def EXPLORE(tier):
    return [
        Exploration('triangles', gen_triangles(tier), bounds='all multisets of 3 lattice points in dims 1-3 in three orders, scales, offsets'),
        Exploration('tetrahedra', gen_tetra(tier), bounds='all multisets of 4 from 11 points, dims 1-5, four orders, scales, offsets'),
        Exploration('polygons', gen_poly(tier), bounds='all sequences of 1-4 lattice points (5 over 5 points), sizes up to 2049, rotations and reversal'),
        Exploration('round', gen_round(tier), bounds='circles, spheres, cylinders: radii 2^-30..2^30, lattice axes, scales'),
    ]
