"""C22: circles and spheres fitted to points are the algebraic least-squares solution."""
from itertools import combinations, combinations_with_replacement, permutations

from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def circ3(rows):
    s = [['cm', 'Circle', 'from_points', [P(p) for p in rows], {}]]
    for p in rows:
        s.append(['op', ref(0), 'distance_point', [P(p)], {}])
    return s


def fit(cls, rows):
    return [['cm', cls, 'best_fit', [S(rows)], {}], ['new', 'Points', [S(rows)]], ['cm', cls, 'best_fit', [ref(1)], {}]]


def pyth(r2, dim):
    """All lattice points at squared distance r2 from the origin."""
    m = int(r2 ** 0.5)
    return [p for p in lattice(dim, range(-m, m + 1)) if sum(x * x for x in p) == r2]


FAR = ([1e5, -3e4], [500000, 5600000], [2.0 ** 24, 2.0 ** 25], [-1e8, 3e7], [2.0 ** 40, -2.0 ** 40], [12345678.9, 0.1])


def gen_triples(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(2, (-2, -1, 0, 1, 3) if not big else (-3, -2, -1, 0, 1, 2, 4))
        for rows in combinations_with_replacement(L, 3):
            yield circ3(list(rows))
        for base in ([[0, 0], [1, 0], [0, 1]], [[3, 4], [-4, 3], [5, 0]], [[1, 1], [4, 1], [1, 7]], [[-2, 0], [9, 1], [3, -5]]):
            for rows in permutations(base):
                for s in SCALES + [0.1, 3.7]:
                    yield xform(circ3(list(rows)), scale=s)
                for o in (OFFS[:2], [100, 50], [-1024, 512], [0.1, 0.7]) + FAR:
                    yield xform(circ3(list(rows)), offset=o)
        P5 = pyth(25, 2)
        for rows in permutations(P5, 3):
            yield circ3(list(rows))
        for d in (1, 3, 4):
            yield circ3([spread(3, d)[i] for i in range(3)])
        yield circ3([[0, 0], [1, 0], [0, 1, 2]])
    return g


def gen_fits(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(2, (-1, 0, 2))
        for n in (1, 2, 3, 4) + ((5,) if big else ()):
            for rows in combinations_with_replacement(L, n):
                yield fit('Circle', list(rows))
        L3 = lattice(3, (0, 1)) + [[2, 0, 1], [-1, 2, 0]]
        for n in (1, 2, 3, 4, 5) + ((6,) if big else ()):
            for rows in combinations_with_replacement(L3, n):
                yield fit('Sphere', list(rows))
        for d in (1, 2, 3, 4, 5):
            for n in range(1, 8):
                yield fit('Circle', spread(n, d))
                yield fit('Sphere', spread(n, d))
        for bad in ([], [[]], [1, 2, 3], [[1, 2], [3]], None, [[{'f': 'nan'}, 0, 0], [1, 1, 1], [2, 3, 4], [0, 0, 5]]):
            for cls in ('Circle', 'Sphere'):
                yield [['cm', cls, 'best_fit', [bad], {}]]
    return g


def gen_order(tier):
    """Every point of a set in turn as the first one, among them the centroid, the centre and repeated points."""
    def g():
        for dim, cls in ((2, 'Circle'), (3, 'Sphere')):
            axes = [[s * (i == j) for j in range(dim)] for i in range(dim) for s in (1, -1)]
            sets = [[[0] * dim] + axes, [[0] * dim] * 2 + axes, [[0] * dim] + axes + [[1] * dim, [-1] * dim], axes + [axes[0]],
                    [[0] * dim] + [[-2 * x for x in a] for a in axes] + axes]
            L = lattice(dim, (-1, 0, 2)) if dim == 2 else lattice(3, (0, 1)) + [[2, 0, 1], [-1, 2, 0]]
            n = {2: 4, 3: 5}[dim] + (tier == 'thorough')
            # The sets with their centroid added.
            for rows in combinations_with_replacement(L, n):
                total = [sum(r[i] for r in rows) for i in range(dim)]
                if all(t % n == 0 for t in total):
                    sets.append([[t // n for t in total]] + list(rows))
            for rows in sets:
                for o in ([0] * dim, [100, -50, 20][:dim]):
                    for i in range(len(rows)):
                        for s in (1, 0.25):
                            turned = rows[i:] + rows[:i]
                            yield xform(fit(cls, turned), offset=o, scale=s)
    return g


def gen_recover(tier):
    def g():
        C2 = ([0, 0], [1, -2], [-7, 3])
        for r2 in (25, 65, 5, 325):
            Q = pyth(r2, 2)
            for k in (3, 4) if len(Q) <= 16 else (3,):
                sub = list(combinations(Q, k))
                for rows in sub if tier == 'thorough' else sub[::max(1, len(sub) // 400)]:
                    for c in C2[1:2]:
                        yield fit('Circle', [[c[0] + p[0], c[1] + p[1]] for p in rows])
            for c in C2:
                rows = [[c[0] + p[0], c[1] + p[1]] for p in Q]
                for s in SCALES + [1.0, 0.1, 3.7]:
                    yield xform(fit('Circle', rows), scale=s)
                for n in (3, 5, 8):
                    yield fit('Circle', rows[:n])
                for o in ([100, 50], [1024, -512], [10000, 30]):
                    yield xform(fit('Circle', rows), offset=o)
        for r2 in (9, 6, 14, 49):
            Q = pyth(r2, 3)
            sub = list(combinations(Q[:14], 4))
            for rows in sub if tier == 'thorough' else sub[::2]:
                yield fit('Sphere', list(rows))
            for c in ([0, 0, 0], [1, -2, 3], [-7, 3, 5]):
                rows = [[c[i] + p[i] for i in range(3)] for p in Q]
                for s in SCALES + [1.0, 0.1, 3.7]:
                    yield xform(fit('Sphere', rows), scale=s)
                for o in ([100, 50, 20], [1024, -512, 7]):
                    yield xform(fit('Sphere', rows), offset=o)
        # centres far from the origin, compared with the radius
        for dim, cls, r2s in ((2, 'Circle', (25, 65)), (3, 'Sphere', (9, 14))):
            for r2 in r2s:
                Q = pyth(r2, dim)
                for far in (60, 1000, 7000, 60000, 1000000, 30000000, 2 ** 33):
                    for w in ([1, 1, 1], [1, 0, 0], [0, -1, 1], [3, -7, 5], [-2, 5, 0]):
                        o = [far * x // max(map(abs, w)) for x in w][:dim]
                        yield xform(fit(cls, Q), offset=o)
                        for st in (1, 3):
                            yield xform(fit(cls, Q[::st][:dim + 3]), offset=o)
                        yield xform(fit(cls, Q), offset=o, scale=2.0 ** -12)
        # many points
        Q = [[3 * x, 3 * y] for x, y in pyth(325, 2)] + pyth(325 * 9, 2)
        for n in SIZES_SMALL:
            if n >= 3:
                yield fit('Circle', [Q[(7 * i) % len(Q)] for i in range(n)])
                yield fit('Circle', [[x + ((i * 5) % 3 - 1) * 0.125, y] for i, (x, y) in enumerate([Q[(7 * i) % len(Q)] for i in range(n)])])
        Q = pyth(81, 3) + pyth(81, 3)
        for n in SIZES_SMALL:
            if n >= 4:
                yield fit('Sphere', [Q[(11 * i) % len(Q)] for i in range(n)])
                yield fit('Sphere', [[x + ((i * 5) % 3 - 1) * 0.125, y, z] for i, (x, y, z) in enumerate([Q[(11 * i) % len(Q)] for i in range(n)])])
    return g


def gen_flat(tier):
    """Points on arcs and caps that are nearly flat: parabolas x -> x^2 / 2^k (fitted exactly by the reference), in every direction."""
    ks = (1, 3, 6, 9, 12, 15, 18, 20, 22, 24, 26) if tier == 'quick' else range(0, 30)
    xs = ([-5, -2, 3, 6], [-4, -1, 0, 2, 5], [0, 1, 2, 3], [-3, -2, -1, 1, 2, 3], [-7, 1, 2], [0, 8, 1, 5, 5])

    def g():
        for k in ks:
            h = 2.0 ** -k
            for X in xs:
                flat = [[x, x * x * h] for x in X]
                turned = [[3 * x - 4 * y, 4 * x + 3 * y] for x, y in flat]
                bent = [[x, (x * x + (i % 2) * 0.25 * abs(x)) * h] for i, x in enumerate(X)]
                for rows in (flat, [[y, -x] for x, y in flat], turned, bent):
                    for sc in (1, 1e-3, 1000):
                        if len(X) == 3:
                            yield xform(circ3(rows), scale=sc)
                        yield xform(fit('Circle', rows), scale=sc)
                    yield xform(fit('Circle', rows), offset=[100, -30])
            for X in ([[-2, 1], [1, 3], [3, -2], [0, 0], [-1, -3]], [[0, 0], [1, 0], [0, 1], [2, 3]], [[-1, -1], [2, -1], [-1, 2], [3, 3], [0, 1], [1, 0]]):
                cap = [[x, y, (x * x + y * y) * h] for x, y in X]
                for rows in (cap, [[z, x, y] for x, y, z in cap], [[x + 2 * y + 2 * z, 2 * x + y - 2 * z, 2 * x - 2 * y + z] for x, y, z in cap],
                             [[x, y, z + (i % 2) * 0.25 * h] for i, (x, y, z) in enumerate(cap)]):
                    for sc in (1, 1e-3, 1000):
                        yield xform(fit('Sphere', rows), scale=sc)
                    yield xform(fit('Sphere', rows), offset=[100, -30, 7])
    return g


def EXPLORE(tier):
    return [
        Exploration('flat', gen_flat(tier), bounds='parabolic arcs and caps of height 2^-k (quick: 11 values of k up to 26, thorough: 30), 6 point sets, 4 orientations, scales, offsets'),
        Exploration('triples', gen_triples(tier), bounds='all multisets of 3 lattice points (entries -2..3), permutations, scales, offsets, ordered Pythagorean triples'),
        Exploration('fits', gen_fits(tier), bounds='all multisets of 1-4 lattice points (circle) and 1-5 (sphere), wrong dimensions'),
        Exploration('order', gen_order(tier), bounds='sets with their centroid added, every rotation of their order (every point as the first), offsets, scales'),
        Exploration('recover', gen_recover(tier), bounds='exactly cocircular/cospherical lattice sets, sizes up to 1025, scales, offsets'),
        Exploration('large', tiled.gen_sets([['fit_ball', 'Circle'], ['fit_ball', 'Sphere']], tier), tiled.run, bounds=tiled.BOUNDS),
    ]
