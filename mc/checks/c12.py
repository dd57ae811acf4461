"""C12: point-set statistics equal their definitions for every number of points."""
from itertools import combinations_with_replacement

from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def prog(rows, perm=False):
    s = [['new', 'Points', [S(rows)]],
         ['op', ref(0), 'centroid', [], {}],
         ['op', ref(0), 'mean_center', [], {}],
         ['op', ref(0), 'mean_center', [], {'return_centroid': True}],
         ['op', ref(0), 'normalize_distance', [], {}],
         ['op', ref(0), 'unique', [], {}]]
    # results are again point sets
    s += [['op', ref(2), 'centroid', [], {}], ['op', ref(4), 'normalize_distance', [], {}], ['op', ref(5), 'unique', [], {}]]
    return s


def gen_multisets(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals, top in ((1, (-2, 0, 1, 3), 4), (2, (-1, 0, 2), 4), (3, (0, 1) if not big else (-1, 0, 1), 4)):
            L = lattice(dim, vals)
            for n in range(1, top + 1):
                for rows in (product(L, repeat=n) if n <= 3 else combinations_with_replacement(L, n)):
                    yield prog(list(rows))
        for dim in range(4, 7):
            for a, b in product(vecs_dim(dim), repeat=2):
                yield prog([a, b])
                yield prog([a, b, a, [0] * dim])
    return g


def gen_sizes(tier):
    def g():
        for n in SIZES:
            for dim in (1, 2, 3, 4, 5, 6, 7, 8):
                if dim > 4 and n > 300:
                    continue
                rows = spread(n, dim)
                yield prog(rows)
                if n <= 1025:
                    yield prog([[0.37 * x - 1.1 for x in r] for r in rows])
                    # one point far away, at several positions
                    for i in sorted({0, n // 2, n - 1}):
                        r2 = [[1] * dim for _ in range(n)]
                        r2[i] = [-7] + [3] * (dim - 1)
                        yield prog(r2)
            yield prog([[1, 2]] * n)
            yield prog([[0, 0, 0]] * n)
            if n <= 130:
                yield prog(spread(2, n))
                yield prog(spread(n, n) if n <= 65 else spread(3, n))
    return g


def gen_scales(tier):
    def g():
        L = lattice(2, (-1, 0, 2))
        for rows in product(L, repeat=3):
            for s in SCALES if tier == 'thorough' else SCALES[1::2]:
                yield xform(prog(list(rows)), scale=s)
            for off in ([1000, -2000], [2.0 ** 30, 2.0 ** 28], [0.1, -0.7], *FAROFF):
                yield xform(prog(list(rows)), offset=off)
        # largest distances that are almost one
        for s in NEAR_ONE:
            for rows in ([[1, 0, 0]], [[0.25, 0.5], [0, -1]], [[0.6, 0.8, 0], [0.1, 0.2, 0.3]], [[0, 0], [0, 1]], [[0.5], [-1]], [[1, 0], [0, 1], [0.5, 0.5]]):
                yield xform(prog(rows), scale=s)
        for dim in (1, 2, 3, 5):
            for n in (1, 2, 3, 5, 9, 17):
                for s in SCALES:
                    yield xform(prog(spread(n, dim)), scale=s)
                for off in (OFFS, [2.0 ** 30] * 6, [1e6, -1e7, 3e5, 1, 2, 3], *FAROFF):
                    yield xform(prog(spread(n, dim)), offset=off)
    return g


def gen_duplicates(tier):
    """Duplicates that are equal only in value (0.0 and -0.0, 1 and 1.0), nearly equal rows, duplicates in every pair of positions."""
    def g():
        for n in range(2, 9):
            for i in range(n):
                for j in range(i + 1, n):
                    rows = spread(n, 3)
                    rows[j] = list(rows[i])
                    yield prog(rows)
                    rows[j] = [x + (1e-9 if c == j % 3 else 0) for c, x in enumerate(rows[i])]
                    yield prog(rows)
        for e in (2.0 ** -50, 1e-300, -0.0, 0.0, *LADDER):
            for base in ([0, 0], [1, 2], [0.0, 5]):
                for i in (0, 1):
                    r = list(base)
                    r[i] += e
                    yield prog([base, r])
                    yield prog([r, base, r, [3, 3]])
        yield prog([[0.0, 1], [-0.0, 1], [0, 1]])
        yield prog([[-0.0, -0.0], [0.0, 0.0]])
    return g


def EXPLORE(tier):
    return [
        Exploration('multisets', gen_multisets(tier), bounds='all sequences of up to 3 and multisets of 4 lattice points in dims 1-3, structured in 4-6'),
        Exploration('sizes', gen_sizes(tier), bounds='1-40 points and around 64,100,128,256,512,1000,1024,2048, dims 1-8, square inputs, wide inputs'),
        Exploration('scales', gen_scales(tier), bounds='scales 2^-60..2^60, large and decimal offsets'),
        Exploration('duplicates', gen_duplicates(tier), bounds='equal or nearly equal rows in every pair of positions'),
        Exploration('large', tiled.gen_sets([['centroid', None]], tier), tiled.run, bounds=tiled.BOUNDS),
    ]
