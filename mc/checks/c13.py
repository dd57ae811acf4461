"""C13: concurrency, collinearity and coplanarity are decided by the affine rank."""
from itertools import combinations_with_replacement, permutations

from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

OPS = ('affine_rank', 'are_concurrent', 'are_collinear', 'are_coplanar')


def prog(rows, kws=({},)):
    s = [['new', 'Points', [S(rows)]]]
    for kw in kws:
        for m in OPS:
            s.append(['op', ref(0), m, [], kw])
    return s


def gen_multisets(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals, top in ((1, (-2, 0, 1, 3), 4), (2, (-1, 0, 2) if not big else (-1, 0, 1, 2), 4), (3, (0, 1), 5 if big else 4)):
            L = lattice(dim, vals)
            for n in range(1, top + 1):
                for rows in (product(L, repeat=n) if n <= 3 else combinations_with_replacement(L, n)):
                    yield prog(list(rows))
        L = lattice(3, (-1, 0, 2))
        for rows in product(L[::2] if not big else L, L, [[0, 0, 0], [1, 2, -1]]):
            yield prog(list(rows))
        for dim in range(4, 7):
            for a, b, c in product(vecs_dim(dim)[::2], repeat=3):
                yield prog([[0] * dim, a, b, c])
    return g


def gen_order(tier):
    """All orderings and duplications of sets of every rank."""
    sets = [[[1, 1, 1]], [[0, 0, 0], [1, 2, 3]], [[0, 0, 0], [1, 2, 3], [2, 4, 6]], [[0, 0, 0], [1, 0, 0], [0, 1, 0]], [[5, 0, 0], [0, 5, 0], [0, 0, 5], [5, 5, -5]],
            [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0], [3, 3], [1, 1], [2, 2]], [[0, 0], [3, 3], [1, 1], [2, 3]], [[1], [2], [4]],
            [[0, 0, 0, 0], [1, 1, 0, 0], [0, 0, 1, 1], [1, 1, 1, 1]], [[0, 0, 0, 0], [1, 1, 0, 0], [0, 0, 1, 1], [1, 1, 1, 2]]]

    def g():
        for rows in sets:
            for p in permutations(rows):
                yield prog(list(p))
                for i in range(len(rows)):
                    yield prog(list(p) + [p[i]])
                    yield prog([p[i]] * 3 + list(p))
                for s in SCALES_MID:
                    yield xform(prog(list(p)), scale=s)
                yield xform(prog(list(p)), offset=[2.0 ** 16, -2.0 ** 18, 4096, 12])
            for k in (2, 5, 33, 129, 513):
                yield prog(rows * k)
                yield prog([r for r in rows for _ in range(k)])
    return g


def flat_points(n, dim, r):
    """n points that span an r-dimensional flat."""
    basis = [[1, 2, 0, -1, 1, 3], [0, 1, 1, 2, 0, 1], [2, 0, 1, 0, -1, 0], [1, 1, 1, 1, 2, -1], [0, 0, 3, 1, 0, 1], [1, 0, 0, 0, 0, 4]]
    out = []
    for i in range(n):
        c = [(i * (3 + 2 * j) + (i * i * j) % 7) % (5 + j) - 2 for j in range(r)]
        out.append([1 + sum(c[j] * basis[j][k] for j in range(r)) for k in range(dim)])
    return out


def gen_sizes(tier):
    def g():
        for n in SIZES_SMALL:
            for dim in (1, 2, 3, 4):
                for r in range(0, min(dim, 3) + 1):
                    rows = flat_points(n, dim, r)
                    yield prog(rows)
                    if r == 1 and dim > 1:
                        yield prog([[i * (k + 1) for k in range(dim)] for i in range(n)])
                    # one point off the flat, in every (or several) position(s)
                    for i in range(n) if n <= 12 else sorted({0, 1, n // 2, n - 2, n - 1}):
                        r2 = [list(p) for p in rows]
                        r2[i][-1] += 1
                        yield prog(r2)
                        if r < 2 and dim > 1:
                            r2 = [list(p) for p in rows]
                            r2[i][0] += 2.0 ** -10
                            yield prog(r2)
    return g


def gen_thin(tier):
    """Sets that are flat, but not degenerate: the extent in one direction is small."""
    def g():
        for n in (3, 4, 5, 6, 9, 12, 13, 17, 24, 33, 40, 65, 129, 257, 1025):
            for h in (2.0 ** -8, 2.0 ** -16, 2.0 ** -20, 2.0 ** -24, 2.0 ** -27, 2.0 ** -30, 2.0 ** -34):
                for dim in (2, 3, 4):
                    for r in range(1, dim):
                        rows = [[2 * x for x in p[:dim]] for p in flat_points(n, dim, dim)]
                        # only the last of the first r+1 directions is thin
                        for at in {r, 0}:
                            q = [[(x * h if i == at else x) if i <= r else 0 for i, x in enumerate(p)] for p in rows]
                            yield prog(q)
                    rows = [[i * (k + 1) for k in range(dim)] for i in range(n)]
                    for at in sorted({0, n // 2, n - 1}):
                        q = [list(p) for p in rows]
                        q[at][-1] += n * h
                        yield prog(q)
    return g


def gen_scales(tier):
    def g():
        L = lattice(2, (-1, 0, 1))
        for rows in product(L, repeat=3):
            for s in [2.0 ** k for k in (-40, -20, -10, 10, 20, 40)]:
                yield xform(prog([[0, 0]] + list(rows)), scale=s)
            for off in ([2.0 ** 20, -2.0 ** 19], [1000, 7], [-3, 2.0 ** 22], *FAROFF):
                yield xform(prog(list(rows)), offset=off)
        L = lattice(3, (0, 1))
        for rows in product(L, repeat=3):
            for s in [2.0 ** k for k in (-40, -20, 20, 40)]:
                yield xform(prog([[0, 0, 0]] + list(rows)), scale=s)
            for off in ([2.0 ** 20, -2.0 ** 19, 2.0 ** 21], [1000, 7, -12], *FAROFF):
                yield xform(prog([[0, 0, 0]] + list(rows)), offset=off)
    return g


def gen_tol(tier):
    def g():
        for h in LADDER:
            for tol in (1e-9, 1e-5, 5e-4, 5e-3, 5e-2, 0.5, 3):
                for base in ([[0, 0, 0], [1, 0, 0], [2, 0, 0]], [[0, 0, 0], [1, 1, 1], [3, 3, 3]], [[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]],
                             [[1, 2, 3], [1, 2, 3], [1, 2, 3]], [[0, 0], [1, 1], [2, 2]], [[0], [1], [2]]):
                    for i in range(len(base)):
                        for j in range(len(base[0])):
                            r = [list(x) for x in base]
                            r[i][j] += h
                            yield prog(r, [{'tol': tol}])
        L = lattice(2, (0, 1, 2))
        for rows in product(L, repeat=3):
            yield prog(list(rows), [{'tol': t} for t in (0.1, 0.6, 0.9, 1.2, 1.9, 3.1)])
        # repeated points do not count
        for base in ([[0, 0], [10, 0], [5, 0.125]], [[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 0.25]], [[1, 1], [1, 1.5]], [[0], [1], [3]], [[0, 0, 0], [4, 0, 0], [1, 0.25, 0]],
                     [[0, 0, 0, 0], [4, 0, 0, 1], [0, 4, 0, 2], [0, 0, 0.5, 1], [1, 1, 1, 1.25]]):
            for i in range(len(base)):
                for k in (1, 2, 3, 7, 30, 100):
                    for tol in (0.03, 0.06, 0.09, 0.12, 0.2, 0.3, 0.5, 0.8, 1, 2, 4):
                        yield prog(base + [base[i]] * k, [{'tol': tol}])
                        yield prog([p for p in base for _ in range(k)], [{'tol': tol}]) if i == 0 else prog([base[i]] * k + base[::-1], [{'tol': tol}])
    return g


def EXPLORE(tier):
    return [
        Exploration('multisets', gen_multisets(tier), bounds='all sequences of up to 3 and multisets of 4 (5) lattice points dims 1-3, structured sets dims 4-6'),
        Exploration('order', gen_order(tier), bounds='all orderings and duplications of 11 sets of rank 0-3, scaled and translated'),
        Exploration('sizes', gen_sizes(tier), bounds='flats of rank 0-3 with up to 1025 points, one outlier at every/several positions'),
        Exploration('thin', gen_thin(tier), bounds='sets of 3-1025 points whose extent in one direction is 2^-8 .. 2^-34 of the others'),
        Exploration('scales', gen_scales(tier), bounds='all triples at scales 2^-40..2^40 and large offsets'),
        Exploration('tol', gen_tol(tier), bounds='six perturbations of every coordinate against seven tolerances'),
    ]
