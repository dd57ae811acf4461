"""C21: fitted lines and planes minimise the sum of squared distances."""
from itertools import combinations_with_replacement

from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def fit(cls, rows, kw=None):
    kw = dict(kw or {})
    s = [['new', 'Points', [S(rows)]], ['cm', cls, 'best_fit', [ref(0)], kw], ['cm', cls, 'best_fit', [S(rows)], {**kw, 'return_error': True}]]
    if 'full_matrices' not in kw:
        # the fit and its error agree with the measurements of the fitted object
        s += [['item', ref(2), 0], ['op', ref(1), 'sum_squares', [ref(0)], {}], ['op', ref(3), 'sum_squares', [S(rows)], {}]]
    else:
        s += [['item', ref(2), 0], ['op', ref(3), 'sum_squares', [ref(0)], {}]]
    return s


def elong(n, dim, k=0):
    """Points scattered around a direction that depends on k; exact small integers."""
    out = []
    for i in range(n):
        t = i - n // 2
        p = [((i * (3 + j) + j) % 5) - 2 for j in range(dim)]
        for j in range(dim):
            p[j] += t * (((k + j) % 5) - 2 or (3 if j == k % dim else 0))
        out.append(p)
    return out


def flat(n, k=0):
    u, v = ([1, 0, 2], [0, 1, -1]), ([2, 1, 0], [1, -2, 1])
    u, v = (u, v, ([1, 1, 1], [0, 1, -1]), ([3, 0, 0], [0, 0, 2]))[k % 4]
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    out = []
    for i in range(n):
        a, b, c = (i * 5) % 7 - 3 + i % 3, (i * 3) % 11 - 5, 0.125 * ((i * 7) % 4 - 1.5)
        out.append([a * u[j] + b * v[j] + c * w[j] for j in range(3)])
    return out


def gen_small(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals, top in ((1, (-2, 0, 1, 5), 4), (2, (-1, 0, 2), 4 if big else 3), (3, (0, 1), 5 if big else 4), (3, (-1, 0, 2), 3 if big else 2)):
            L = lattice(dim, vals)
            for n in range(1, top + 1):
                for rows in (product(L, repeat=n) if n <= 2 else combinations_with_replacement(L, n)):
                    yield fit('Line', list(rows))
        L = lattice(2, (-1, 0, 2))
        for rows in combinations_with_replacement(L, 4):
            yield fit('Line', list(rows))
        for vals, top in (((0, 1), 5), ((-1, 0, 2) if big else (0, 2, 3), 3)):
            L = lattice(3, vals)
            for n in range(1, top + 1):
                for rows in (product(L, repeat=n) if n <= 2 else combinations_with_replacement(L, n)):
                    yield fit('Plane', list(rows))
        L = [[x, y, z] for x, y in product((-1, 0, 2), repeat=2) for z in (0, 1, -2)]
        for rows in combinations_with_replacement(L[::2], 4):
            yield fit('Plane', list(rows))
        # all orders of the rows
        from itertools import permutations
        for base in ([[0, 0, 0], [1, 2, 0], [3, -1, 1], [2, 2, 5]], [[1, 1, 1], [1, 1, 1], [4, 0, 2], [0, 3, 1]], [[0, 0, 1], [5, 0, 1], [0, 5, 1], [5, 5, 1]]):
            for rows in permutations(base):
                yield fit('Line', list(rows))
                yield fit('Plane', list(rows))
    return g


def gen_sizes(tier):
    def g():
        for n in (SIZES if tier == 'thorough' else SIZES_SMALL + list(range(20, 31)) + [96, 130, 500]):
            if n < 2:
                continue
            for dim in (1, 2, 3, 4, 5, 6):
                if dim > 3 and n > 300:
                    continue
                for k in range(5 if n <= 130 else 2):
                    yield fit('Line', elong(n, dim, k))
                yield fit('Line', spread(n, dim))
                if n <= 300:
                    yield fit('Line', elong(n, dim, 1), {'full_matrices': False})
            if n >= 3:
                for k in range(4):
                    yield fit('Plane', flat(n, k))
                yield fit('Plane', spread(n, 3))
                if n <= 300:
                    yield fit('Plane', flat(n, 1), {'full_matrices': False})
        for n in range(2, 13):  # as many points as coordinates, and fewer
            for d in range(2, 13):
                if n <= d:
                    yield fit('Line', spread(n, d))
                    yield fit('Line', elong(n, d, 1))
        for d in (1, 2, 4, 5):
            for n in (1, 3, 4, 5, 6):
                yield fit('Plane', spread(n, d))
    return g


def gen_scales(tier):
    def g():
        sets = [elong(n, 3, k) for n in (2, 3, 4, 7, 12) for k in range(3)] + [spread(5, 3), [[0, 0, 0], [1, 2, 3], [2, 4, 6]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]
        flats = [flat(n, k) for n in (3, 4, 6, 12) for k in range(4)] + [spread(6, 3), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]
        offs = (OFFS[:3], [2.0 ** 20] * 3, [2.0 ** 26, -2.0 ** 25, 0], [0.1, -0.7, 1e4], [1e6, 1e6, -1e6], [1e7, 0, 0])
        for rows in sets:
            for s in SCALES + [0.1, 3.7, 1e-5, 1e5]:
                yield xform(fit('Line', rows), scale=s)
            for o in offs:
                yield xform(fit('Line', rows), offset=o)
        for rows in flats:
            for s in SCALES + [0.1, 3.7, 1e-5, 1e5]:
                yield xform(fit('Plane', rows), scale=s)
            for o in offs:
                yield xform(fit('Plane', rows), offset=o)
        # anisotropic sets: the variation along the axes differs by powers of ten
        for a, b, c in product((1, 1e-2, 1e-4, 1e3), repeat=3):
            rows = [[a * x, b * y, c * z] for x, y, z in ((0, 0, 0), (1, 1, 1), (-2, 1, 0), (3, -1, -1), (0, 2, 1), (-1, -1, 2))]
            yield fit('Line', rows)
            yield fit('Plane', rows)
    return g


def gen_almost(tier):
    """Points that are almost, but not quite, on a line or plane: the error is small, but not zero."""
    def g():
        for n in (3, 4, 5, 7, 12, 40):
            base = spread(n + 1, 3)
            for k in (2, 6, 10, 14, 18, 22):
                h = 2.0 ** -k
                for axis in range(3):
                    rows = [[x * 100 for x in r] for r in base[1:]]
                    for i, r in enumerate(rows):
                        r[axis] = h * ((i * i) % 3)
                    yield fit('Plane', rows)
                    yield xform(fit('Plane', rows), offset=OFFS[:3])
                    rows = [[h * ((i * i) % 3)] * 3 for i in range(n)]
                    for i, r in enumerate(rows):
                        r[axis] = 100 * (i - 1)
                    yield fit('Line', rows)
                    yield fit('Line', [r[:2] for r in rows])
                    rows = [[100 * i + h * ((i * j) % 3) for j in range(3)] for i in range(n)]
                    yield fit('Line', rows)
    return g


def gen_tol(tier):
    """Degenerate and nearly degenerate sets with tolerances on both sides of the singular values."""
    def g():
        for e in (0, 0.5, 1, *LADDER):
            for tol in (None, 0, 1e-4, 1e-3, 0.01, 0.05, 0.3, 0.6, 2, 5, 20):
                kw = {} if tol is None else {'tol': tol}
                for rows in ([[0, 0, 0], [e, 0, 0]], [[0, 0, 0], [e, 0, 0], [0, e, 0]], [[0, 0, 0], [3, 0, 0], [0, e, 0]], [[0, 0, 0], [3, 0, 0], [1, e, 0], [0, 0, e]],
                             [[1, 1, 1], [2, 2, 2], [3, 3, 3 + e]], [[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, e]]):
                    yield fit('Line', rows, kw)
                    yield fit('Plane', rows, kw)
                    yield fit('Line', [r[:2] for r in rows], kw)
        for rows in ([[1, 2, 3]], [[1, 2, 3]] * 5, [[0.1, 0.2, 0.3]] * 4):
            yield fit('Line', rows)
            yield fit('Plane', rows)
        for bad in ([], [[]], [1, 2, 3], [[1, 2], [3]], None, [[{'f': 'nan'}, 0, 0], [1, 1, 1], [2, 3, 4]], [['a', 'b', 'c']]):
            for cls in ('Line', 'Plane'):
                yield [['cm', cls, 'best_fit', [bad], {}]]
    return g


def EXPLORE(tier):
    return [
        Exploration('small', gen_small(tier), bounds='multisets of up to 4-5 lattice points in dims 1-3, all row orders of three sets'),
        Exploration('sizes', gen_sizes(tier), bounds='2-30 points and around 64,128,256,512,1000,1024, dims 1-6, N<=D up to 12, full_matrices'),
        Exploration('almost', gen_almost(tier), bounds='3-40 points at distances 2^-2 to 2^-22 from the axes, the coordinate planes and the diagonal'),
        Exploration('scales', gen_scales(tier), bounds='scales 2^-60..2^60, offsets to 2^26, anisotropic sets'),
        Exploration('tolerances', gen_tol(tier), bounds='near-degenerate sets x 11 tolerances, malformed input'),
        Exploration('large', tiled.gen_sets([['fit', 'Line'], ['fit', 'Plane']], tier), tiled.run, bounds=tiled.BOUNDS),
    ]
