"""Finite alphabets used by the explorations."""
from __future__ import annotations

import itertools
from itertools import product

OFFS = [1000, -2000, 4096, 7, -65536, 300]
# Far from the origin: map coordinates, exact large offsets, inexact large offsets.
FAROFF = [[500000.25, 5600000.5, 130.75, -12.5, 99, 1e6], [2.0 ** 33, -2.0 ** 34, 2.0 ** 32, 2.0 ** 33, 1, -2.0 ** 31], [-12345678.9, 98765432.1, 1e7 / 3, 0.1, 1e5, -1e8]]


def lattice(dim, vals):
    return [list(p) for p in product(vals, repeat=dim)]


def nonzero(vs):
    return [v for v in vs if any(v)]


def P(x):
    return {'P': list(x)}


def V(x):
    return {'V': list(x)}


def S(rows):
    return {'S': [list(r) for r in rows]}


def R(x):
    return {'R': x}


def N(x):
    return {'N': x}


def I(x):
    return {'I': x}


def ref(i):
    return {'$': i}


# Relative distances from a boundary, on both sides.
LADDER = [sg * m * 10.0 ** -k for k in range(1, 14) for sg, m in ((1, 1), (-1, 1), (1, 3))]

# Powers of two (products and differences stay exact) and others (they are rounded).
SCALES = [2.0 ** k for k in (-120, -60, -30, -20, -10, -3, 3, 10, 20, 30, 60, 120)] + [1.1e-40, 1.7e-9, 1.3e-4, 2.3e3, 3.3e8, 1.9e25, 1 + 2.0 ** -21, 1 - 2.0 ** -31]
# Almost, but not quite one.
NEAR_ONE = [1 + sg * 2.0 ** -k for k in (12, 16, 20, 21, 24, 28, 32, 40) for sg in (1, -1)] + [1 + 5e-7, 1 - 1e-9]
SCALES_MID = [2.0 ** k for k in (-20, -10, 10, 20)] + [1.3e-7, 1.7e-3, 2.3e3, 1.9e6]

REPS = ['tuple', 'floats', 'listoftuples', 'arrays', 'scalars', 'ndarray', 'int64', 'int32', 'float64', 'longdouble', 'swapped', 'fortran', 'strided',
        'reversed', 'readonly', 'roint', 'transposed', 'offsetview', 'spatial', 'spatialfloat', 'points', 'cross']


def spread(n, k):
    """n distinct deterministic k-dimensional integer points in general position."""
    out = []
    for i in range(n):
        out.append([((i * (7 + 4 * j) + j * j * 3 + (i * i * (j + 1)) % 11) % (13 + 2 * j)) - 6 for j in range(k)])
    return out


def vecs_dim(dim):
    """A compact family of vectors of higher dimension: unit directions, sign patterns, sparse and dense ones."""
    out = []
    for i in range(dim):
        e = [0] * dim
        e[i] = 1
        out.append(e)
        e = [0] * dim
        e[i] = -2
        out.append(e)
    for i in range(dim - 1):
        e = [0] * dim
        e[i], e[i + 1] = 1, -1
        out.append(e)
        e = [0] * dim
        e[i], e[-1] = 3, 4
        out.append(e)
    out.append(list(range(1, dim + 1)))
    out.append([(-1) ** i * (i + 1) for i in range(dim)])
    out.append([1] * dim)
    out.append([-1] * dim)
    out.append([(i % 3) - 1 for i in range(dim)])
    out.append([2 * ((i % 2)) for i in range(dim)])
    uniq = []
    for v in out:
        if v not in uniq:
            uniq.append(v)
    return uniq


SIZES = list(range(1, 41)) + [48, 63, 64, 65, 96, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049]
SIZES_SMALL = list(range(1, 20)) + [31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1001, 1024, 1025]


def pairs(xs, ys=None):
    return product(xs, xs if ys is None else ys)
