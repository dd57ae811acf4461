"""C01: points, vectors and point sets are exactly the finite array they were given."""
import itertools
import math

from mc.domains import *
from mc.engine import Exploration

BAD = [{'f': 'nan'}, {'f': 'inf'}, {'f': '-inf'}]
ALL = ['tuple', 'floats', 'listoftuples', 'arrays', 'scalars', 'ndarray', 'int64', 'int32', 'int16', 'float64', 'float32', 'float16', 'int8', 'longdouble',
       'swapped', 'fortran', 'strided', 'reversed', 'readonly', 'roint', 'transposed', 'offsetview', 'spatial', 'spatialfloat', 'points', 'cross']
HOLD = ['tuple', 'floats', 'listoftuples', 'arrays', 'scalars', 'ndarray', 'float64', 'float32', 'float16', 'longdouble', 'swapped', 'fortran', 'strided', 'reversed',
        'readonly', 'transposed', 'offsetview']
CLS = ('Point', 'Vector', 'Points')


def fill(shape, f):
    if not shape:
        return next(f)
    return [fill(shape[1:], f) for _ in range(shape[0])]


def counter(kind):
    for i in itertools.count():
        yield {'int': (i * 7) % 23 - 9, 'float': ((i * 7) % 23 - 9) * 0.37, 'mixed': (i % 5 - 2) * (1 if i % 2 else 0.5), 'zero': 0, 'negzero': -0.0,
               'big': (-1) ** i * 2.0 ** (900 - i % 50), 'tiny': (-1) ** i * 2.0 ** -(1000 + i % 60), 'bool': bool(i % 2),
               'huge': 1.5e308, 'huge alternating': (-1) ** i * 1.7e308, 'largest integers': 2 ** 63 - 1 - i, 'smallest integers': -2 ** 63 + i,
               'denormal': 5e-324 * (i % 3 + 1)}[kind]


def gen_shapes(tier):
    top = 4 if tier == 'quick' else 5

    def g():
        for rank in range(0, 5):
            sides = range(0, top + 1) if rank <= 3 else (0, 1, 2)
            for shape in product(sides, repeat=rank):
                for kind in ('int', 'float', 'mixed', 'zero', 'negzero', 'big', 'tiny', 'bool', 'huge', 'huge alternating', 'largest integers', 'smallest integers', 'denormal'):
                    v = fill(shape, counter(kind))
                    for cls in CLS:
                        yield [['new', cls, [v]]]
    return g


def enc(v):
    if isinstance(v, list):
        return [enc(x) for x in v]
    return v if math.isfinite(v) else {'f': str(v)}


def gen_bad(tier):
    """One non-finite entry at every position of every shape."""
    def g():
        for rank in (1, 2, 3):
            for shape in product(range(1, 5), repeat=rank):
                n = 1
                for s in shape:
                    n *= s
                if n > 32:
                    continue
                for pos in range(n):
                    for bad in BAD:
                        for kind in ('int', 'float'):
                            it = counter(kind)
                            v = fill(shape, (bad if i == pos else next(it) for i in itertools.count()))
                            for cls in CLS:
                                yield [['new', cls, [v]]]
        # the same in every representation that can hold such a value
        for shape in ((1,), (2,), (3,), (5,), (1, 1), (2, 2), (3, 2), (2, 3), (4, 3)):
            n = shape[0] * (shape[1] if len(shape) == 2 else 1)
            for pos in range(n):
                for bad in BAD:
                    it = counter('int')
                    v = fill(shape, (float(bad['f']) if i == pos else next(it) for i in itertools.count()))
                    for rep in HOLD:
                        for cls in CLS:
                            yield [['new', cls, [{'L': enc(v), 'rep': rep}]]]
        for n in (1, 2, 3, 16, 17, 64, 100, 1000, 1025):
            for pos in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
                for bad in BAD:
                    v = [i % 5 for i in range(n)]
                    v[pos] = bad
                    yield [['new', 'Vector', [v]]]
                    yield [['new', 'Point', [v]]]
                    yield [['new', 'Points', [[[x, 1] for x in v]]]]
                    yield [['new', 'Points', [[[1, 2, x] for x in v]]]]
                    yield [['new', 'Points', [[v, v]]]]
    return g


def gen_reps(tier):
    def g():
        for n in range(1, 8):
            for kind in ('int', 'zero'):
                v = fill((n,), counter(kind))
                for rep in ALL:
                    for role in 'PV':
                        for cls in CLS:
                            yield [['new', cls, [{role: v, 'rep': rep}]]]
        for shape in product(range(1, 6), repeat=2):
            v = fill(shape, counter('int'))
            for rep in ALL:
                for cls in CLS:
                    yield [['new', cls, [{'S': v, 'rep': rep}]]]
        for shape in product((1, 2, 3), repeat=3):
            v = fill(shape, counter('int'))
            for rep in ('ndarray', 'tuple', 'fortran', 'strided', 'arrays'):
                for cls in CLS:
                    yield [['new', cls, [{'L': v, 'rep': rep}]]]
        for x in (0, 3, -2.5):
            for rep in ('ndarray', 'float64', 'int64'):
                for cls in CLS:
                    yield [['new', cls, [{'L': x, 'rep': rep}]]]
    return g


def gen_ragged(tier):
    rag = [[1, [2]], [[1], 2], [[1, 2], [3]], [[1], [2, 3]], [[1, 2], 3], [[], [1]], [[1], []], [[[1]], [1]], [[1, 2], [3, 4], [5]],
           [[1, 2], [3, 4], 5], [[1, 2, 3], [4, 5], [6, 7, 8]]]

    def g():
        for v in rag:
            for cls in CLS:
                yield [['new', cls, [v]]]
        for n in range(2, 6):
            for pos in range(n):
                for w in (1, 3):
                    v = [[i, i] for i in range(n)]
                    v[pos] = [7] * w
                    yield [['new', 'Points', [v]]]
    return g


def gen_sizes(tier):
    def g():
        for n in SIZES:
            v = [(i * 7) % 23 - 9 for i in range(n)]
            yield [['new', 'Vector', [v]]]
            yield [['new', 'Point', [[0.37 * x for x in v]]]]
            for w in (1, 2, 3, 4, 7):
                yield [['new', 'Points', [[[x + j for j in range(w)] for x in v]]]]
            if n <= 130:
                yield [['new', 'Points', [[v] * 2]]]
                yield [['new', 'Points', [[[i * n + j for j in range(n)] for i in range(n)]]]]
    return g


INT_TYPES = {'int8': (-2 ** 7, 2 ** 7 - 1), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1),
             'uint8': (0, 2 ** 8 - 1), 'uint16': (0, 2 ** 16 - 1), 'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1)}
FLOAT_TYPES = {'float16': [65504.0, -65504.0, 2.0 ** -14, 2.0 ** -24, -2.0 ** -24, 1.0 + 2.0 ** -10],
               'float32': [float.fromhex('0x1.fffffep127'), -float.fromhex('0x1.fffffep127'), 2.0 ** -126, 2.0 ** -149, -2.0 ** -149, 1.0 + 2.0 ** -23],
               'float64': [float.fromhex('0x1.fffffffffffffp1023'), -float.fromhex('0x1.fffffffffffffp1023'), 2.0 ** -1022, 5e-324, -5e-324, 1.0 + 2.0 ** -52],
               'longdouble': [float.fromhex('0x1.fffffffffffffp1023'), 5e-324, 1.0 + 2.0 ** -52]}


def gen_limits(tier):
    """The extreme values of every numeric type, alone and together with zero and one."""
    def g():
        types = dict(FLOAT_TYPES)
        for t, (a, b) in INT_TYPES.items():
            types[t] = sorted({a, a + 1, b // 2, b // 2 + 1, b // 2 + 2, b - 1, b})
        for t, vals in types.items():
            vals = [*vals, 0, 1] if t in INT_TYPES else [*vals, 0.0, 1.0]
            for k in (1, 2, 3):
                for v in product(vals, repeat=k):
                    for cls in CLS:
                        yield [['new', cls, [{'L': list(v), 'rep': t}]]]
                        if k > 1:
                            yield [['new', cls, [{'L': [[x, w] for x in v for w in v[:1]], 'rep': t}]]]
            # plain Python numbers of the same magnitude
            for v in product(vals, repeat=2):
                for cls in CLS:
                    yield [['new', cls, [list(v)]]]
                    yield [['new', cls, [[list(v), list(v[::-1])]]]]
    return g


def EXPLORE(tier):
    return [
        Exploration('limits', gen_limits(tier), bounds='the extreme values (and neighbours, halves, 0, 1) of 12 numeric types, lengths 1-3, as arrays of the type and as plain numbers'),
        Exploration('shapes', gen_shapes(tier), bounds='all shapes of rank 0-4 with sides 0-4 (0-2 for rank 4), 13 kinds of content (up to the largest finite numbers), three classes'),
        Exploration('nonfinite', gen_bad(tier), bounds='NaN, inf, -inf at every position of every shape of up to 32 entries, and in long arrays'),
        Exploration('representations', gen_reps(tier), bounds='24 input representations of all small shapes'),
        Exploration('ragged', gen_ragged(tier), bounds='ragged nested lists'),
        Exploration('sizes', gen_sizes(tier), bounds='lengths up to 2049, widths up to 130'),
    ]
