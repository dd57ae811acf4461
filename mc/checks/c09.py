"""C09: equality and closeness are decided by the coordinates and the given tolerances."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

TOLS = [{}, {'rel_tol': 0.0}, {'rel_tol': 1e-3}, {'rel_tol': 0.25}, {'abs_tol': 1e-6}, {'abs_tol': 0.5}, {'abs_tol': 2.0}, {'rel_tol': 1e-2, 'abs_tol': 0.1},
        {'rel_tol': 0.0, 'abs_tol': 1e-12}, {'rel_tol': 0.0, 'abs_tol': 1.0}]
KIND = {'Point': 'P', 'Vector': 'V', 'Points': 'S'}


def mk(cls, v):
    return {KIND[cls]: v}


def pair(cls, x, cls2, y, kws=({},)):
    """Both directions, as spatial objects and as plain lists."""
    s = [['new', cls, [mk(cls, x)]], ['new', cls2, [mk(cls2, y)]]]
    for a, b in ((0, ref(1)), (1, ref(0)), (0, mk(cls2, y)), (1, mk(cls, x))):
        s.append(['op', ref(a), 'is_equal', [b], {}])
        for kw in kws:
            s.append(['op', ref(a), 'is_close', [b], kw])
    return s


def gen_arrays(tier):
    def g():
        for dim, vals in ((1, (-2, -1, 0, 1, 2)), (2, (-1, 0, 1, 2)), (3, (-1, 0, 1) if tier == 'quick' else (-1, 0, 1, 2))):
            L = lattice(dim, vals)
            for x, y in product(L, L):
                for c, d in (('Point', 'Point'), ('Vector', 'Vector'), ('Point', 'Vector')):
                    yield pair(c, x, d, y)
        # differing shapes
        for a, b in product(range(1, 7), repeat=2):
            x, y = [1] * a, [1] * b
            yield pair('Point', x, 'Point', y)
            yield pair('Vector', list(range(a)), 'Vector', list(range(b)))
        for (m, n), (k, l) in product(product((1, 2, 3, 4), repeat=2), repeat=2):
            yield pair('Points', [[1] * n] * m, 'Points', [[1] * l] * k)
        # rows in another order, one row different
        L = lattice(2, (0, 1))
        for n in (1, 2, 3):
            for rows in product(L, repeat=n):
                for rows2 in product(L, repeat=n):
                    yield pair('Points', list(rows), 'Points', list(rows2))
        for x in ([1, 2], [1, 2, 3]):
            for y in ([x], [x, x], [[v] for v in x]):
                yield [['new', 'Point', [P(x)]], ['op', ref(0), 'is_equal', [S(y)], {}], ['new', 'Points', [S(y)]], ['op', ref(2), 'is_equal', [P(x)], {}]]
    return g


def gen_positions(tier):
    """A difference in one coordinate only, at every position, of every interesting amount."""
    amounts = [0.0, 1.0, -1.0, 0.3, 1e-3, 1e-5, -1e-7, 1e-8, 2e-9, 5e-10, -1e-10, 1e-13, 2.0 ** -52]

    def g():
        for n in list(range(1, 17)) + [31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1024, 1025]:
            pos = range(n) if n <= 16 else sorted({0, 1, n // 2, n - 2, n - 1, 15, 16, n - 16})
            x = [(i * 7 % 5) - 2 + (i % 3) * 0.5 for i in range(n)]
            for i in pos:
                for e in amounts if n <= 33 else (0.0, 1.0, 1e-5, 1e-10):
                    y = list(x)
                    y[i] = y[i] + e
                    if n <= 6:
                        yield pair('Vector', x, 'Vector', y, TOLS)
                        yield pair('Point', x, 'Vector', y, TOLS[:3])
                    else:
                        yield pair('Point', x, 'Point', y)
                    if e and n <= 101:
                        yield pair('Points', [[v, 1] for v in x], 'Points', [[v, 1] for v in y])
                        yield pair('Points', [x, [0] * n], 'Points', [y, [0] * n])
                        yield pair('Points', [[0] * n, x], 'Points', [[0] * n, y])
        for m, n in product(range(1, 6), repeat=2):
            rows = [[(i * 5 + j * 3) % 7 - 2 for j in range(n)] for i in range(m)]
            for i, j in product(range(m), range(n)):
                for e in (1, *LADDER):
                    r2 = [list(r) for r in rows]
                    r2[i][j] += e
                    yield pair('Points', rows, 'Points', r2, TOLS[:5])
    return g


def gen_tolerance(tier):
    """Values around every tolerance, at several magnitudes."""
    def g():
        for base in (1, -1, 0, 1000, 0.001, 3.7, 1e9, -1e-9, 2.0 ** 60, 2.0 ** -60):
            for kw in TOLS:
                rel, ab = kw.get('rel_tol', 1e-9), kw.get('abs_tol', 0.0)
                t = max(rel * abs(base), ab)
                for f in (0, 0.01, 0.5, 0.9, 0.999, 1.001, 1.1, 2, 100):
                    for sg in (1, -1):
                        y = base + sg * f * t
                        yield [['new', 'Point', [P([base])]], ['op', ref(0), 'is_close', [P([y])], kw],
                               ['new', 'Point', [P([y])]], ['op', ref(2), 'is_close', [P([base])], kw]]
                        yield [['new', 'Vector', [V([5, base])]], ['op', ref(0), 'is_close', [V([5, y])], kw],
                               ['new', 'Points', [S([[5, base], [base, 1]])]], ['op', ref(2), 'is_close', [S([[5, y], [base, 1]])], kw],
                               ['op', ref(2), 'is_close', [S([[5, base], [y, 1]])], kw]]
    return g


def two(cls, p, d, q, e, kws):
    s = [['new', cls, [P(p), V(d)]], ['new', cls, [P(q), V(e)]]]
    for kw in kws:
        s += [['op', ref(0), 'is_close', [ref(1)], kw], ['op', ref(1), 'is_close', [ref(0)], kw]]
    return s


GK = [{}, {'abs_tol': 1e-6}, {'abs_tol': 0.25}, {'rel_tol': 1e-4, 'abs_tol': 1e-7}]


def gen_lines(tier):
    big = tier == 'thorough'

    def g():
        for cls in ('Line', 'Plane'):
            Pn = lattice(2, (-1, 0, 1))
            D = nonzero(lattice(2, (-2, -1, 0, 1, 2)))
            for p, d, e in product(Pn[::2] if not big else Pn, D, D):
                for q in ([0, 0], [1, 0], [0, 2], d, [-d[1], d[0]]):
                    yield two(cls, p, d, q, e, GK)
            D = nonzero(lattice(3, (-1, 0, 1) if not big else (-1, 0, 2)))
            for d, e in product(D, D):
                for p, q in (([0, 0, 0], d), ([1, 0, 2], [1, 0, 2]), ([0, 1, 0], [1, 1, 1]), ([1, 2, 3], [1 + d[0], 2 + d[1], 3 + d[2]])):
                    yield two(cls, p, d, q, e, GK)
            for dim in range(1, 7):
                for d, e in product(vecs_dim(dim), repeat=2):
                    yield two(cls, [1] * dim, d, [1 + x for x in d], e, GK[:2])
                    if dim == 1:
                        yield two(cls, [1], d, [2], e, GK)
            for d in D:
                p = [1, -2, 3]
                for k in (1, -1, 0.1, -3, 1e3, 2.0 ** -30):
                    for t in (0, 1, -2, 0.5, 10):
                        q = [x + t * y for x, y in zip(p, d)]
                        e = [k * x for x in d]
                        for s in [1] + SCALES_MID:
                            yield xform(two(cls, p, d, q, e, [{'abs_tol': 1e-6 * s}, {}]), scale=s, vscale=1)
            # small shifts and small rotations on both sides of the tolerance
            for d in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 2, -2], [-3, 0, 4]):
                w = [d[1], -d[0], 0] if d[0] or d[1] else [1, 0, 0]
                for h in LADDER:
                    for ab in (3e-3, 3e-5, 3e-7):
                        for sc in (1, -2):
                            q = [1 + h * x for x in w] if cls == 'Line' else [1 + h * x for x in d]
                            yield two(cls, [1, 1, 1], d, q, [sc * x for x in d], [{'abs_tol': ab}])
                            e = [sc * (x + h * y) for x, y in zip(d, w)]
                            yield two(cls, [1, 1, 1], d, [1, 1, 1], e, [{'abs_tol': ab}, {'rel_tol': ab}])
    return g


def gen_kinds(tier):
    objs = [['new', 'Line', [P([0, 0, 0]), V([1, 0, 0])]], ['new', 'Plane', [P([0, 0, 0]), V([1, 0, 0])]],
            ['new', 'Point', [P([0, 0, 0])]], ['new', 'Vector', [V([1, 0, 0])]], ['new', 'Points', [S([[0, 0, 0], [1, 0, 0]])]],
            ['new', 'LineSegment', [P([0, 0, 0]), P([1, 0, 0])]], ['new', 'Sphere', [P([0, 0, 0]), 1]], ['new', 'Cylinder', [P([0, 0, 0]), V([1, 0, 0]), 1]],
            ['new', 'Triangle', [P([0, 0, 0]), P([1, 0, 0]), P([0, 1, 0])]], ['new', 'Circle', [P([0, 0]), 1]]]

    def g():
        for i in (0, 1):
            for b in objs[2:] + [objs[1 - i]]:
                for kw in ({}, {'abs_tol': 1e-3}):
                    yield [objs[i], b, ['op', ref(0), 'is_close', [ref(1)], kw]]
            for raw in ([0, 0, 0], [[0, 0, 0], [1, 0, 0]], None, 'x', 3, {'t': [[0, 0, 0], [1, 0, 0]]}):
                yield [objs[i], ['op', ref(0), 'is_close', [raw], {}]]
    return g


TYPES = ['list', 'float64', 'float32', 'int64', 'int32', 'int8', 'uint8', 'uint64', 'strided', 'reversed', 'swapped', 'readonly', 'fortran', 'spatial', 'spatialfloat', 'longdouble', 'float16']


def gen_types(tier):
    """The same and different numbers in all pairs of representations; signed zeros; neighbouring numbers at the limits of the types."""
    def g():
        for x, y in (([0, 1, 2], [0, 1, 2]), ([0, 1, 2], [0, 1, 3]), ([5, 0, 2], [4, 0, 2]), ([1], [1]), ([0, 0], [0, 0]), ([1, 2], [2, 1])):
            for a, b in product(TYPES, repeat=2):
                for cls in ('Point', 'Vector'):
                    yield [['new', cls, [{'P': x, 'rep': a}]], ['new', cls, [{'P': y, 'rep': b}]], ['op', ref(0), 'is_equal', [ref(1)], {}], ['op', ref(1), 'is_close', [ref(0)], {}],
                           ['op', ref(0), 'is_equal', [{'P': y, 'rep': b}], {}]]
                r, q = [x, [7] * len(x)], [y, [7] * len(x)]
                yield [['new', 'Points', [{'S': r, 'rep': a}]], ['new', 'Points', [{'S': q, 'rep': b}]], ['op', ref(0), 'is_equal', [ref(1)], {}], ['op', ref(1), 'is_close', [ref(0)], {}]]
        Z = (0, 0.0, -0.0, 1, -1.0)
        for n in (1, 2, 3):
            for x, y in product(product(Z, repeat=n), repeat=2) if n < 3 else ((x, y) for x in product(Z[1:4], repeat=3) for y in product(Z[1:4], repeat=3)):
                for rep in ('list', 'float64', 'float32'):
                    for cls in ('Point', 'Vector'):
                        yield [['new', cls, [{'P': list(x), 'rep': rep}]], ['new', cls, [{'P': list(y), 'rep': rep}]], ['op', ref(0), 'is_equal', [ref(1)], {}],
                               ['op', ref(0), 'is_close', [ref(1)], {}], ['op', ref(0), 'is_close', [ref(1)], {'rel_tol': 0.0}]]
                    yield [['new', 'Points', [{'S': [list(x), list(y)], 'rep': rep}]], ['new', 'Points', [{'S': [list(y), list(x)], 'rep': rep}]], ['op', ref(0), 'is_equal', [ref(1)], {}],
                           ['op', ref(0), 'is_close', [ref(1)], {}]]
        for p in ([0.0, 1.0, 0.0], [-0.0, 1.0, -0.0]):
            for d in ([0.0, 0.0, 1.0], [-0.0, 0.0, 1.0], [0.0, -0.0, -1.0]):
                for cls in ('Line', 'Plane'):
                    yield two(cls, p, d, [0.0, 1.0, -0.0], [0.0, 0.0, 2.0], GK)
        for t, top in (('int8', 127), ('int16', 2 ** 15 - 1), ('int32', 2 ** 31 - 1), ('int64', 2 ** 63 - 1), ('uint8', 255), ('uint32', 2 ** 32 - 1), ('uint64', 2 ** 64 - 1), ('int64', 2 ** 53 + 1),
                       ('float64', 1.7976931348623157e308), ('float64', 5e-324), ('float32', 2.0 ** 127)):
            near = (top, top - 1, top - 2, 0, 1) if 'int' in t else (top, top * (1 - 2.0 ** -23), top / 2, 0.0, -top)
            for x, y in product(near, repeat=2):
                yield [['new', 'Point', [{'P': [x, 1], 'rep': t}]], ['new', 'Point', [{'P': [y, 1], 'rep': t}]], ['op', ref(0), 'is_equal', [ref(1)], {}],
                       ['new', 'Points', [{'S': [[1, x], [y, 0]], 'rep': t}]], ['new', 'Points', [{'S': [[1, y], [x, 0]], 'rep': t}]], ['op', ref(3), 'is_equal', [ref(4)], {}]]
    return g


def EXPLORE(tier):
    return [
        Exploration('types', gen_types(tier), bounds='all pairs of 17 representations, all signed zeros of lengths 1-3, neighbouring numbers at the limits of 8 types'),
        Exploration('arrays', gen_arrays(tier), bounds='all pairs of lattice points/vectors (dims 1-3) and of sets of 1-3 points, all shape pairs'),
        Exploration('positions', gen_positions(tier), bounds='a difference of 13 amounts at every position, lengths up to 1025'),
        Exploration('tolerance', gen_tolerance(tier), bounds='differences at 9 multiples of 10 tolerance settings, 10 magnitudes'),
        Exploration('lines_planes', gen_lines(tier), bounds='pairs of lattice lines/planes dims 1-6, reparametrisations, scales, shifts and rotations around the tolerance'),
        Exploration('kinds', gen_kinds(tier), bounds='all pairs of kinds of objects'),
    ]
