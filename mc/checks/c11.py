"""C11: vector predicates and orientation tests."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

KW = [{}, {'abs_tol': 1e-6}, {'abs_tol': 0.5}, {'rel_tol': 1e-3}]


def pair_prog(u, v, kws=({},)):
    s = [['new', 'Vector', [V(u)]], ['new', 'Vector', [V(v)]]]
    for kw in kws:
        for m in ('is_parallel', 'is_perpendicular'):
            s.append(['op', ref(0), m, [ref(1)], kw])
            s.append(['op', ref(1), m, [ref(0)], kw])
    s.append(['op', ref(0), 'side_vector', [ref(1)], {}])
    s.append(['op', ref(1), 'side_vector', [ref(0)], {}])
    return s


def unary(u, kws=({},)):
    s = [['new', 'Vector', [V(u)]]]
    for kw in kws:
        s.append(['op', ref(0), 'is_zero', [], kw])
        s.append(['op', ref(0), 'different_direction', [], kw])
    if {} not in kws:
        s.append(['op', ref(0), 'different_direction', [], {}])
    return s


def gen_unary(tier):
    def g():
        for dim, vals in ((1, range(-4, 5)), (2, range(-4, 5)), (3, range(-3, 4)), (4, (-1, 0, 2)), (5, (-1, 0, 2)), (6, (0, 1))):
            for u in lattice(dim, vals):
                yield unary(u, KW[:3])
        for dim in (1, 2, 3, 4):
            for u in lattice(dim, (-1, 0, 1)):
                for s in SCALES + [1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-5, 1e-3, 1e5, 1e9]:
                    yield unary([s * x for x in u], [{}, {'abs_tol': 1e-12}, {'abs_tol': 1e-6}])
        for n in SIZES:
            for i in sorted({0, n // 2, n - 1}):
                for x in (1, -3, 1e-5, 1e-9):
                    v = [0] * n
                    v[i] = x
                    yield unary(v, KW[:2])
            yield unary([0] * n)
            yield unary([1] * n)
            yield unary([(-1) ** i for i in range(n)])
        # almost along an axis or a diagonal
        for dim in (2, 3, 4, 6):
            for base in vecs_dim(dim):
                for i in range(dim):
                    for e in LADDER:
                        v = list(base)
                        v[i] += e
                        yield unary(v, [{}, {'rel_tol': 1e-3}, {'abs_tol': 1e-6}])
    return g


def gen_pairs(tier):
    big = tier == 'thorough'

    def g():
        for dim, vals in ((1, range(-3, 4)), (2, range(-4, 5) if not big else range(-6, 7)), (3, (-1, 0, 1, 2) if not big else (-2, -1, 0, 1, 2, 3))):
            L = lattice(dim, vals)
            for u, v in product(L, L):
                yield pair_prog(u, v, KW if dim < 3 else KW[:1])
        for dim in (4, 5, 6):
            L = vecs_dim(dim) + [[0] * dim]
            for u, v in product(L, L):
                yield pair_prog(u, v, KW)
        for a, b in product(range(1, 7), repeat=2):
            for u, v in (([1] * a, [1] * b), ([0] * a, [1] * b), ([1] * a, [0] * b), ([0] * a, [0] * b), (list(range(a)), list(range(1, b + 1)))):
                yield pair_prog(u, v)
        for n in SIZES:
            u = [(i * 5 % 9) - 4 for i in range(n)]
            yield pair_prog(u, u)
            yield pair_prog(u, [-3 * x for x in u])
            w = list(u)
            w[-1] += 2
            yield pair_prog(u, w)
            yield pair_prog([1] + [0] * (n - 1), [0] * (n - 1) + [1])
            yield pair_prog([1] * n, [(-1) ** i for i in range(n)])
    return g


def gen_exact(tier):
    """Sides of parallel and almost parallel vectors with larger exactly representable coordinates."""
    def g():
        n = 9 if tier == 'quick' else 16
        for u in nonzero(lattice(2, range(-n, n + 1))):
            for k in (2, 3, 5, 7, -1, -3, 10, 49) + (tuple(range(11, 40)) if tier == 'thorough' else ()):
                yield pair_prog(u, [k * x for x in u])
        # consecutive Fibonacci numbers: the cross product is one
        f = [1, 1]
        while len(f) < 38:
            f.append(f[-1] + f[-2])
        for i in range(2, 36):
            for s, t in product((1, -1), (1, -1)):
                a, b = [s * f[i + 1], t * f[i]], [s * f[i], t * f[i - 1]]
                yield pair_prog(a, b)
                yield pair_prog([float(x) for x in a], [float(x) for x in b])
                yield pair_prog(a, [2 * x for x in a])
                yield pair_prog(a, [3.0 * x for x in a])
                yield pair_prog([x / 4 for x in a], [-x / 8 for x in a])
        for k in (3, 10, 17, 24):
            for u in nonzero(lattice(2, (-3, -1, 0, 2, 5))):
                w = [x * (2 ** k + 1) for x in u]
                for d in ((0, 0), (1, 0), (0, -1)):
                    yield pair_prog(u, [x + y for x, y in zip(w, d)])
                    yield pair_prog(w, [x + y for x, y in zip(w, d)])
    return g


def gen_scaled(tier):
    def g():
        for dim in (2, 3):
            L = nonzero(lattice(dim, (-1, 0, 1) if dim == 3 else (-2, -1, 0, 1)))
            for u, v in product(L, L):
                for s in (SCALES if tier == 'thorough' or dim == 2 else SCALES[::2]):
                    yield xform(pair_prog(u, v), scale=s)
                    yield pair_prog(u, [s * x for x in v])
    return g


def gen_near(tier):
    def g():
        for u in nonzero(lattice(2, (-2, -1, 0, 1, 3))):
            w = [-u[1], u[0]]
            for e in LADDER:
                for k in (1, -2, 0.1, 1e4, 1e-4):
                    for base, other in ((u, w), (w, u)):
                        v = [k * (x + e * y) for x, y in zip(base, other)]
                        kws = [{}, {'abs_tol': 1e-4}, {'abs_tol': 1e-7}, {'rel_tol': 1e-5}, {'rel_tol': 1e-3, 'abs_tol': 1e-2}]
                        yield pair_prog(u, v, kws)
                        yield pair_prog(u + [0], v + [0], kws[:3])
                        yield pair_prog([0] + u, [0] + v, kws[:3])
                        yield pair_prog([u[0], 0, u[1], 0], [v[0], 0, v[1], 0], kws[:2])
        for d in (0.1, 0.2, 0.3, 0.7, 1.1, 1 / 3):
            for k in (1, 2, 3, 7, -1, -3, 0.1, 1e5, 1e-5):
                for u in ([d, 0, 0], [d, 2 * d, 0], [d, d, d], [d, 0.5, -d], [1, d, 2 * d]):
                    yield pair_prog(u, [k * x for x in u], KW)
                    yield pair_prog(u[:2], [k * x for x in u[:2]], KW)
    return g


def EXPLORE(tier):
    return [
        Exploration('unary', gen_unary(tier), bounds='zero test and different direction on lattices in dimensions 1-6, 19 scales, lengths up to 2049'),
        Exploration('pairs', gen_pairs(tier), bounds='all ordered pairs of lattice vectors dims 1-3, structured dims 4-6, all dimension pairs, lengths up to 2049'),
        Exploration('exact', gen_exact(tier), bounds='multiples of all plane vectors with entries up to 9 (thorough: 16), consecutive Fibonacci pairs up to 2^25, multiples up to 2^24 and their neighbours'),
        Exploration('scaled', gen_scaled(tier), bounds='pairs at ten scales, and with one of the vectors scaled'),
        Exploration('near', gen_near(tier), bounds='pairs off parallel or perpendicular by 1e-1 .. 1e-7 around five tolerance settings'),
    ]
