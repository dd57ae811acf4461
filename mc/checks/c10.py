"""C10: vector measurements equal their definitions."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

PAIR_OPS = ['dot', 'cross', 'cosine_similarity', 'angle_between', 'scalar_projection', 'angle_signed']


def pair_prog(u, v):
    """All pair operations on two live vectors, in both roles."""
    steps = [['new', 'Vector', [V(u)]], ['new', 'Vector', [V(v)]]]
    for m in PAIR_OPS:
        steps.append(['op', ref(0), m, [ref(1)], {}])
    steps.append(['cm', 'Vector', 'from_points', [P(u), P(v)], {}])
    return steps


def unary_prog(u):
    s = [['new', 'Vector', [V(u)]], ['op', ref(0), 'unit', [], {}], ['op', ref(0), 'norm', [], {}]]
    for o in (1, 2, {'f': 'inf'}):
        s.append(['op', ref(0), 'norm', [], {'ord': o}])
    # a unit vector is again a vector of length one
    s.append(['op', ref(1), 'norm', [], {}])
    s.append(['op', ref(0), 'angle_between', [ref(1)], {}])
    return s


def gen_unary(tier):
    def g():
        for dim, vals in ((1, range(-4, 5)), (2, range(-4, 5)), (3, range(-3, 4)), (4, (-1, 0, 2)), (5, (-1, 0, 2)), (6, (0, 1))):
            for u in lattice(dim, vals):
                yield unary_prog(u)
        for dim in (1, 2, 3, 5):
            for u in lattice(min(dim, 3), (-2, 0, 1, 3)):
                u = (u + [1, 2])[:dim]
                for s in SCALES:
                    yield xform(unary_prog(u), scale=s)
        for n in SIZES:
            yield unary_prog([(i * 7 % 11) - 5 for i in range(n)])
            yield unary_prog([1] * n)
            yield unary_prog([0] * (n - 1) + [3])
            yield unary_prog([0] * n)
    return g


def gen_integers(tier):
    """Integers of all magnitudes that the element type can hold."""
    def g():
        for dim in (1, 2, 3, 4):
            for u in nonzero(lattice(dim, (-1, 0, 1) if dim > 2 else (-2, -1, 0, 1, 3))):
                for k in (8, 15, 16, 20, 26, 27, 30, 31, 32, 33, 40, 47, 53, 60):
                    for c in (0, 1):
                        w = [x * 2 ** k + c * (x != 0) for x in u]
                        yield [['new', 'Vector', [V(w)]], ['op', ref(0), 'unit', [], {}], ['op', ref(0), 'norm', [], {}], ['op', ref(0), 'norm', [], {'ord': 1}],
                               ['new', 'Point', [P([0] * dim)]], ['op', ref(4), 'distance_point', [P(w)], {}], ['cm', 'Vector', 'from_points', [P(w), P(u)], {}],
                               ['op', ref(0), 'scalar_projection', [V(u)], {}]]
        for dim in (2, 3):
            L = nonzero(lattice(dim, (-1, 0, 1)))
            for u, v in product(L, L):
                for k in (15, 16, 20, 26, 28):
                    yield pair_prog([x * 2 ** k for x in u], [x * 2 ** k + 1 for x in v])
    return g


def gen_pairs(tier):
    def g():
        big = tier == 'thorough'
        for dim, vals in ((1, range(-3, 4)), (2, range(-3, 4) if not big else range(-5, 6)), (3, (-1, 0, 1, 2) if not big else (-2, -1, 0, 1, 2, 3))):
            L = lattice(dim, vals)
            for u, v in product(L, L):
                yield pair_prog(u, v)
        for dim in (4, 5, 6):
            L = vecs_dim(dim)
            for u, v in product(L, L):
                yield pair_prog(u, v)
    return g


def gen_scaled(tier):
    def g():
        for dim in (2, 3):
            L = nonzero(lattice(dim, (-1, 0, 2)))
            for u, v in product(L, L):
                for s in SCALES:
                    yield xform(pair_prog(u, v), scale=s)
        # very different magnitudes
        for dim in (2, 3, 4):
            L = nonzero(lattice(dim, (-1, 0, 1)))[:: 3 if dim > 2 else 1]
            for u, v in product(L, L):
                for s in (2.0 ** -40, 2.0 ** 40, 1e-8, 1e8, 0.1, 0.7):
                    yield pair_prog(u, [s * x for x in v])
    return g


def gen_dims(tier):
    def g():
        for a in range(1, 7):
            for b in range(1, 7):
                u = [(i % 3) + 1 for i in range(a)]
                v = [2 - (i % 4) for i in range(b)]
                yield pair_prog(u, v)
                yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'angle_signed_3d', [V(v), V([0, 0, 1])], {}]]
                yield [['new', 'Vector', [V([1, 2, 3])]], ['op', ref(0), 'angle_signed_3d', [V(u), V(v)], {}]]
        for n in SIZES:
            u = [(i * 5 % 9) - 4 for i in range(n)]
            v = [(i * 3 % 7) - 3 for i in range(n)]
            yield pair_prog(u, v)
            yield pair_prog(u, u)
            yield pair_prog(u, [-x for x in u])
            yield pair_prog([1] + [0] * (n - 1), [0] * (n - 1) + [1])
    return g


def gen_near(tier):
    """Near-parallel, opposite and perpendicular directions in all quadrants."""
    def g():
        dirs = nonzero(lattice(2, (-2, -1, 0, 1, 3)))
        for u in dirs:
            w = [-u[1], u[0]]
            for e in (0.0, 1e-15, *LADDER):
                for k in (1, -1, 0.1, 3):
                    v = [k * x + e * y for x, y in zip(u, w)]
                    yield pair_prog(u, v)
                    yield pair_prog(u + [0], v + [0])
                    yield pair_prog([0] + u, [0] + v)
        for d in (0.1, 0.2, 0.3, 0.7, 1.1, 1 / 3):
            for k in (1, 2, 3, 7, -1, -3, 0.1, 1e5, 1e-5):
                for u in ([d, 0, 0], [d, 2 * d, 0], [d, d, d], [d, 0.5, -d], [1, d, 2 * d]):
                    yield pair_prog(u, [k * x for x in u])
                    yield pair_prog(u[:2], [k * x for x in u[:2]])
    return g


def gen_axis(tier):
    def g():
        vals = (-1, 0, 1) if tier == 'quick' else (-1, 0, 1, 2)
        L = lattice(3, vals)
        A = lattice(3, (-1, 0, 1))
        for u, v in product(L, L):
            c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            axes = [c, [-x for x in c], [2.5 * x for x in c]] if any(c) else A[::5]
            for p in axes + A[:: 7]:
                yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'angle_signed_3d', [V(v), V(p)], {}]]
        # lengths of the vectors and of the axis; axes that are tilted by small angles
        for u, v in (([1, 0, 0], [0, 1, 0]), ([1, 2, 0], [-2, 1, 0]), ([1, 2, 2], [2, -1, 0]), ([1, 1, 0], [2, 2, 0]), ([1, 1, 1], [-1, 0, 2]), ([0, 3, -1], [0, -1, 4]), ([0.1, 0.7, 0.3], [0.2, -0.3, 1.1])):
            c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            for a, b, e in product((1, 2.0 ** -40, 1e-3, 1e-6, 1e5, 2.0 ** 40), repeat=3):
                for sg in (1, -1):
                    for t in [u, [1, 0, 0], [0, 1, 1], c]:
                        yield [['new', 'Vector', [V([a * x for x in u])]], ['op', ref(0), 'angle_signed_3d', [V([b * x for x in v]), V([sg * e * x for x in t])], {}]]
            for h in LADDER:
                for t in ([0, 0, 1], u, v, [-1, 2, 1]):
                    for sg in (1, -1):
                        yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'angle_signed_3d', [V(v), V([sg * (x + h * y) for x, y in zip(c, t)])], {}]]
    return g


def EXPLORE(tier):
    return [
        Exploration('unary', gen_unary(tier), bounds='norm/unit/ord on lattices in dimensions 1-6, scales 2^-60..2^60, lengths up to 2049'),
        Exploration('integers', gen_integers(tier), bounds='integer vectors with entries up to 2^61 (norms, units, differences) and 2^28 (products)'),
        Exploration('pairs', gen_pairs(tier), bounds='all ordered pairs of lattice vectors in dimensions 1-3, structured vectors in 4-6'),
        Exploration('scaled', gen_scaled(tier), bounds='pairs at ten scales and with very different magnitudes'),
        Exploration('dims', gen_dims(tier), bounds='all dimension pairs 1..6, lengths up to 2049'),
        Exploration('near', gen_near(tier), bounds='pairs off parallel, opposite or perpendicular by 1e-3 .. 1e-15'),
        Exploration('axis', gen_axis(tier), bounds='triples (u, v, axis), axis parallel, antiparallel or not parallel to the cross product'),
    ]
