"""C14: projections are the nearest point of the target object."""
from mc import tiled
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def lp_prog(cls, p, d, q, v=None):
    s = [['new', cls, [P(p), V(d)]], ['op', ref(0), 'project_point', [P(q)], {}],
         ['op', ref(0), 'project_vector', [V(v if v is not None else q)], {}],
         ['op', ref(0), 'project_points', [S([q, p, [x + 1 for x in q]])], {}],
         # idempotent: the projection is projected again
         ['op', ref(0), 'project_point', [ref(1)], {}], ['op', ref(0), 'project_vector', [ref(2)], {}]]
    return s


def gen_line_plane(tier):
    big = tier == 'thorough'

    def g():
        for cls in ('Line', 'Plane'):
            for d in nonzero(lattice(1, (-3, -1, 0, 1, 2))):
                for p, q in product((-1, 0, 2), repeat=2):
                    yield lp_prog(cls, [p], d, [q])
            for d in nonzero(lattice(2, range(-3, 4))):
                for p in lattice(2, (-1, 0, 1) if big else (0, 1)):
                    for q in lattice(2, (-2, 0, 1, 3)):
                        yield lp_prog(cls, p, d, q)
            for d in nonzero(lattice(3, (-2, -1, 0, 1, 2) if not big else (-3, -2, -1, 0, 1, 2, 3))):
                for p in ([0, 0, 0], [1, -2, 3]):
                    for q in lattice(3, (-1, 0, 2)):
                        yield lp_prog(cls, p, d, q)
            for dim in range(4, 7):
                for d, q in product(vecs_dim(dim), repeat=2):
                    yield lp_prog(cls, [(-1) ** i * i for i in range(dim)], d, q)
    return g


def gen_vectors(tier):
    def g():
        for dim, vals in ((1, range(-3, 4)), (2, range(-3, 4)), (3, (-2, -1, 0, 1) if tier == 'quick' else (-2, -1, 0, 1, 3))):
            L = lattice(dim, vals)
            for u, v in product(L, L):
                yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'project_vector', [V(v)], {}], ['op', ref(0), 'project_vector', [ref(1)], {}]]
        for dim in (4, 5, 6):
            for u, v in product(vecs_dim(dim) + [[0] * dim], repeat=2):
                yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'project_vector', [V(v)], {}]]
        for a, b in product(range(1, 7), repeat=2):
            yield [['new', 'Vector', [V([1] * a)]], ['op', ref(0), 'project_vector', [V([2] * b)], {}]]
            for cls in ('Line', 'Plane'):
                yield [['new', cls, [P([1] * a), V([1] * a)]], ['op', ref(0), 'project_vector', [V([2] * b)], {}],
                       ['op', ref(0), 'project_point', [P([2] * b)], {}], ['op', ref(0), 'project_points', [S([[2] * b] * 2)], {}]]
        for n in SIZES:
            u, v = [(i * 5 % 9) - 4 for i in range(n)], [(i * 3 % 7) - 3 for i in range(n)]
            yield [['new', 'Vector', [V(u)]], ['op', ref(0), 'project_vector', [V(v)], {}]]
            if any(u) and n <= 130:
                for cls in ('Line', 'Plane'):
                    yield lp_prog(cls, [1] * n, u, v)
        for u, v in product(nonzero(lattice(3, (-1, 0, 2))), lattice(3, (-1, 0, 1))[::2]):
            for s in SCALES:
                yield xform([['new', 'Vector', [V(u)]], ['op', ref(0), 'project_vector', [V(v)], {}]], scale=s)
                yield [['new', 'Vector', [V([s * x for x in u])]], ['op', ref(0), 'project_vector', [V(v)], {}]]
    return g


def gen_scales(tier):
    def g():
        for cls in ('Line', 'Plane'):
            for d in nonzero(lattice(3, (-1, 0, 2))):
                for q in lattice(3, (-1, 1))[::3] + [[0, 0, 0], [1, -2, 3], [1 + d[0], -2 + d[1], 3 + d[2]]]:
                    pr = lp_prog(cls, [1, -2, 3], d, q)
                    for s in SCALES:
                        yield xform(pr, scale=s)
                        if s in SCALES_MID or tier == 'thorough':
                            yield xform(pr, scale=1, vscale=s)
                    for k in (-1, 0.1, 1e-6, -1e6, 1 / 3):
                        yield lp_prog(cls, [1, -2, 3], [k * x for x in d], q)
                    for off in (OFFS[:3], [2.0 ** 30, -2.0 ** 31, 1.0], [0.1, 0.2, 0.3], *FAROFF):
                        yield xform(pr, offset=off)
            for d in nonzero(lattice(2, (-1, 0, 1, 3))):
                for q in ([0, 0], [5, 1], [-1, 2]):
                    for s in SCALES:
                        yield xform(lp_prog(cls, [1, 2], d, q), scale=s)
                    # far points, points nearly on the object
                    for h in (1e6, 1e9, *LADDER):
                        yield lp_prog(cls, [1, 2], d, [1 + d[0] * 2 + h * d[1], 2 + d[1] * 2 - h * d[0]])
                        yield lp_prog(cls, [1, 2], d, [1 + h * d[0], 2 + h * d[1]])
    return g


def ball(cls, c, r, q):
    return [['new', cls, [P(c), R(r)]], ['op', ref(0), 'project_point', [P(q)], {}], ['op', ref(0), 'project_point', [ref(1)], {}]]


def gen_balls(tier):
    def g():
        for c in lattice(2, (-1, 0, 2)):
            for q in lattice(2, range(-3, 4)):
                for r in (1, 2.5, 5):
                    yield ball('Circle', c, r, q)
        for c in ([0, 0, 0], [1, -2, 3], [2, 0, 0]):
            for q in lattice(3, (-2, -1, 0, 1, 2, 3)):
                for r in (1, 0.75, 4):
                    yield ball('Sphere', c, r, q)
        for cls, c, q in (('Circle', [1, 2], [4, 6]), ('Circle', [1, 2], [1, 2]), ('Circle', [1, 2], [0, 2]), ('Sphere', [1, 2, 3], [3, 2, 2]), ('Sphere', [1, 2, 3], [1, 2, 3]),
                          ('Sphere', [1, 2, 3], [1, 2, 8])):
            for r in (0.5, 1, 3, 7):
                for s in SCALES:
                    yield xform(ball(cls, c, r, q), scale=s)
                for off in (OFFS, [2.0 ** 30, -2.0 ** 29, 2.0 ** 20], [0.1, -0.3, 0.7], *FAROFF):
                    yield xform(ball(cls, c, r, q), offset=off)
            for h in LADDER:
                for i in range(len(c)):
                    q2 = list(c)
                    q2[i] += h
                    yield ball(cls, c, 2, q2)
                    q2 = [0] * len(c)
                    q2[i] = h * 1e-3
                    yield ball(cls, [0] * len(c), 2, q2)
        for a in range(1, 6):
            yield ball('Circle', [1, 1], 2, [3] * a)
            yield ball('Sphere', [1, 1, 1], 2, [3] * a)
    return g


def gen_batches(tier):
    def g():
        for n in SIZES_SMALL:
            for cls, dims in (('Line', (1, 2, 3, 4, 5)), ('Plane', (1, 2, 3, 4))):
                for dim in dims:
                    d = ([2, -1, 3, 1, -2])[:dim]
                    yield [['new', cls, [P([1, -2, 3, 0, 1][:dim]), V(d)]], ['op', ref(0), 'project_points', [S(spread(n, dim))], {}]]
                    yield [['new', cls, [P([0.5, -2, 3, 0, 1][:dim]), V([0] * (dim - 1) + [-3])]], ['op', ref(0), 'project_points', [S([[0.3 * x for x in r] for r in spread(n, dim)])], {}]]
        for n in (1, 2, 3, 4, 5, 9, 33):
            for s in SCALES:
                for cls in ('Line', 'Plane'):
                    yield xform([['new', cls, [P([1, -2, 3]), V([2, -1, 2])]], ['op', ref(0), 'project_points', [S(spread(n, 3))], {}]], scale=s)
    return g


def EXPLORE(tier):
    return [
        Exploration('line_plane', gen_line_plane(tier), bounds='all lattice lines/planes x points, dims 1-3, structured dims 4-6'),
        Exploration('vectors', gen_vectors(tier), bounds='all vector pairs dims 1-3, mixed dimensions, lengths up to 2049, ten scales'),
        Exploration('scales', gen_scales(tier), bounds='ten scales of everything or of the direction only, offsets, far and near points'),
        Exploration('balls', gen_balls(tier), bounds='circles and spheres against all lattice points including the centre, scales, offsets'),
        Exploration('batches', gen_batches(tier), bounds='batches of up to 1025 points, square inputs'),
        Exploration('large', tiled.gen_points({'Line': ['project_points'], 'Plane': ['project_points']}, tier), tiled.run, bounds=tiled.BOUNDS),
    ]
