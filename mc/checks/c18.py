"""C18: plane intersections and projected lines."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def pl(p, n, q, d, kws=({},)):
    s = [['new', 'Plane', [P(p), V(n)]], ['new', 'Line', [P(q), V(d)]]]
    for kw in kws:
        s += [['op', ref(0), 'intersect_line', [ref(1)], kw], ['op', ref(0), 'project_line', [ref(1)], kw]]
    return s


def pp(p, n, q, m, kws=({},)):
    s = [['new', 'Plane', [P(p), V(n)]], ['new', 'Plane', [P(q), V(m)]]]
    for kw in kws:
        s += [['op', ref(0), 'intersect_plane', [ref(1)], kw], ['op', ref(1), 'intersect_plane', [ref(0)], kw]]
    return s


def gen_plane_line(tier):
    big = tier == 'thorough'

    def g():
        N = nonzero(lattice(3, (-2, -1, 0, 1, 2) if big else (-1, 0, 1, 2)))
        D = nonzero(lattice(3, (-1, 0, 1, 2)))
        for n, d in product(N, D):
            for p, q in (([0, 0, 0], [1, -2, 3]), ([1, 2, 0], [1, 2, 0])):
                yield pl(p, n, q, d)
        D = nonzero(lattice(3, (-1, 0, 2)))
        for n, d in product(D, D):
            yield pl([1, 0, -1], n, [0, 2, 1], d)
            # the line starts on the plane
            yield pl([1, 0, -1], n, [1 + n[1], -n[0], -1], d)
        N = nonzero(lattice(2, range(-3, 4)))
        for n, d in product(N, N):
            yield pl([1, 2], n, [0, -1], d)
        for dim in (1, 4, 5, 6):
            for n, d in product(vecs_dim(dim), repeat=2):
                yield pl([1] * dim, n, [(-1) ** i * i for i in range(dim)], d)
        for a, b in product(range(1, 6), repeat=2):
            yield pl([1] * a, [2] * a, [0] * b, list(range(1, b + 1)))
        for bad in (None, [1, 2, 3], {'t': [[0, 0, 0], [1, 1, 1]]}):
            for m in ('intersect_line', 'project_line', 'intersect_plane'):
                yield [['new', 'Plane', [P([0, 0, 0]), V([1, 0, 0])]], ['op', ref(0), m, [bad], {}]]
    return g


def gen_planes(tier):
    big = tier == 'thorough'

    def g():
        N = nonzero(lattice(3, (-2, -1, 0, 1, 2) if big else (-1, 0, 1, 2)))
        for n, m in product(N, N):
            yield pp([0, 0, 0], n, [1, -2, 3], m)
            if big or (n[0] + m[1]) % 2 == 0:
                yield pp([1, 2, 0], n, [1, 2, 0], m)
                yield pp([1, 0, 0], n, [0, 0, 5], m)
        for n in N:
            for k in (1, -1, 2, 0.1, -0.3, 1e-3, 1e3):
                for q in ([0, 0, 0], [1, 1, 1], n):
                    yield pp([0, 0, 0], n, q, [k * x for x in n])
    return g


def gen_scaled(tier):
    def g():
        D = [[1, 0, 0], [0, -1, 0], [0, 0, 2], [1, 1, 0], [1, -1, 2], [-2, 1, 1], [3, 4, 0], [1, 2, 3]]
        for n, d in product(D, D):
            for p, q in (([0, 0, 0], [1, 2, 3]), ([2, -1, 1], [0, 1, 0])):
                for s in SCALES:
                    yield xform(pl(p, n, q, d), scale=s)
                    yield xform(pl(p, n, q, d), scale=1, vscale=s)
                for s in SCALES_MID + [2.0 ** -3, 2.0 ** 3]:
                    yield xform(pp(p, n, q, d), scale=s)
                    yield xform(pp(p, n, q, d), scale=s, vscale=1)
                for off in (OFFS[:3], [2.0 ** 20, 2.0 ** 21, -2.0 ** 19], *FAROFF):
                    yield xform(pl(p, n, q, d), offset=off)
                    yield xform(pp(p, n, q, d), offset=off)
                for k in (-1, 0.1, 1e3, -1e-3):
                    yield pl(p, n, q, [k * x for x in d])
                    yield pl(p, [k * x for x in n], q, d)
                    yield pp(p, n, q, [k * x for x in d])
    return g


def gen_tol(tier):
    """Nearly parallel and nearly perpendicular pairs against tolerances."""
    def g():
        for n in ([1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 2, 2], [-3, 0, 4]):
            w = [n[1], -n[0], 0] if n[0] or n[1] else [1, 0, 0]
            for h in LADDER:
                a = [x + h * y for x, y in zip(n, w)]
                b = [y + h * x for x, y in zip(n, w)]
                kws = [{}, {'abs_tol': 1e-2}, {'abs_tol': 1e-4}, {'abs_tol': 1e-7}, {'rel_tol': 1e-3}]
                for v in (a, b):
                    yield pl([1, 1, 1], n, [0, 2, 0], v, kws)
                    yield pp([1, 1, 1], n, [0, 2, 0], v, kws)
    return g


def EXPLORE(tier):
    return [
        Exploration('plane_line', gen_plane_line(tier), bounds='all plane normals x line directions (entries -1..2), dims 1-6, mixed dimensions'),
        Exploration('planes', gen_planes(tier), bounds='all pairs of plane normals (entries -1..2) at several positions, parallel and coincident planes'),
        Exploration('scaled', gen_scaled(tier), bounds='ten scales, offsets, lengths of normals and directions'),
        Exploration('tol', gen_tol(tier), bounds='pairs off parallel/perpendicular by 1e-1..1e-5 against five tolerances'),
    ]
