"""C16: side and containment answers agree with the geometry."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

TOL = [{}, {'abs_tol': 1e-9}, {'abs_tol': 0.25}, {'abs_tol': 1.2}, {'abs_tol': 3.5}]


def lp_prog(cls, p, d, q, tols=TOL):
    s = [['new', cls, [P(p), V(d)]]]
    for kw in tols:
        s.append(['op', ref(0), 'contains_point', [P(q)], kw])
    s.append(['op', ref(0), 'side_point', [P(q)], {}])
    return s


def gen_line_plane(tier):
    big = tier == 'thorough'

    def g():
        for cls in ('Line', 'Plane'):
            for d in nonzero(lattice(1, (-3, -1, 0, 1, 2))):
                for p, q in product((-1, 0, 2), repeat=2):
                    yield lp_prog(cls, [p], d, [q])
            for d in nonzero(lattice(2, range(-3, 4))):
                for p in ([0, 0], [1, -2]):
                    for q in lattice(2, (-3, -2, -1, 0, 1, 2, 3)):
                        yield lp_prog(cls, p, d, q)
            for d in nonzero(lattice(3, (-1, 0, 1, 2) if not big else range(-2, 4))):
                for p in ([0, 0, 0], [1, -2, 3]):
                    for q in lattice(3, (-2, 0, 1)) + [[p[i] + k * d[i] for i in range(3)] for k in (1, -2, 3)]:
                        yield lp_prog(cls, p, d, q)
            for dim in range(4, 7):
                for d, q in product(vecs_dim(dim), repeat=2):
                    yield lp_prog(cls, [0] * dim, d, q)
                    yield lp_prog(cls, [1] * dim, d, [1 + 2 * x for x in q])
            for a, b in product(range(1, 7), repeat=2):
                yield lp_prog(cls, [1] * a, [2] * a, [3] * b, [{}])
    return g


def gen_lp_scaled(tier):
    def g():
        for cls in ('Line', 'Plane'):
            for dim in (2, 3):
                for d in nonzero(lattice(dim, (-1, 0, 2))):
                    p = [1, -2, 3][:dim]
                    for q in lattice(dim, (-1, 3))[:: dim - 1] + [p, [x + y for x, y in zip(p, d)], [x - 2 * y for x, y in zip(p, d)]]:
                        pr = lp_prog(cls, p, d, q, [{}])
                        for s in SCALES if dim == 2 else SCALES[::2]:
                            yield xform(pr, scale=s)
                            yield xform(pr, scale=1, vscale=s)
                        for k in (-1, 0.1, 1e-6, -1e6):
                            yield lp_prog(cls, p, [k * x for x in d], q, TOL[:2])
                        for off in (OFFS[:dim], [2.0 ** 20, 2.0 ** 21, -2.0 ** 19][:dim], *(f[:dim] for f in FAROFF)):
                            yield xform(pr, offset=off)
            # distances on both sides of the tolerance
            for d in ([1, 0], [0, 1], [3, 4], [-4, 3], [1, 1], [5, -12]):
                w = [-d[1], d[0]]
                for h in LADDER:
                    for t in (0, 1, -3, 0.5):
                        q = [1 + t * x + h * y for x, y in zip(d, w)] if cls == 'Line' else [1 + t * y + h * x for x, y in zip(d, w)]
                        for ab in (0.9, 1.1, 5.5, 13.5):
                            n = (d[0] ** 2 + d[1] ** 2) ** 0.5
                            yield lp_prog(cls, [1, 1], d, q, [{'abs_tol': abs(h) * n * f} for f in (0.5, 0.9, 0.999, 1.001, 1.1, 2)] + [{}])
                            break
                        yield lp_prog(cls, [1, 1, 1], [0] + d, [1] + q, [{'abs_tol': abs(h) * n * f} for f in (0.9, 1.1)])
    return g


def seg_prog(a, b, qs, kws=({},)):
    s = [['new', 'LineSegment', [P(a), P(b)]], ['new', 'LineSegment', [P(b), P(a)]]]
    for q in qs:
        for kw in kws:
            s.append(['op', ref(0), 'contains_point', [P(q)], kw])
            s.append(['op', ref(1), 'contains_point', [P(q)], kw])
    return s


def along(a, b, ts, off=None):
    return [[x + t * (y - x) + (off[i] if off else 0) for i, (x, y) in enumerate(zip(a, b))] for t in ts]


TS = (-2, -1, -0.5, -0.125, 0, 0.125, 0.25, 0.5, 0.75, 1, 1.125, 1.5, 2, 3)


def gen_segments(tier):
    def g():
        L2 = lattice(2, (-2, -1, 0, 1, 2))
        for a in ([0, 0], [1, -2], [-1, -1]):
            for b in L2:
                if a == b:
                    continue
                yield seg_prog(a, b, along(a, b, TS), ({}, {'abs_tol': 1e-9}))
                yield seg_prog(a, b, L2)
        L3 = lattice(3, (-1, 0, 2))
        for a in ([0, 0, 0], [1, -2, 3]):
            for b in L3:
                if a != b:
                    yield seg_prog(a, b, along(a, b, TS))
                    yield seg_prog(a, b, along(a, b, (-1, 0, 0.5, 1, 2), [0, 1, 0]) + along(a, b, (0, 0.5, 1), [0.25, 0, -0.25]))
        for b in ([1], [-3], [0.5]):
            yield seg_prog([0], b, along([0], b, TS))
        for dim in (4, 5, 6):
            for b in vecs_dim(dim):
                yield seg_prog([0] * dim, b, along([0] * dim, b, TS) + [[1] * dim])
                yield seg_prog([1] * dim, [1 + x for x in b], along([1] * dim, [1 + x for x in b], TS))
        for a, b in product(range(1, 5), repeat=2):
            yield seg_prog([1] * a, [2] * a, [[1.5] * b])
        for s in SCALES:
            for b in nonzero(lattice(2, (-1, 0, 2))):
                yield xform(seg_prog([1, 2], [1 + b[0], 2 + b[1]], along([1, 2], [1 + b[0], 2 + b[1]], TS) + [[0, 0], [3, 1]]), scale=s)
        for off in (OFFS, [2.0 ** 20, -2.0 ** 21, 5], *FAROFF):
            for b in nonzero(lattice(2, (-1, 0, 2))):
                yield xform(seg_prog([0, 0], b, along([0, 0], b, TS) + [[1, 1], [-1, 2]]), offset=off[:2])
        # slightly off the segment
        for b in ([4, 0], [0, -4], [3, 4], [-8, 6]):
            for h in LADDER:
                qs = [[t * b[0] - h * b[1], t * b[1] + h * b[0]] for t in (-0.5, 0, 0.25, 0.5, 1, 1.5)]
                yield seg_prog([0, 0], b, qs, ({}, {'abs_tol': 1e-2}, {'rel_tol': 1e-3}))
    return g


def ball_prog(cls, c, r, qs, kws=({},)):
    s = [['new', cls, [P(c), R(r)]]]
    for q in qs:
        for kw in kws:
            s.append(['op', ref(0), 'contains_point', [P(q)], kw])
    return s


def gen_balls(tier):
    pyth = [[3, 4], [4, 3], [-3, 4], [5, 0], [0, -5], [-5, 0], [0, 5], [-4, -3]]

    def g():
        for c in ([0, 0], [1, -2], [7, 100]):
            yield ball_prog('Circle', c, 5, [[c[0] + x, c[1] + y] for x, y in pyth + [[0, 0], [3, 3], [4, 4], [6, 0], [0, -4.5], [-3, 3.5]]], TOL)
            for r in (1, 2, 2.5, 5):
                yield ball_prog('Circle', c, r, [[c[0] + x, c[1] + y] for x, y in lattice(2, range(-5, 6))], TOL[:2])
        for c in ([0, 0, 0], [1, -2, 3]):
            for r in (1, 3, 7, 2.5):
                for z in (-3, -2, -1, 0, 1, 2, 3, 6, 7):
                    yield ball_prog('Sphere', c, r, [[c[0] + x, c[1] + y, c[2] + z] for x, y in lattice(2, (-6, -3, -2, -1, 0, 1, 2, 3))], TOL[:2])
        for s in SCALES:
            yield xform(ball_prog('Circle', [1, 2], 5, [[1 + x, 2 + y] for x, y in pyth + [[3, 3], [0, 0], [6, 1]]]), scale=s)
            yield xform(ball_prog('Sphere', [1, 2, 3], 3, [[2, 4, 5], [3, 3, 1], [-1, 1, 4], [1, 2, 3], [2, 2, 2], [1, 2, 0]]), scale=s)
        for h in LADDER:
            for q in pyth:
                yield ball_prog('Circle', [0, 0], 5, [[(1 + h) * x for x in q]], [{'abs_tol': 5 * abs(h) * f} for f in (0.5, 0.99, 1.01, 2)] + [{}])
        for cls, d in (('Circle', 2), ('Sphere', 3)):
            for a in range(1, 6):
                yield ball_prog(cls, [1] * d, 2, [[3] + [1] * (a - 1)])
    return g


def cyl_prog(c, v, r, qs):
    return [['new', 'Cylinder', [P(c), V(v), R(r)]]] + [['op', ref(0), 'is_point_within', [P(q)], {}] for q in qs]


def gen_cylinders(tier):
    big = tier == 'thorough'

    def g():
        box = lattice(3, (-2, -1, 0, 1, 2, 3))
        for v in nonzero(lattice(3, (-1, 0, 2) if not big else (-2, -1, 0, 1, 3))):
            for r in (1, 2.5) if not big else (0.5, 1, 2, 2.5):
                for c in ([0, 0, 0], [1, 0, -1]):
                    for i in range(0, len(box), 54):
                        yield cyl_prog(c, v, r, box[i:i + 54])
        # points placed by their axial and radial position
        for v, u, w in (([0, 0, 4], [1, 0, 0], [0, 1, 0]), ([4, 0, 0], [0, 1, 0], [0, 0, 1]), ([0, -4, 0], [1, 0, 0], [0, 0, 1]), ([2, 2, 1], [1, -2, 2], [2, -1, -2]),
                        ([-3, 4, 0], [0, 0, 5], [4, 3, 0]), ([1, 1, 1], [1, -1, 0], [1, 1, -2])):
            lu = sum(x * x for x in u) ** 0.5
            for r in (1, 3):
                qs = []
                for t in (-0.5, -0.01, 0, 0.25, 0.5, 0.99, 1, 1.01, 1.5):
                    for k in (0, 0.5, 0.99, 1, 1.01, 2):
                        for s, z in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                            lw = sum(x * x for x in w) ** 0.5
                            qs.append([1 + t * v[i] + r * k * (s * u[i] / lu + z * w[i] / lw) for i in range(3)])
                near = [(t, 1 + h) for t in (0.25, 0.5) for h in LADDER] + [(h, k) for h in LADDER for k in (0, 0.5)] + [(1 + h, k) for h in LADDER for k in (0, 0.5)]
                for t, k in near:
                    qs.append([1 + t * v[i] + r * k * (u[i] / lu) for i in range(3)])
                    qs.append([1 + t * v[i] - r * k * (w[i] / lw) for i in range(3)])
                for i in range(0, len(qs), 54):
                    yield cyl_prog([1, 1, 1], v, r, qs[i:i + 54])
                    for s in SCALES:
                        yield xform(cyl_prog([1, 1, 1], v, r, qs[i:i + 54]), scale=s)
                    yield xform(cyl_prog([1, 1, 1], v, r, qs[i:i + 54]), offset=OFFS[:3])
                    for k in (1e-3, 1e3):
                        yield cyl_prog([1, 1, 1], [k * x for x in v], r, qs[i:i + 54])
        for a in range(1, 6):
            yield cyl_prog([0, 0, 0], [0, 0, 1], 1, [[0] * a, [0.5] * a])
    return g


def EXPLORE(tier):
    return [
        Exploration('line_plane', gen_line_plane(tier), bounds='all lattice lines/planes x points dims 1-3, structured 4-6, five tolerances'),
        Exploration('lp_scaled', gen_lp_scaled(tier), bounds='ten scales, direction lengths, offsets, distances around the tolerance'),
        Exploration('segments', gen_segments(tier), bounds='lattice segments in both directions x lattice points and 14 positions along the line, dims 1-6'),
        Exploration('balls', gen_balls(tier), bounds='circles/spheres x lattice points, all Pythagorean boundary points, tolerances'),
        Exploration('cylinders', gen_cylinders(tier), bounds='cylinders with all lattice axes x box of points; 9 axial x 6 radial positions x 4 sides, ten scales'),
    ]
