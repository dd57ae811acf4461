"""C19: circle and sphere intersections are exactly the common points."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def cc(c, r, d, s):
    return [['new', 'Circle', [P(c), R(r)]], ['new', 'Circle', [P(d), R(s)]], ['op', ref(0), 'intersect_circle', [ref(1)], {}], ['op', ref(1), 'intersect_circle', [ref(0)], {}]]


def bl(cls, c, r, lines):
    s = [['new', cls, [P(c), R(r)]]]
    for q, d in lines:
        i = len(s)
        s += [['new', 'Line', [P(q), V(d)]], ['op', ref(0), 'intersect_line', [ref(i)], {}]]
    return s


def gen_circles(tier):
    big = tier == 'thorough'
    radii = (1, 2, 3, 4, 5, 6, 8, 10, 13, 0.5, 2.5) if not big else (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 15, 20, 0.5, 1.5, 2.5, 0.25)

    def g():
        C = lattice(2, (-4, -3, 0, 1, 3, 4, 5)) if not big else lattice(2, range(-6, 7))
        for d in C:
            for r, s in product(radii, radii):
                yield cc([0, 0], r, d, s)
                if (d[0] + d[1]) % 3 == 0:
                    yield cc([1, -2], r, [1 + d[0], -2 + d[1]], s)
        for bad in (None, [1, 2], {'t': [[0, 0], 1]}):
            yield [['new', 'Circle', [P([0, 0]), 1]], ['op', ref(0), 'intersect_circle', [bad], {}], ['op', ref(0), 'intersect_line', [bad], {}]]
        yield [['new', 'Circle', [P([0, 0]), 1]], ['new', 'Sphere', [P([0, 0, 0]), 1]], ['op', ref(0), 'intersect_circle', [ref(1)], {}]]
        for s in SCALES + [0.1, 3.7]:
            for d in ([3, 4], [4, 0], [0, -5], [1, 1], [-6, 8], [5, 12]):
                for r, t in product((1, 2, 3, 4, 5, 7, 9, 13, 2.5), repeat=2):
                    yield xform(cc([0, 0], r, d, t), scale=s)
        for off in (OFFS[:2], [2.0 ** 20, -2.0 ** 19], [0.1, 0.7], *FAROFF):
            for d in ([3, 4], [4, 0], [0, -5], [1, 1]):
                for r, t in product((1, 2, 3, 4, 5, 7, 9, 2.5), repeat=2):
                    yield xform(cc([0, 0], r, d, t), offset=off)
        # nearly touching
        for h in LADDER:
            for d, D in (([3, 4], 5), ([4, 0], 4), ([0, -7], 7), ([-8, 6], 10)):
                for r in (1, 2, 3):
                    yield cc([0, 0], r, d, D - r + h)
                    yield cc([1, 1], r, [1 + d[0], 1 + d[1]], D + r + h)
        # very different radii
        for k in (1e-3, 1e3, 1e6):
            for d in ([1, 0], [0, 1], [3, 4]):
                yield cc([0, 0], k, [k * x for x in d], 1)
                yield cc([0, 0], k * 5, [k * x for x in d], 2)
    return g


def gen_circle_line(tier):
    def g():
        D = nonzero(lattice(2, (-3, -2, -1, 0, 1, 2, 3, 4) if tier == 'quick' else range(-5, 6)))
        for c in ([0, 0], [1, -2]):
            for r in (1, 2, 5, 2.5, 13):
                for d in D:
                    yield bl('Circle', c, r, [([x, y], d) for x in (-5, -2, 0, 1, 3) for y in (-3, 0, 2, 5)])
                    # tangent lines: the foot of the centre is at distance r for Pythagorean directions
                    n2 = d[0] ** 2 + d[1] ** 2
                    if int(n2 ** 0.5) ** 2 == n2:
                        m = int(n2 ** 0.5)
                        for sg in (1, -1):
                            f = [c[0] - sg * r * d[1] / m, c[1] + sg * r * d[0] / m]
                            yield bl('Circle', c, r, [([f[0] + t * d[0], f[1] + t * d[1]], [k * x for x in d]) for t in (0, 1, -2, 10) for k in (1, -1, 2, 0.25)])
        for a in range(1, 6):
            yield bl('Circle', [0, 0], 2, [([1] * a, [1] * a)])
            yield bl('Sphere', [0, 0, 0], 2, [([1] * a, [1] * a)])
    return g


def gen_sphere_line(tier):
    big = tier == 'thorough'

    def g():
        D = nonzero(lattice(3, (-1, 0, 1, 2)))
        for c in ([0, 0, 0], [1, -2, 3]):
            for r in (1, 3, 2.5):
                for d in D:
                    yield bl('Sphere', c, r, [([c[0] + x, c[1] + y, c[2] + z], d) for x, y, z in lattice(3, (-3, 0, 1) if not big else (-3, -1, 0, 1, 3))])
        # tangent lines along orthogonal integer frames with integer lengths
        F = [([1, 0, 0], [0, 1, 0], [0, 0, 1], 1), ([1, 2, 2], [2, 1, -2], [2, -2, 1], 3), ([2, 3, 6], [3, -6, 2], [6, 2, -3], 7), ([3, 4, 0], [4, -3, 0], [0, 0, 5], 5)]
        for u, v, w, m in F:
            for x, y in ((u, v), (v, w), (w, u), (v, u)):
                for c in ([0, 0, 0], [1, -2, 3]):
                    for k in (1, 2, 0.5):
                        for t in (0, 1, -3):
                            yield bl('Sphere', c, k * m, [([c[i] + k * x[i] + t * y[i] for i in range(3)], [j * a for a in y]) for j in (1, -1, 3, 0.5)])
    return g


def gen_scaled(tier):
    def g():
        for s in SCALES + [0.1, 3.7]:
            for d in nonzero(lattice(2, (-1, 0, 2, 3))):
                yield xform(bl('Circle', [1, 2], 5, [([1 + x, 2 + y], d) for x, y in ((0, 0), (5, 0), (0, -5), (3, 4), (7, 1), (4, -4), (-6, 2))]), scale=s)
            for d in nonzero(lattice(3, (-1, 0, 2))):
                yield xform(bl('Sphere', [1, 2, 3], 3, [([1 + x, 2 + y, 3 + z], d) for x, y, z in ((0, 0, 0), (3, 0, 0), (1, 2, 2), (0, 0, -4), (2, 2, 2))]), scale=s)
        for s in SCALES_MID + [2.0 ** -30, 2.0 ** 30]:
            for d in nonzero(lattice(2, (-1, 0, 2, 3))):
                yield xform(bl('Circle', [1, 2], 5, [([1 + x, 2 + y], d) for x, y in ((0, 0), (5, 0), (0, -5), (3, 4), (7, 1), (4, -4), (-6, 2))]), scale=1, vscale=s)
        for off in (OFFS[:3], [2.0 ** 20, -2.0 ** 19, 2.0 ** 18], [0.1, 0.7, -0.3], *FAROFF):
            for d in nonzero(lattice(2, (-1, 0, 2, 3))):
                yield xform(bl('Circle', [1, 2], 5, [([1 + x, 2 + y], d) for x, y in ((0, 0), (5, 0), (0, -5), (3, 4), (7, 1), (4, -4), (-6, 2))]), offset=off)
            for d in nonzero(lattice(3, (-1, 0, 2))):
                yield xform(bl('Sphere', [1, 2, 3], 3, [([1 + x, 2 + y, 3 + z], d) for x, y, z in ((0, 0, 0), (3, 0, 0), (1, 2, 2), (0, 0, -4), (2, 2, 2))]), offset=off)
        # line points far away, nearly tangent lines
        for d, m in (([3, 4], 5), ([1, 0], 1), ([0, -1], 1), ([-8, 6], 10)):
            w = [-d[1] / m, d[0] / m]
            for h in LADDER:
                for t in (0, 1, -7, 100):
                    yield bl('Circle', [1, 2], 2, [([1 + (2 + h) * w[0] + t * d[0], 2 + (2 + h) * w[1] + t * d[1]], d), ([1 + (1 + h) * w[0] + t * d[0], 2 + (1 + h) * w[1] + t * d[1]], d)])
                    yield bl('Sphere', [1, 2, 0], 2, [([1 + (2 + h) * w[0] + t * d[0], 2 + (2 + h) * w[1] + t * d[1], 0], d + [0]), ([1 + t * d[0], 2 + t * d[1], 1 + h], d + [0])])
    return g


def EXPLORE(tier):
    return [
        Exploration('circles', gen_circles(tier), bounds='all pairs of circles: lattice centre offsets x 11x11 radii, scales, offsets, near tangency'),
        Exploration('circle_line', gen_circle_line(tier), bounds='all directions (entries -3..4) x 20 points x radii, all exactly tangent Pythagorean lines'),
        Exploration('sphere_line', gen_sphere_line(tier), bounds='all directions (entries -1..2) x 27 points x radii, tangent lines along integer frames'),
        Exploration('scaled', gen_scaled(tier), bounds='ten scales, direction lengths, offsets, near tangency'),
    ]
