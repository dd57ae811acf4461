"""C20: lines meet a cylinder exactly in their entry and exit points."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def cy(c, v, r, lines, kws=({}, {'infinite': False})):
    s = [['new', 'Cylinder', [P(c), V(v), R(r)]]]
    for q, d in lines:
        i = len(s)
        s.append(['new', 'Line', [P(q), V(d)]])
        for kw in kws:
            s.append(['op', ref(0), 'intersect_line', [ref(i)], kw])
    return s


FRAMES = [([0, 0, 1], [1, 0, 0], [0, 1, 0]), ([1, 0, 0], [0, 1, 0], [0, 0, 1]), ([0, -1, 0], [0, 0, 1], [1, 0, 0]), ([1, 2, 2], [2, 1, -2], [2, -2, 1]),
          ([2, -2, 1], [1, 2, 2], [2, 1, -2]), ([3, 4, 0], [4, -3, 0], [0, 0, 5]), ([2, 3, 6], [3, -6, 2], [6, 2, -3]), ([-1, -1, 0], [1, -1, 0], [0, 0, 1]),
          ([1, 1, 1], [1, -1, 0], [1, 1, -2])]


def gen_axes(tier):
    big = tier == 'thorough'

    def g():
        A = nonzero(lattice(3, (-1, 0, 2) if not big else (-2, -1, 0, 1, 2)))
        D = nonzero(lattice(3, (-1, 0, 1)))
        Q = [[0, 0, 0], [1, 0, 0], [0, 2, 1], [-1, 1, -1], [3, 3, 0]]
        for v in A:
            for d in D:
                for r in (1, 2.5):
                    yield cy([0, 0, 0], v, r, [(q, d) for q in Q])
                yield cy([1, -1, 2], v, 2, [([1 + q[0], q[1], 2 + q[2]], d) for q in Q])
                yield cy([1, -1, 2], [3 * x for x in v], 1.5, [([1 + q[0], q[1], 2 + q[2]], d) for q in Q])
    return g


def gen_frames(tier):
    """Lines aimed through two prescribed places (axial position, radial position) in the cylinder's own frame."""
    big = tier == 'thorough'
    spots = [(t, a, b) for t in (-0.75, -0.25, 0.25, 0.5, 0.875, 1.25, 2) for a, b in ((0, 0), (0.5, 0.25), (-0.75, 0), (1.5, 0), (0, -2))]

    def g():
        for v, u, w in FRAMES if big else FRAMES[:7]:
            lv = sum(x * x for x in v) ** 0.5
            lu = sum(x * x for x in u) ** 0.5
            lw = sum(x * x for x in w) ** 0.5
            for length in (1, 4):
                for r in (1, 3) if big else (2,):
                    vv = [length * x for x in v]

                    def place(s):
                        return [1 + s[0] * vv[i] + r * (s[1] * u[i] / lu + s[2] * w[i] / lw) for i in range(3)]
                    pts = [place(s) for s in spots]
                    for i, a in enumerate(pts):
                        ls = []
                        for j in range(0 if big else i % 2, len(pts), 1 if big else 2):
                            if i != j:
                                ls.append((a, [y - x for x, y in zip(a, pts[j])]))
                        yield cy([1, 1, 1], vv, r, ls)
    return g


def gen_scaled(tier):
    def g():
        for v, u, w in FRAMES[:6]:
            ls = [([1, 1, 1], u), ([1, 1, 1], [a + b for a, b in zip(u, v)]), ([1 + 0.5 * v[0], 1 + 0.5 * v[1], 1 + 0.5 * v[2]], [3 * a - b for a, b in zip(w, v)]),
                  ([1, 1, 1], v), ([9, 9, 9], v), ([1 + 0.5 * v[i] + 0.25 * u[i] for i in range(3)] and [1 + 0.5 * v[i] + 0.25 * u[i] for i in range(3)], w),
                  ([1 - v[i] for i in range(3)], [5 * v[i] + u[i] for i in range(3)]), ([20, 0, 3], w)]
            for s in SCALES:
                yield xform(cy([1, 1, 1], v, 1.25, ls), scale=s)
            for s in SCALES_MID:
                yield [['new', 'Cylinder', [P([1, 1, 1]), V(v), 1.25]]] + cy([1, 1, 1], v, 1.25, [(q, [s * x for x in d]) for q, d in ls])[1:]
            for k in (1e3, 1e-2, 64):
                yield cy([1, 1, 1], [k * x for x in v], 1.25, ls)
                yield cy([1, 1, 1], v, 1.25 * k, ls)
            for off in (OFFS[:3], [2.0 ** 16, -2.0 ** 17, 2.0 ** 15], [0.1, -0.3, 0.7], *FAROFF):
                yield xform(cy([1, 1, 1], v, 1.25, ls), offset=off)
            yield cy([1, 1, 1], v, 1.25, [([a + 200 * b for a, b in zip(q, d)], d) for q, d in ls])
            yield cy([1, 1, 1], v, 1.25, [([a - 3 * b for a, b in zip(q, d)], [-b for b in d]) for q, d in ls])
    return g


def gen_digits(tier):
    def g():
        Q = [[0, 0, 0], [0.3, 0, 0], [0.123456, 0.2, 1], [-1, 0.7, -1], [0.96, 0.1, 0], [0.9999, 0.3, 0.1]]
        D = [[0, 1, 0], [1, 0, 0], [1, 1, 1], [1, 2, -1], [0.3, 0.1, 5], [0.01, 0, 1], [0.1, 0.2, 1]]
        for v in ([0, 0, 1], [1, 0, 0], [1, 1, 0], [0.1, 0.2, 1]):
            for r in (1, 0.77):
                for d in D:
                    for nd in (None, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12):
                        yield cy([0, 0, 0], v, r, [(q, d) for q in Q], [{'n_digits': nd}])
                    yield cy([0, 0, 0], v, r, [(q, d) for q in Q], [{'n_digits': 12, 'infinite': False}, {'n_digits': None, 'infinite': False}])
    return g


def gen_misc(tier):
    def g():
        for a in range(1, 6):
            for kw in ({}, {'infinite': False}):
                yield cy([0, 0, 0], [0, 0, 1], 1, [([0] * a, [1] * a)], [kw])
        for bad in (None, [1, 2, 3]):
            yield [['new', 'Cylinder', [P([0, 0, 0]), V([0, 0, 1]), 1]], ['op', ref(0), 'intersect_line', [bad], {}]]
        # parallel lines inside, outside; nearly parallel lines
        for v, u, w in FRAMES:
            lu = sum(x * x for x in u) ** 0.5
            lw = sum(x * x for x in w) ** 0.5
            for k in (0, 0.5, 0.99, 1.01, 2):
                for sg in (1, -1, 0.1, 3):
                    q = [1 + k * x / lu for x in u]
                    yield cy([1, 1, 1], v, 1, [(q, [sg * x for x in v]), ([a + 5 * b for a, b in zip(q, v)], [sg * x for x in v])])
            for h in LADDER:
                yield cy([1, 1, 1], v, 1, [([1, 1, 1], [a + h * b for a, b in zip(v, u)]), ([1 + 0.3 * x for x in w], [a - h * b for a, b in zip(v, u)])])
            # lines just inside and just outside the radius
            for h in LADDER:
                q = [1 + 0.5 * a + (1 + h) * b / lu for a, b in zip(v, u)]
                yield cy([1, 1, 1], v, 1, [(q, w), (q, [a + 0.1 * b for a, b in zip(w, v)]), ([a - 9 * b for a, b in zip(q, w)], w)])
                # lines that cross a cap just inside or outside its rim, parallel to the axis or oblique
                for t in (0, 1):
                    for sg in (1, -1):
                        for x, y, lx in ((u, w, lu), (w, u, lw)):
                            q = [1 + t * a + sg * (1 + h) * b / lx for a, b in zip(v, x)]
                            yield cy([1, 1, 1], v, 1, [(q, [sg * a + 0.25 * b for a, b in zip(v, y)]), (q, [2 * a - 0.5 * sg * b for a, b in zip(v, x)]), (q, [2 * a + 0.5 * sg * b for a, b in zip(v, x)]), (q, v)])
            for h in LADDER:
                for t in (h, 1 + h):
                    q = [1 + t * a for a in v]
                    yield cy([1, 1, 1], v, 1, [(q, u), ([a + 0.5 * b / lu for a, b in zip(q, u)], w)])
            # lines perpendicular to the axis at several heights
            for t in (-1, -0.01, 0.01, 0.5, 0.99, 1.01, 3):
                q = [1 + t * a for a in v]
                yield cy([1, 1, 1], v, 1, [(q, u), (q, w), ([a + 0.5 * b / lu for a, b in zip(q, u)], w)])
    return g


def EXPLORE(tier):
    return [
        Exploration('axes', gen_axes(tier), bounds='all axes (entries -1,0,2) x all directions (-1..1) x 5 points, both modes'),
        Exploration('frames', gen_frames(tier), bounds='lines through all pairs of 35 places relative to the cylinder (7 axial x 5 radial), 7-9 orientations, two lengths'),
        Exploration('scaled', gen_scaled(tier), bounds='ten scales, lengths, radii, direction lengths, offsets'),
        Exploration('digits', gen_digits(tier), bounds='coefficient rounding to 0..12 digits'),
        Exploration('misc', gen_misc(tier), bounds='dimensions, parallel and nearly parallel, just inside/outside the radius and the caps'),
    ]
