"""C17: lines and segments intersect exactly where they geometrically meet."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def lines(p, d, q, e, kws=({}, {'check_coplanar': False})):
    s = [['new', 'Line', [P(p), V(d)]], ['new', 'Line', [P(q), V(e)]]]
    for kw in kws:
        s += [['op', ref(0), 'intersect_line', [ref(1)], kw], ['op', ref(1), 'intersect_line', [ref(0)], kw]]
    s += [['op', ref(0), 'is_coplanar', [ref(1)], {}], ['op', ref(1), 'is_coplanar', [ref(0)], {}]]
    return s


def segs(a, b, c, d, kw=None, more=False):
    kw = kw or {}
    s = [['new', 'LineSegment', [P(a), P(b)]], ['new', 'LineSegment', [P(c), P(d)]],
         ['op', ref(0), 'intersect_line_segment', [ref(1)], kw], ['op', ref(1), 'intersect_line_segment', [ref(0)], kw]]
    if more:
        s += [['new', 'LineSegment', [P(b), P(a)]], ['op', ref(4), 'intersect_line_segment', [ref(1)], kw], ['op', ref(1), 'intersect_line_segment', [ref(4)], kw]]
    return s


def gen_lines(tier):
    big = tier == 'thorough'

    def g():
        for p, q in product((0, 1, 3), repeat=2):
            for d, e in product((-2, 1), repeat=2):
                yield lines([p], [d], [q], [e])
        D = nonzero(lattice(2, (-2, -1, 0, 1, 2)))
        for d, e in product(D, D):
            for q in lattice(2, (-1, 0, 2) if not big else (-2, -1, 0, 1, 2)):
                yield lines([0, 1], d, q, e)
        D = nonzero(lattice(3, (-1, 0, 1) if not big else (-1, 0, 1, 2)))
        for d, e in product(D, D):
            # meeting at prescribed parameters, parallel shifts, skew
            for t, u in ((0, 0), (1, 2), (-1, 1), (3, -2)):
                yield lines([1, 0, 2], d, [1 + t * d[0] + u * e[0], t * d[1] + u * e[1], 2 + t * d[2] + u * e[2]], e)
            for q in ([0, 0, 0], [2, 0, 2], [1, 1, 1]):
                yield lines([1, 0, 2], d, q, e)
        for dim in (4, 5):
            for d, e in product(vecs_dim(dim)[::2], repeat=2):
                yield lines([0] * dim, d, [1] * dim, e)
        for a, b in product(range(1, 6), repeat=2):
            yield lines([1] * a, [2] * a, [0] * b, list(range(1, b + 1)))
        for d, e in product([[1, 0], [0, 1], [1, 1], [2, -1], [-1, 3]], repeat=2):
            for kw in ({'abs_tol': 0.9}, {'rel_tol': 0.5}, {'abs_tol': 1e-12}):
                yield lines([0, 0], d, [1, 2], e, ({}, kw))
        for bad in (None, [1, 2], {'t': [[0, 0], [1, 1]]}):
            for m in ('intersect_line', 'is_coplanar', 'distance_line'):
                yield [['new', 'Line', [P([0, 0]), V([1, 0])]], ['op', ref(0), m, [bad], {}]]
    return g


def gen_lines_scaled(tier):
    def g():
        D = [[1, 0, 0], [0, -1, 0], [0, 0, 2], [1, 1, 0], [1, -1, 2], [-2, 1, 1], [3, 4, 0]]
        for d, e in product(D, D):
            for q in ([0, 1, 0], [d[0] + 2 * e[0], 1 + d[1] + 2 * e[1], d[2] + 2 * e[2]], [0, 5, 0], [2, -1, 1]):
                pr = lines([0, 1, 0], d, q, e)
                for s in SCALES:
                    yield xform(pr, scale=s)
                for s in SCALES_MID:
                    yield xform(pr, scale=1, vscale=s)
                for off in (OFFS[:3], [2.0 ** 20, 2.0 ** 21, -2.0 ** 19], *FAROFF):
                    yield xform(pr, offset=off)
                for k in (-1, 0.1, 1e3, -1e-3):
                    yield lines([0, 1, 0], d, q, [k * x for x in e])
        D = [[1, 0], [0, -1], [1, 1], [-1, 2], [3, -4]]
        for d, e in product(D, D):
            for q in ([0, 1], [2, 3], [-1, 0]):
                for s in SCALES:
                    yield xform(lines([0, 1], d, q, e), scale=s)
                for h in LADDER:
                    yield lines([0, 1], d, q, [x + h * y for x, y in zip(d, [-d[1], d[0]])])
    return g


def gen_skewed(tier):
    """Lines that meet at a wide angle although their shadows on one of the coordinate planes are almost parallel."""
    def g():
        for k in (3, 10, 20, 26, 30, 34, 40, 44, 50):
            h = 2.0 ** -k
            for (a, b), (z, w) in product(((1, 2), (1, 0), (1, -1), (0, 1)), ((1, -1), (0.5, -2), (1, 0), (3, 1))):
                for perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                    for sg, f in product((1, -1), (1, 1 / 3)):
                        d, e = [f * a, f * (b + sg * h), f * z], [f * a, f * b, f * w]
                        for t, u in ((0, 1), (1, -2), (0.5, 0.25)):
                            p = [f * 1, f * -2, f * 0.5]
                            q = [x + t * y + u * v for x, y, v in zip(p, d, e)]
                            pr = [[v[i] for i in perm] for v in (p, d, q, e)]
                            yield lines(*pr)
                            yield segs(pr[0], [x + y for x, y in zip(pr[0], pr[1])], pr[2], [x - y for x, y in zip(pr[2], pr[3])])
    return g


def gen_segments(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(2, (0, 1, 2) if not big else (0, 1, 2, 3))
        prs = [(a, b) for a, b in product(L, L) if a < b]
        for (a, b), (c, d) in product(prs, prs):
            yield segs(a, b, c, d, more=True)
        L = lattice(2, (-2, 0, 1, 3))
        for c, d in product(L, L):
            if c != d:
                for a, b in (([0, 0], [2, 2]), ([0, 0], [4, 0]), ([-1, 2], [3, -2]), ([0, -3], [0, 3]), ([1, 1], [-3, 0])):
                    yield segs(a, b, c, d, more=True)
        L = lattice(3, (0, 2))
        prs = [(a, b) for a, b in product(L, L) if a != b]
        for (a, b), (c, d) in product(prs, prs):
            yield segs(a, b, c, d)
        for a, b in product(range(1, 5), repeat=2):
            yield segs([0] * a, [2] * a, [1] * b, [1] * (b - 1) + [5])
    return g


def gen_meeting(tier):
    """Segments whose lines meet at prescribed parameters: inside, at the endpoints and outside of each."""
    ts = (-0.5, -0.125, 0, 0.25, 0.5, 1, 1.125, 1.5)

    def g():
        D2 = [[4, 0], [0, 8], [8, 8], [-4, 8], [8, -4], [-8, -16]]
        D3 = [[4, 0, 0], [0, -8, 0], [0, 0, 4], [8, 8, 0], [0, 4, -4], [4, 8, 8], [-4, 8, 4]]
        for D, x in ((D2, [1, 2]), (D3, [1, -2, 3])):
            for d, e in product(D, D):
                if d == e:
                    continue
                for t, u in product(ts, ts):
                    a = [xi - t * di for xi, di in zip(x, d)]
                    b = [ai + di for ai, di in zip(a, d)]
                    c = [xi - u * ei for xi, ei in zip(x, e)]
                    f = [ci + ei for ci, ei in zip(c, e)]
                    yield segs(a, b, c, f, more=True)
                    if (t in (0, 0.5, 1, 1.5) and u in (-0.5, 0, 0.5, 1)) and (d == D[0] or e == D[-1] or tier == 'thorough'):
                        for s in SCALES:
                            yield xform(segs(a, b, c, f), scale=s)
                        yield xform(segs(a, b, c, f), offset=OFFS[:len(x)])
                        if len(x) == 3:
                            c2, f2 = [c[0], c[1] + 1, c[2] + 1], [f[0], f[1] + 1, f[2] + 1]
                            yield segs(a, b, c2, f2)
                            yield segs(a, b, c2, f2, {'check_coplanar': False})
        # segments of very different length, just missing and just reaching
        for h in LADDER:
            for ln in (1, 10, 1e3, 1e-2):
                for d in ([1, 0], [0, 1], [3, 4]):
                    w = [-d[1], d[0]]
                    yield segs([0, 0], [ln * x for x in d], [0.5 * ln * x + h * y for x, y in zip(d, w)], [0.5 * ln * x + y for x, y in zip(d, w)])
                    yield segs([0, 0], [ln * x for x in d], [(ln + h) * x - y for x, y in zip(d, w)], [(ln + h) * x + y for x, y in zip(d, w)])
    return g


def EXPLORE(tier):
    return [
        Exploration('lines', gen_lines(tier), bounds='all pairs of lattice lines in 2D, all direction pairs in 3D with 7 relative positions, dims 1-5, mixed dimensions'),
        Exploration('lines_scaled', gen_lines_scaled(tier), bounds='ten scales, offsets, direction lengths'),
        Exploration('skewed', gen_skewed(tier), bounds='coplanar lines at a wide angle whose shadows on one coordinate plane differ by 2^-3..2^-50, all axis permutations'),
        Exploration('segments', gen_segments(tier), bounds='all pairs of segments on the 3x3 grid and the 2x2x2 grid in both orientations'),
        Exploration('meeting', gen_meeting(tier), bounds='8x8 meeting parameters for all direction pairs, scales, offsets, near misses'),
    ]
