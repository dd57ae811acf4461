"""C24: every triangle quantity agrees with its vertices, in every labelling."""
from itertools import permutations

from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform

SIDES, ANG = 'abc', 'ABC'
TOLS = [{}, {'abs_tol': 1e-9}, {'rel_tol': 1e-2}, {'abs_tol': 0.5, 'rel_tol': 0}, {'rel_tol': 0, 'abs_tol': 0}]


def full(T, tols=TOLS[:2]):
    s = [['new', 'Triangle', [P(p) for p in T]]]
    for x in ANG:
        s += [['op', ref(0), 'point', [x], {}], ['op', ref(0), 'angle', [x], {}], ['op', ref(0), 'altitude', [x], {}]]
    for x in SIDES:
        s += [['op', ref(0), 'line', [x], {}], ['op', ref(0), 'length', [x], {}]]
    for m in ('normal', 'area', 'perimeter', 'centroid', 'orthocenter'):
        s.append(['op', ref(0), m, [], {}])
    for t in tols:
        s += [['op', ref(0), 'classify', [], t], ['op', ref(0), 'is_right', [], t]]
    return s


def preds(T):
    s = [['new', 'Triangle', [P(p) for p in T]]]
    for t in TOLS:
        s += [['op', ref(0), 'classify', [], t], ['op', ref(0), 'is_right', [], t]]
    for t in TOLS[2:4]:
        s += [['op', ref(0), 'orthocenter', [], t]]
    return s


def gen_plane(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(2, (-2, 0, 1, 3) if not big else (-2, -1, 0, 1, 3))
        for T in product(L, repeat=3):
            yield full(T) if T[0] == [0, 0] or T[1] == [1, 3] or T[2] == [-2, 3] or big else preds(T)
        L = lattice(2, range(-1, 7))
        for B, C in product(L, repeat=2):
            yield full([[0, 0], B, C])
    return g


def gen_space(tier):
    big = tier == 'thorough'

    def g():
        L = lattice(3, (-1, 0, 2))
        for B, C in product(L, repeat=2):
            yield full([[0, 0, 0], B, C])
        L2 = lattice(3, (0, 1)) + [[2, -1, 3], [-2, 0, 0]]
        for T in product(L2, repeat=3):
            yield full(T)
        for d in (4, 5, 6):
            X = vecs_dim(d)[::2 if not big else 1]
            for B, C in product(X, repeat=2):
                yield full([[0] * d, B, C])
                yield full([B, C, X[0]])
        for d in (1,):
            yield full([[0], [1], [3]])
        yield full([[0, 0], [1, 0], [0, 1, 2]])
        yield full([[0, 0, 0], [1, 0], [0, 1]])
    return g


# exact right, isosceles and (in space) equilateral triangles
SPECIAL = [
    [[0, 0], [3, 0], [0, 4]], [[0, 0], [5, 12], [-12, 5]], [[0, 0], [4, 0], [2, 5]], [[0, 0], [4, 3], [-3, 4]], [[0, 0], [7, 1], [5, 5]],
    [[0, 0], [10, 0], [5, 1]], [[0, 0], [10, 0], [9, 3]], [[1, 1], [9, 1], [9, 16]], [[0, 0], [4, 0], [2, 3.4641016151377544]],
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [1, 1, 0], [0, 1, 1]], [[0, 0, 0], [1, 2, 2], [2, 1, -2]], [[0, 0, 0], [2, 3, 6], [3, -6, 2]],
    [[0, 0, 0], [1, 2, 2], [-2, 2, 1]], [[0, 0, 0], [0, 3, 0], [4, 3, 0]], [[0, 0, 0], [2, 0, 0], [1, 0, 3]], [[0, 0, 0], [5, 0, 0], [0, 0, 0.5]],
    [[0, 0, 0], [6, 0, 0], [1, 1, 0]], [[0, 0, 0], [1, 0, 0], [9, 1, 1]],
]


def gen_special(tier):
    def g():
        for T in SPECIAL:
            for Q in permutations(T):
                yield full(list(Q), TOLS)
                for s in SCALES + [0.1, 3.7]:
                    yield xform(full(list(Q)), scale=s)
                for o in (OFFS[:3], [100, 200, -300], [2.0 ** 20, -2.0 ** 19, 1], [0.1, -0.7, 0.3], *FAROFF):
                    yield xform(full(list(Q)), offset=o[:len(T[0])])
        # near right / near isosceles, both sides of the tolerances
        for e in (0.3, -0.3, *LADDER):
            for T in ([[0, 0], [3 + e, 0], [0, 4]], [[0, 0], [3, e], [0, 4]], [[0, 0], [4, 0], [2 + e, 5]], [[0, 0, 0], [4, 0, 0], [0, 4 + e, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1 + e]]):
                for Q in permutations(T):
                    yield preds(list(Q))
        # thin triangles: one side or one altitude is small
        for k in range(1, 14):
            for m in (1, 2, 0.5, -3):
                h = m * 10.0 ** -k
                for T in ([[0, 0], [1, 0], [1, h]], [[0, 0], [1, 0], [0.3, h]], [[0, 0, 0], [3, 4, 0], [1, 1 + h, h]], [[0, 0], [1, 0], [-2, h]], [[1, 2, 3], [4, 6, 3], [4, 6, 3 + h]],
                          [[0, 0], [5, 1], [5 + h, 1 - h]]):
                    yield full(T)
                    yield full(T[1:] + T[:1])
                    yield full(T[2:] + T[:2])
        # invalid labels
        for lab in ('', 'd', 'D', 'AB', 'ab', 'x', 'Aa', ' a', 'A ', None, 0, 1):
            s = [['new', 'Triangle', [P([0, 0]), P([3, 0]), P([0, 4])]]]
            for m in ('point', 'line', 'length', 'angle', 'altitude'):
                s.append(['op', ref(0), m, [lab], {}])
            yield s
        for lab in 'abcABC':
            s = [['new', 'Triangle', [P([0, 0]), P([3, 0]), P([1, 4])]]]
            for m in ('point', 'line', 'length', 'angle', 'altitude'):
                s.append(['op', ref(0), m, [lab], {}])
            yield s
        # small triangles far from the origin relative to their size, thin triangles
        for k in (8, 64, 1024):
            for T in SPECIAL:
                for Q in permutations(T):
                    yield xform(full(list(Q)), offset=[k, -2 * k, 3 * k][:len(T[0])])
    return g


def gen_multiple(tier):
    """Triangle.multiple: one result per label, in the given order."""
    def g():
        from itertools import product as pr
        for T in SPECIAL[::3]:
            for n in (0, 1, 2, 3):
                for labs in pr('ABC', repeat=n):
                    for m in ('angle', 'altitude', 'point'):
                        yield {'T': T, 'm': m, 'labels': list(labs)}
                for labs in pr('abc', repeat=n):
                    for m in ('line', 'length'):
                        yield {'T': T, 'm': m, 'labels': list(labs)}
    return g


def run_multiple(case, S):
    from mc import lib
    from mc.spec import JUDGES
    from mc.model import Outcome, model
    t = lib.Triangle(*case['T'])
    try:
        v = t.multiple(case['m'], case['labels'])
        o = Outcome(None, v)
    except Exception as e:
        o = Outcome(e, None)
    S.transitions += 1
    S.traces += 1
    S.state(repr(case))
    if o.exc is not None:
        return f'multiple({case["m"]!r}, {case["labels"]}) {o.show()}'
    v = list(o.val) if isinstance(o.val, (tuple, list)) else None
    if v is None or len(v) != len(case['labels']):
        return f'multiple({case["m"]!r}, {case["labels"]}) {o.show()}: expected one result per label'
    for x, lab in zip(v, case['labels']):
        m = JUDGES['Triangle.' + case['m']](model(t), [lab], {}, Outcome(None, x))
        if m not in (None, 'AMB'):
            return f'multiple({case["m"]!r}, {case["labels"]}) {o.show()}: {m} for {lab}'
    return None


def EXPLORE(tier):
    return [
        Exploration('plane', gen_plane(tier), bounds='all ordered lattice triangles with entries (-2,0,1,3), all with one vertex at the origin in a 8x8 grid'),
        Exploration('space', gen_space(tier), bounds='all triangles with entries (-1,0,2) and one vertex at the origin, ordered triples of 10 points, dims 4-6, degenerate and mixed'),
        Exploration('special', gen_special(tier), bounds='19 right/isosceles/equilateral/obtuse/thin triangles x 6 labelings x scales, offsets, tolerances; all labels valid or not'),
        Exploration('multiple', gen_multiple(tier), run=run_multiple, bounds='all label sequences of length 0-3'),
    ]
