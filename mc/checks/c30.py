"""C30: chained computations stay correct at every step (breadth-first search over the real operations)."""
import itertools

import numpy as np

from mc import lib
from mc.engine import Exploration
from mc.interp import Stats, run_program
from mc.domains import P, R, S, V, ref
from mc.interp import MISSING, xform

RULE = ('a case is one result of a first operation on an initial set of objects, with all operation sequences that continue from it; every '
        'transition is one judged operation on live objects; it is non-trivial when at least one transition was judged')

# ---------------------------------------------------------------- initial sets of objects

SPACE = [
    ['new', 'Point', [P([1, -2, 3])]], ['new', 'Point', [P([4, 0, -1])]], ['new', 'Point', [P([0, 2, 2])]],
    ['new', 'Vector', [V([1, 2, 2])]], ['new', 'Vector', [V([-2, 1, 0])]],
    ['new', 'Line', [P([0, 1, 2]), V([2, 1, -2])]], ['new', 'Line', [P([1, 1, 0]), V([0, 3, 4])]],
    ['new', 'Plane', [P([1, 0, 2]), V([1, 2, -2])]], ['new', 'Plane', [P([0, 0, -1]), V([0, 3, 4])]],
    ['new', 'LineSegment', [P([0, 0, 0]), P([4, 2, -4])]],
    ['new', 'Sphere', [P([1, 1, 1]), R(5)]],
    ['new', 'Triangle', [P([0, 0, 0]), P([4, 0, 3]), P([1, 5, 2])]],
    ['new', 'Cylinder', [P([0, 1, -3]), V([2, 2, 8]), R(3)]],
    ['new', 'Points', [S([[1, 2, 0], [3, -1, 4], [0, 5, 1], [-2, 2, 2], [6, 1, -3]])]],
]
FLAT = [
    ['new', 'Point', [P([1, -2])]], ['new', 'Point', [P([4, 3])]], ['new', 'Point', [P([0, 2])]],
    ['new', 'Vector', [V([3, 4])]], ['new', 'Vector', [V([-2, 1])]],
    ['new', 'Line', [P([0, 1]), V([2, 1])]], ['new', 'Line', [P([1, -1]), V([-3, 4])]],
    ['new', 'LineSegment', [P([0, 0]), P([6, 2])]], ['new', 'LineSegment', [P([1, 5]), P([4, -3])]],
    ['new', 'Circle', [P([1, 1]), R(5)]], ['new', 'Circle', [P([4, 2]), R(3)]],
    ['new', 'Triangle', [P([0, 0]), P([4, 1]), P([1, 5])]],
    ['new', 'Points', [S([[1, 2], [3, -1], [0, 5], [-2, 2]])]],
]
POOLS = {
    'space': SPACE,
    'plane': FLAT,
    'space, shifted': xform(SPACE, offset=[100, -250, 32], rep=['float64', 'strided', 'tuple']),
    'plane, small': xform(FLAT, scale=2.0 ** -8, rep=['readonly', 'spatialfloat']),
    'space, thirds': xform(SPACE, scale=1 / 3),
    'plane, thirds, shifted': xform(FLAT, scale=1 / 3, offset=[10, -25]),
    'plane, tiny': xform(FLAT, scale=2.0 ** -42),
    'space, tiny': xform(SPACE, scale=0.7 * 2.0 ** -44),
    'plane, far': xform(FLAT, offset=[2 ** 24, -3 * 2 ** 22]),
    'space, far': xform(SPACE, offset=[-2 ** 23, 2 ** 25, 2 ** 24], rep=['float64', 'tuple', 'strided']),
    'plane, far integers': xform([s for s in FLAT if s[1] != 'Circle'], offset=[10 ** 7, -10 ** 7]),
    'plane, huge': xform(FLAT, scale=1.3 * 2.0 ** 40),
}

# ---------------------------------------------------------------- operations

# method: (receiver class, name, argument classes); 'P' point, 'V' vector, 'N' positive number
METHODS = {
    'Vector': [('norm',), ('unit',), ('is_zero',), ('different_direction',), ('cross', 'Vector'), ('cosine_similarity', 'Vector'), ('angle_between', 'Vector'), ('is_parallel', 'Vector'),
               ('is_perpendicular', 'Vector'), ('scalar_projection', 'Vector'), ('project_vector', 'Vector'), ('angle_signed', 'Vector', 2), ('side_vector', 'Vector', 2)],
    'Point': [('distance_point', 'Point'), ('is_close', 'Point')],
    'Points': [('centroid',), ('mean_center',), ('unique',), ('affine_rank',), ('are_collinear',), ('are_coplanar',), ('normalize_distance',)],
    'Line': [('to_point', 2), ('to_point', -0.5), ('project_point', 'Point'), ('distance_point', 'Point'), ('contains_point', 'Point'), ('side_point', 'Point', 2), ('project_vector', 'Vector'),
             ('distance_line', 'Line'), ('intersect_line', 'Line'), ('is_coplanar', 'Line'), ('is_close', 'Line'), ('project_points', 'Points'), ('sum_squares', 'Points'),
             ('transform_points', 'Points')],
    'LineSegment': [('contains_point', 'Point'), ('intersect_line_segment', 'LineSegment')],
    'Plane': [('project_point', 'Point'), ('distance_point_signed', 'Point'), ('contains_point', 'Point'), ('side_point', 'Point'), ('project_vector', 'Vector'), ('project_line', 'Line'),
              ('intersect_line', 'Line'), ('intersect_plane', 'Plane'), ('is_close', 'Plane'), ('cartesian',), ('project_points', 'Points'), ('distance_points_signed', 'Points'), ('sum_squares', 'Points')],
    'Circle': [('distance_point', 'Point'), ('contains_point', 'Point'), ('project_point', 'Point'), ('intersect_line', 'Line'), ('intersect_circle', 'Circle'), ('area',), ('circumference',)],
    'Sphere': [('distance_point', 'Point'), ('contains_point', 'Point'), ('project_point', 'Point'), ('intersect_line', 'Line'), ('surface_area',), ('volume',)],
    'Triangle': [('line', 'a'), ('line', 'c'), ('altitude', 'A'), ('altitude', 'B'), ('angle', 'B'), ('length', 'b'), ('point', 'C'), ('normal',), ('area',), ('perimeter',), ('centroid',),
                 ('orthocenter',), ('is_right',), ('classify',)],
    'Cylinder': [('length',), ('lateral_surface_area',), ('surface_area',), ('volume',), ('is_point_within', 'Point'), ('intersect_line', 'Line')],
}
MAKERS = [
    (['new', 'Line'], ['Point', 'Vector']), (['new', 'Plane'], ['Point', 'Vector']), (['new', 'LineSegment'], ['Point', 'Point']), (['new', 'Circle'], ['Point', 'Number'], 2),
    (['new', 'Sphere'], ['Point', 'Number'], 3), (['new', 'Triangle'], ['Point', 'Point', 'Point']), (['new', 'Cylinder'], ['Point', 'Vector', 'Number'], 3),
    (['cm', 'Line', 'from_points'], ['Point', 'Point']), (['cm', 'Vector', 'from_points'], ['Point', 'Point']), (['cm', 'Plane', 'from_points'], ['Point', 'Point', 'Point'], 3),
    (['cm', 'Plane', 'from_vectors'], ['Point', 'Vector', 'Vector'], 3), (['cm', 'Circle', 'from_points'], ['Point', 'Point', 'Point'], 2),
    (['cm', 'Cylinder', 'from_points'], ['Point', 'Point', 'Number'], 3), (['cm', 'Line', 'best_fit'], ['Points']), (['cm', 'Plane', 'best_fit'], ['Points'], 3),
    (['fn', 'area_triangle'], ['Point', 'Point', 'Point']), (['fn', 'volume_tetrahedron'], ['Point', 'Point', 'Point', 'Point'], 3), (['fn', 'area_signed'], ['Points'], 2),
]
GETTERS = {'Line': ['point', 'direction'], 'Plane': ['point', 'normal'], 'LineSegment': ['point_a', 'point_b'], 'Circle': ['point'], 'Sphere': ['point'], 'Triangle': ['point_a', 'point_c'],
           'Cylinder': ['point', 'vector']}


def kind(v):
    """(class name, dimension) of a live value, or None when it is not used any further."""
    if v is MISSING:
        return None
    n = type(v).__name__
    if n in ('Point', 'Vector'):
        return (n, v.shape[0]) if v.ndim == 1 else None
    if n == 'Points':
        return (n, v.shape[1]) if v.ndim == 2 else None
    if n in lib.CLASSES:
        return (n, v.dimension)
    if isinstance(v, (float, np.floating)) and np.isfinite(v) and v > 0:
        return ('Number', 0)
    if isinstance(v, tuple):
        return ('tuple', len(v))
    return None


def steps(env, new):
    """All well-typed steps on the live values of env in which value `new` takes part (or all of them when new is None)."""
    by = {}
    for i, v in enumerate(env):
        k = kind(v)
        if k is not None:
            by.setdefault(k[0], []).append(i)
    kn = kind(env[new]) if new is not None else None
    dims = {i: (kind(env[i]) or (None, None))[1] for i in range(len(env))}

    def choose(classes, dim, used):
        """Assignments of live values to argument classes."""
        for combo in itertools.product(*[by.get(c, []) for c in classes]):
            if new is not None and new not in combo and not used:
                continue
            if all(dims[i] == dim or dims[i] == 0 for i in combo):
                yield combo
    for cls, ops in METHODS.items():
        for r in by.get(cls, []):
            used = new is None or r == new
            for op in ops:
                name, rest = op[0], list(op[1:])
                only = None
                if len(rest) > 1 and isinstance(rest[-1], int):
                    only = rest.pop()
                if only is not None and dims[r] != only:
                    continue
                args = [a for a in rest if a in lib.CLASSES]
                const = [a for a in rest if a not in lib.CLASSES]
                if not args:
                    if used:
                        yield ['op', ref(r), name, const, {}]
                    continue
                for combo in choose(args, dims[r], used):
                    yield ['op', ref(r), name, [ref(i) for i in combo], {}]
    for m in MAKERS:
        head, classes = m[0], m[1]
        if not by.get(classes[0]):
            continue
        for dim in sorted({dims[i] for i in by[classes[0]]}):
            if len(m) > 2 and m[2] != dim:
                continue
            for combo in choose(classes, dim, new is None):
                if len(set(combo)) < len(combo):
                    continue
                a = [ref(i) for i in combo]
                if classes.count('Point') >= 2 and list(combo) != sorted(combo) and head[1] not in ('LineSegment', 'Vector'):
                    continue  # one order of the points; the others are covered by C02, C22, C24, C25
                yield head + ([a] if head[0] == 'new' else [a, {}])
    for i in [new] if new is not None else range(len(env)):
        k = kind(env[i])
        if k is None:
            continue
        for g in GETTERS.get(k[0], []):
            yield ['get', ref(i), g]
        if k[0] == 'tuple':
            for j in range(min(k[1], 2)):
                yield ['item', ref(i), j]
        if k[0] == 'Points' and new is not None:
            yield ['item', ref(i), 0]


def apply(step, env, ms, S):
    """One transition; returns (message, env, ms) with the result appended."""
    e, m = list(env), list(ms)
    # run_program continues at position len(e): the step refers to earlier positions only
    msg = run_program([step], S, env=e, ms=m)
    S.traces -= 1
    if len(e) == len(env):
        e.append(MISSING)
        m.append(None)
    return msg, e, m


def signature(v):
    k = kind(v)
    if k is None:
        return None
    if isinstance(v, np.ndarray):
        return (k, tuple(np.round(np.asarray(v, dtype=float), 9).ravel().tolist()))
    if k[0] == 'Number':
        return (k, round(float(v), 9))
    if k[0] == 'tuple':
        return (k, repr(v))
    return (k,) + tuple(tuple(np.round(np.asarray(x, dtype=float), 9).ravel().tolist()) for x in (getattr(v, f) for f in lib_fields(k[0])))


def lib_fields(n):
    from mc.model import FIELDS
    return FIELDS[n]


START = {}


def start(pool):
    """The initial state and the distinct first transitions from it (computed once per process)."""
    if pool not in START:
        S0 = Stats()
        env, ms = [], []
        msg = run_program(POOLS[pool], S0, env=env, ms=ms)
        first, seen = [], {signature(v) for v in env}
        if msg is None:
            for st in steps(env, None):
                m, e, _ = apply(st, env, ms, S0)
                sig = None if m else signature(e[-1])
                if m or (sig is not None and sig not in seen):
                    seen.add(sig)
                    first.append(st)
                elif sig is None:
                    first.append(st)
        START[pool] = (msg, env, ms, first)
    return START[pool]


def run_chain(case, S):
    pool, i, depth = case
    msg, env, ms, first = start(pool)
    if i == -1:
        S.transitions += len(env)
        return msg and f'{pool}: {msg}'
    if i >= len(first):
        return None  # no such transition
    S.traces += 1
    from mc.state import describe
    st = first[i]
    msg, e, m = apply(st, env, ms, S)
    if msg:
        return f'{pool}: {msg}; steps: {describe(POOLS[pool] + [st])}'
    seen = set()
    level = [((st,), e, m)]
    for d in range(1, depth):
        nxt = []
        for path, e, m in level:
            if kind(e[-1]) is None:
                continue
            for s2 in steps(e, len(e) - 1):
                msg, e2, m2 = apply(s2, e, m, S)
                if msg:
                    return f'{pool}: {msg}; steps: {describe(POOLS[pool] + list(path) + [s2])}'
                if d + 1 < depth:
                    sig = signature(e2[-1])
                    if sig is not None and sig not in seen:
                        seen.add(sig)
                        nxt.append((path + (s2,), e2, m2))
        level = nxt
    return None


def run_joint(case, S):
    """Two first operations, then every operation in which both results take part."""
    pool, i = case
    from mc.state import describe
    msg, env, ms, first = start(pool)
    if msg or i >= len(first):
        return None
    S.traces += 1
    a = first[i]
    msg, e1, m1 = apply(a, env, ms, S)
    if msg or kind(e1[-1]) is None:
        return None  # reported by the other exploration
    n = len(e1) - 1
    for j in range(i + 1, len(first)):
        msg, e2, m2 = apply(first[j], e1, m1, S)
        if msg or kind(e2[-1]) is None:
            continue
        for s3 in steps(e2, n + 1):
            if mentions(s3, n):
                msg, _, _ = apply(s3, e2, m2, S)
                if msg:
                    return f'{pool}: {msg}; steps: {describe(POOLS[pool] + [a, first[j], s3])}'
    return None


def mentions(x, n):
    if isinstance(x, dict):
        return x.get('$') == n
    return isinstance(x, list) and any(mentions(y, n) for y in x)


def gen_joint(tier):
    def g():
        for pool in POOLS:
            for i in range(len(start(pool)[3])):
                yield [pool, i]
    return g


def gen_chain(tier):
    def g():
        for pool in POOLS:
            yield [pool, -1, 1]
            for i in range(len(start(pool)[3])):
                yield [pool, i, 3 if tier == 'quick' else 4]
    return g


def EXPLORE(tier):
    return [
        Exploration('chains', gen_chain(tier), run=run_chain,
                    bounds=f'{len(POOLS)} initial sets of 13-14 objects; all well-typed sequences of 3 operations (thorough: 4) in which each operation uses the result before it, merging equal results'),
        Exploration('joint', gen_joint(tier), run=run_joint, bounds='all pairs of first operations, followed by every operation that uses both results'),
    ]
