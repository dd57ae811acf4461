"""C29: results move with the coordinate system (equivariance under words of exact similarity transformations)."""
import numpy as np

from mc import lib
import json

from mc.catalog import CAT as LIBRARY
from mc.engine import Exploration
from mc.interp import ROLES, Stats, run_program
from mc.model import FIELDS
from mc.state import describe, prepare

RULE = ('a case is one catalogue call and one group element (a word of generators); it is non-trivial when the result of the transformed '
        'call was compared with the transformed result')

# ---------------------------------------------------------------- calls with directions that are almost, but not quite along an axis

TILTS = [[1e-7, 1, -1e-9, 0, 0, 0], [1, 1e-7, 1e-4, 0, 0, 0], [-1e-4, 1e-8, 1, 0, 0, 0], [1, 1 + 1e-8, 1e-10, 0, 0, 0], [3e-11, -1, 0, 0, 0, 0]]


def tilted():
    out = []
    for name, prog in LIBRARY:
        slots = []
        for k, step in enumerate(prog):
            args = step[3] if step[0] in ('op', 'cm') else step[2]
            slots += [(k, a) for a, x in enumerate(args) if isinstance(x, dict) and 'V' in x and 1 < len(x['V']) < 7 and any(x['V'])]
        for k, a in slots:
            for t in TILTS:
                p = json.loads(json.dumps(prog))
                args = p[k][3] if p[k][0] in ('op', 'cm') else p[k][2]
                f = max(abs(v) for v in args[a]['V'])
                args[a] = {**args[a], 'V': [f * v for v in t[:len(args[a]['V'])]]}
                if any(args[a]['V']):
                    out.append((name, p))
    return out


TILTED = tilted()
CAT = LIBRARY + TILTED

# ---------------------------------------------------------------- the group

GENS = ['swap', 'cycle', 'flip', 'rot', 'mix', 'shift', 'shift2', 'double', 'small']
SCALE = {f'2**{k}': 2.0 ** k for k in (-60, -40, -20, 20, 40, 60)}
TS = {'shift': [3, -2, 5, 7, -1, 4], 'shift2': [-40, 16, 9, -25, 12, 30]}


class Elem:
    """x -> A x + t in every dimension d, with A an integer (or power of two) similarity: A^T A = s^2 I."""

    def __init__(self):
        self.s = 1.0
        self.A = {d: np.eye(d) for d in range(1, 7)}
        self.t = {d: np.zeros(d) for d in range(1, 7)}

    def then(self, gen):
        e = Elem()
        k = {'rot': 5, 'mix': 3, 'double': 2, 'small': 0.125, **SCALE}.get(gen, 1)
        e.s = self.s * k
        for d in range(1, 7):
            G = np.eye(d)
            if gen == 'swap' and d > 1:
                G[[0, 1]] = G[[1, 0]]
            elif gen == 'cycle':
                G = np.roll(G, 1, axis=0)
            elif gen == 'flip':
                G[0, 0] = -1
            elif gen == 'rot':
                G *= 5
                if d > 1:
                    G[0, :2] = [3, -4]
                    G[1, :2] = [4, 3]
            elif gen == 'mix':
                G *= 3
                if d > 2:
                    G[:3, :3] = [[1, 2, 2], [2, 1, -2], [2, -2, 1]]
            elif gen in ('double', 'small') or gen in SCALE:
                G *= k
            e.A[d] = G @ self.A[d]
            e.t[d] = G @ self.t[d] + (np.array(TS[gen][:d]) if gen in TS else 0)
        return e

    def key(self):
        return (self.s,) + tuple(np.concatenate([self.A[d].ravel() for d in (2, 3)] + [self.t[d] for d in (2, 3)]).tolist())

    def det(self, d):
        return 1 if np.linalg.det(self.A[d] / self.s) > 0 else -1


def words(depth):
    """Breadth-first: the shortest word of every distinct group element."""
    out = {}
    frontier = [((), Elem())]
    out[frontier[0][1].key()] = ()
    for _ in range(depth):
        nxt = []
        for w, e in frontier:
            for g in GENS:
                f = e.then(g)
                k = f.key()
                if k not in out:
                    out[k] = w + (g,)
                    nxt.append((w + (g,), f))
        frontier = nxt
    return [w for w in out.values() if w]


def element(word):
    e = Elem()
    for g in word:
        e = e.then(g)
    return e


def plain(x):
    """Python numbers, integers where possible."""
    out = np.asarray(x).tolist()

    def go(v):
        if isinstance(v, list):
            return [go(y) for y in v]
        return int(v) if v == int(v) and abs(v) < 2 ** 24 else v
    return go(out)


def move(prog, e, linear=False):
    """The program with every point, vector, point set and length transformed."""
    def leaf(role, v):
        if role == 'R':
            return plain(v * e.s)
        d = len(v[0]) if role == 'S' else len(v)
        A, t = e.A[d], e.t[d] if not linear else np.zeros(d)
        if role == 'V':
            return plain(A @ np.array(v, dtype=float))
        if role == 'P':
            return plain(A @ np.array(v, dtype=float) + t)
        return plain(np.array(v, dtype=float) @ A.T + t)

    def go(x):
        if isinstance(x, dict):
            if '$' in x:
                return x
            if basis and 'S' in x:
                return {**x, 'S': [leaf('V', v) for v in x['S']]}
            for r in ROLES:
                if r in x:
                    return {**x, r: leaf(r, x[r])}
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    out = []
    for s in prog:
        basis = False
        if s[:2] == ['fn', 'transform_coordinates']:
            points, origin = go(s[2][:2])
            basis = True  # the rows of the third argument are directions, not points
            out.append([*s[:2], [points, origin, *go(s[2][2:])], *s[3:]])
        else:
            out.append(go(s))
    return out


# ---------------------------------------------------------------- how each kind of result moves

POINT, POINTS, OBJ, SAME, ANGLE = 'point', 'points', 'object', 'same', 'angle'


def length(k):
    return ('length', k)


def signed(k):
    return ('signed', k)


def vector(k, pseudo=False):
    return ('vector', k, pseudo)


KIND = {
    'Vector.norm': length(1), 'Vector.unit': vector(0), 'Vector.is_zero': SAME, 'Vector.cross': vector(2, True), 'Vector.cosine_similarity': ANGLE,
    'Vector.angle_between': ANGLE, 'Vector.is_perpendicular': SAME, 'Vector.is_parallel': SAME, 'Vector.scalar_projection': length(1), 'Vector.project_vector': vector(1),
    'Vector.angle_signed': signed(0), 'Vector.angle_signed_3d': signed(0), 'Vector.side_vector': signed(0), 'Vector.from_points': vector(1),
    'Point.distance_point': length(1), 'Point.is_close': SAME, 'Vector.is_close': SAME, 'Points.is_close': SAME, 'Point.is_equal': SAME, 'Vector.is_equal': SAME, 'Points.is_equal': SAME,
    'Point.to_array': POINT, 'Vector.to_array': vector(1), 'Points.to_array': POINTS, 'Point.new': POINT, 'Vector.new': vector(1), 'Points.new': POINTS,
    'Points.unique': 'set', 'Points.centroid': POINT, 'Points.mean_center': ('centered',), 'Points.normalize_distance': ('linear', 0), 'Points.affine_rank': SAME,
    'Points.are_concurrent': SAME, 'Points.are_collinear': SAME, 'Points.are_coplanar': SAME,
    'Line.to_point': POINT, 'Line.project_point': POINT, 'Line.project_points': POINTS, 'Line.project_vector': vector(1), 'Line.distance_point': length(1),
    'Line.distance_points': length(1), 'Line.contains_point': SAME, 'Line.side_point': signed(0), 'Line.distance_line': length(1), 'Line.is_coplanar': SAME, 'Line.is_close': SAME,
    'Line.intersect_line': POINT, 'Line.sum_squares': length(2), 'Line.transform_points': length(1),
    'LineSegment.contains_point': SAME, 'LineSegment.intersect_line_segment': POINT,
    'Plane.project_point': POINT, 'Plane.project_points': POINTS, 'Plane.project_vector': vector(1), 'Plane.project_line': OBJ, 'Plane.distance_point': length(1),
    'Plane.distance_points': length(1), 'Plane.distance_point_signed': length(1), 'Plane.distance_points_signed': length(1), 'Plane.contains_point': SAME, 'Plane.side_point': SAME,
    'Plane.intersect_line': POINT, 'Plane.intersect_plane': OBJ, 'Plane.is_close': SAME, 'Plane.sum_squares': length(2),
    'Circle.distance_point': length(1), 'Circle.contains_point': SAME, 'Circle.project_point': POINT, 'Circle.intersect_line': 'pair', 'Circle.intersect_circle': 'pair',
    'Circle.area': length(2), 'Circle.circumference': length(1),
    'Sphere.distance_point': length(1), 'Sphere.contains_point': SAME, 'Sphere.project_point': POINT, 'Sphere.intersect_line': 'pair', 'Sphere.surface_area': length(2), 'Sphere.volume': length(3),
    'Triangle.point': POINT, 'Triangle.line': OBJ, 'Triangle.angle': ANGLE, 'Triangle.altitude': OBJ, 'Triangle.length': length(1), 'Triangle.normal': vector(2, True),
    'Triangle.area': length(2), 'Triangle.perimeter': length(1), 'Triangle.centroid': POINT, 'Triangle.orthocenter': POINT, 'Triangle.classify': SAME, 'Triangle.is_right': SAME,
    'Triangle.multiple': ('multiple',),
    'Cylinder.intersect_line': 'pair', 'Cylinder.is_point_within': SAME, 'Cylinder.length': length(1), 'Cylinder.lateral_surface_area': length(2), 'Cylinder.surface_area': length(2),
    'Cylinder.volume': length(3),
    'Line.new': OBJ, 'Plane.new': OBJ, 'LineSegment.new': OBJ, 'Circle.new': OBJ, 'Sphere.new': OBJ, 'Triangle.new': OBJ, 'Cylinder.new': OBJ, 'Line.from_points': OBJ,
    'Plane.from_points': OBJ, 'Plane.from_vectors': OBJ, 'Cylinder.from_points': OBJ, 'Circle.from_points': OBJ, 'Line.best_fit': ('fit',), 'Plane.best_fit': ('fit',), 'Circle.best_fit': ('fit',),
    'Sphere.best_fit': ('fit',), 'Cylinder.best_fit': ('fit',),
    'area_triangle': length(2), 'volume_tetrahedron': length(3), 'area_signed': signed(2), 'transform_coordinates': length(2),
}
# Not equivariant by definition: coordinates are rounded, padded or sampled along the axes, or the choice is arbitrary.
SKIPPED = ['Vector.different_direction', 'Point.round', 'Vector.round', 'Points.round', 'Point.set_dimension', 'Vector.set_dimension', 'Points.set_dimension', 'Line.from_slope',
           'Plane.cartesian', 'Plane.to_mesh', 'Plane.to_points', 'Sphere.to_mesh', 'Sphere.to_points', 'Cylinder.to_mesh', 'Cylinder.to_points']
LINEAR = {'Points.normalize_distance'}  # relative to the origin: translations do not apply
# Answers with a fixed absolute tolerance (given by the caller) do not scale.
ABSOLUTE = {'abs_tol', 'tol', 'n_digits', 'atol'}
# Comparison of coordinates relative to their size: translations change the tolerance.
COMPARE = {'Point.is_close', 'Points.is_close', 'Vector.is_close'}


def num(a):
    return np.asarray(a, dtype=float)


def size(x):
    try:
        return float(np.abs(num(x)).max())
    except (TypeError, ValueError):
        if isinstance(x, (tuple, list)):
            return max(size(y) for y in x)
        return max([size(getattr(x, f)) for f in FIELDS.get(type(x).__name__, ())] or [0.0])


def close(a, b, tol):
    a, b = num(a), num(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.abs(a - b).max() <= tol))


def parallel(u, v, tol):
    u, v = num(u), num(v)
    if u.shape != v.shape:
        return False
    nu, nv = np.linalg.norm(u), np.linalg.norm(v)
    if not nu or not nv:
        return False
    return min(np.abs(u / nu - v / nv).max(), np.abs(u / nu + v / nv).max()) <= tol


def moved_object(a, b, e, tol):
    """b is the image of the object a."""
    n = type(a).__name__
    if type(b) is not type(a):
        return f'a {type(b).__name__} instead of a {n}'
    if n in ('Line', 'Plane'):
        d = len(a.point)
        if len(b.point) != d:
            return 'another dimension'
        p, v = e.A[d] @ num(a.point) + e.t[d], e.A[d] @ num(a.vector)
        if not parallel(v, b.vector, 1e-9 if tol < 1e-3 else 1e-4):
            return f'direction or normal {num(b.vector)} is not parallel to {v}'
        w = num(b.point) - p
        v = v / np.linalg.norm(v)
        off = np.abs(w @ v) if n == 'Plane' else np.abs(w - (w @ v) * v).max()
        return None if off <= tol else f'{b} is not the image of {a}'
    for f in FIELDS[n]:
        x, y = getattr(a, f), getattr(b, f)
        if f == 'radius':
            ok = abs(float(y) - e.s * float(x)) <= tol
        elif f == 'vector':
            ok = close(e.A[len(x)] @ num(x), y, tol)
        else:
            ok = close(e.A[len(x)] @ num(x) + e.t[len(x)], y, tol)
        if not ok:
            return f'{f} of {b} is not the image of that of {a}'
    return None


def point_set(rows, tol):
    rows = num(rows)
    return rows


def same_set(a, b, tol):
    a, b = num(a), num(b)
    if a.shape != b.shape:
        return False
    used = set()
    for x in a:
        for j, y in enumerate(b):
            if j not in used and np.abs(x - y).max() <= tol:
                used.add(j)
                break
        else:
            return False
    return True


def compare(kind, a, b, e, dim, tol, name, kw, prog):
    """None when b is the image of a."""
    if kind == SAME:
        return None if a == b and type(a) is type(b) else f'{b!r} instead of {a!r}'
    if kind == ANGLE:
        return None if abs(float(a) - float(b)) <= 1e-7 else f'{b!r} instead of {a!r}'
    if kind == POINT:
        want = e.A[len(a)] @ num(a) + e.t[len(a)]
        return None if close(want, b, tol) else f'{num(b).tolist()} instead of {want.tolist()}'
    if kind in (POINTS, 'set', 'pair'):
        x = num(a)
        want = x @ e.A[x.shape[1]].T + e.t[x.shape[1]]
        ok = close(want, b, tol) if kind == POINTS else same_set(want, b, tol)
        return None if ok else f'{num(b).tolist()} instead of {want.tolist()}'
    if kind == OBJ:
        return compare(POINT, a, b, e, dim, tol, name, kw, prog) if isinstance(a, np.ndarray) else moved_object(a, b, e, tol)
    k = kind[0]
    if k in ('length', 'signed'):
        f = e.s ** kind[1] * (e.det(dim) if k == 'signed' else 1)
        want = f * num(a)
        if name in ('Vector.angle_signed', 'Vector.angle_signed_3d') and abs(abs(float(a)) - np.pi) < 1e-9:
            want, b = np.abs(want), np.abs(b)  # half a turn has no sign
        t = 1e-7 if kind[1] == 0 else 1e-9 * max(e.s ** kind[1] * size(a), 1e-300) + 1e-10 * (e.s * max(1.0, reach(prog))) ** kind[1]
        return None if close(want, b, t) else f'{num(b).tolist()} instead of {want.tolist()}'
    if k == 'vector':
        d = len(a)
        want = e.s ** (kind[1] - 1) * (e.A[d] @ num(a)) * (e.det(d) if kind[2] else 1)
        if kind[2] and d == 2:
            want = num(a)
        if kind[2] and dim == 2:  # a pseudovector of plane vectors points along the third axis
            want = num(a) * e.s ** kind[1] * e.det(2)
        return None if close(want, b, 1e-9 * max(size(want), 1e-300) + 1e-12 * e.s ** kind[1]) else f'{num(b).tolist()} instead of {want.tolist()}'
    if k == 'linear':
        x = num(a)
        want = x @ (e.A[x.shape[1]] / e.s).T
        return None if close(want, b, 1e-9) else f'{num(b).tolist()} instead of {want.tolist()}'
    if k == 'centered':
        if kw.get('return_centroid'):
            m = compare(POINT, a[1], b[1], e, dim, tol, name, kw, prog)
            if m:
                return m
            a, b = a[0], b[0]
        x = num(a)
        want = x @ e.A[x.shape[1]].T
        return None if close(want, b, tol) else f'{num(b).tolist()} instead of {want.tolist()}'
    if k == 'fit':
        if kw.get('return_error'):
            if abs(e.s ** 2 * float(a[1]) - float(b[1])) > 1e-9 * (reach(prog) * e.s) ** 2:
                return f'error {b[1]} instead of {e.s ** 2 * float(a[1])}'
            a, b = a[0], b[0]
        if name == 'Cylinder.best_fit':
            return moved_cylinder(a, b, e)
        return moved_object(a, b, e, tol * 100)
    if k == 'multiple':
        what = prog[-1][3][0]
        for x, y in zip(a, b):
            m = compare(KIND[f'Triangle.{what}'], x, y, e, dim, tol, name, kw, prog)
            if m:
                return m
        return None if len(a) == len(b) else 'another number of results'
    raise AssertionError(kind)


def moved_cylinder(a, b, e):
    """The same cylinder: base and top may be exchanged."""
    t = 1e-4 * e.s * (float(a.radius) + np.linalg.norm(num(a.vector)))
    p, q = num(a.point), num(a.point) + num(a.vector)
    P, Q = e.A[3] @ p + e.t[3], e.A[3] @ q + e.t[3]
    x, y = num(b.point), num(b.point) + num(b.vector)
    ends = min(max(np.abs(P - x).max(), np.abs(Q - y).max()), max(np.abs(P - y).max(), np.abs(Q - x).max()))
    if ends > t or abs(float(b.radius) - e.s * float(a.radius)) > t:
        return f'{b} is not the image of {a}'
    return None


def reach(prog):
    """The largest absolute value in a program."""
    m = 0.0

    def go(x):
        nonlocal m
        if isinstance(x, dict):
            for r in ROLES:
                if r in x:
                    m = max(m, float(np.abs(num(x[r])).max()))
                    return
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(prog)
    return m


def dimension(prog):
    d = []

    def go(x):
        if isinstance(x, dict):
            for r in ('P', 'V', 'S'):
                if r in x:
                    d.append(len(x[r][0]) if r == 'S' else len(x[r]))
                    return
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(prog)
    return d


WORDS = {}


def keywords(prog):
    s = prog[-1]
    return s[4] if s[0] in ('op', 'cm') else s[3] if s[0] == 'fn' else {}


BASE = {}


def base(i):
    if i not in BASE:
        BASE[i] = prepare(CAT[i][1])[0]()
    return BASE[i]


def run_word(case, S):
    i, word = case
    name, prog = CAT[i]
    e = element(word)
    kw = keywords(prog)
    if e.s != 1 and ABSOLUTE & set(kw):
        return None
    if name in COMPARE and any(e.t[3]):
        return None
    S.traces += 1
    p2 = move(prog, e, linear=name in LINEAR)
    a = base(i)
    b = prepare(p2)[0]()
    S.transitions += 1
    if isinstance(a, Exception) or isinstance(b, Exception):
        if type(a) is not type(b):
            if undecided(prog) or undecided(p2) or (i >= len(LIBRARY) and right(prog) and right(p2)):
                S.amb += 1
                return None
            return f'{describe(p2)} gives {b!r}, but {describe(prog)} gives {a!r}'
        S.outcome(name, type(a).__name__)
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number))):
        return f'{describe(p2)} gives {b!r}, but {describe(prog)} gives {a!r}'
    dims = dimension(prog)
    if len(set(dims)) > 1:
        return None  # plane vectors are embedded in space: the group does not act on the mixture
    if type(a).__name__ in ('Line', 'Plane') and dims and a.dimension != dims[0]:
        return None
    tol = 1e-10 * max(reach(p2), 1e-12 * min(1.0, e.s)) + 1e-12 * min(1.0, e.s)
    if name.startswith('Cylinder.intersect'):
        tol = max(tol, 1e-6 * reach(p2))
    m = compare(KIND[name], a, b, e, max(dims) if dims else 0, tol, name, kw, prog)
    if m and (undecided(prog) or undecided(p2) or (i >= len(LIBRARY) and right(prog) and right(p2))):
        S.amb += 1
        return None
    if m:
        return f'under {"*".join(word)}: {describe(p2)} gives {m}; (before: {describe(prog)} gives {a!r})'[:1800]
    S.state((i, tuple(word), repr(b)[:200]))
    S.outcome(name, type(a).__name__)
    return None


def undecided(prog):
    """The reference model calls the answer ambiguous (a comparison within rounding of its tolerance)."""
    T = Stats()
    return run_program(prog, T) is None and T.amb > 0


def right(prog):
    """Both results are those of the reference model, as precisely as the (ill-conditioned) problem allows."""
    return run_program(prog, Stats()) is None


def gen_tilted(tier):
    def g():
        W = words(1 if tier == 'quick' else 2)
        for i in range(len(LIBRARY), len(CAT)):
            if CAT[i][0] in KIND and 'ord' not in keywords(CAT[i][1]):
                for w in W:
                    yield [i, list(w)]
    return g


def gen_word(tier):
    depth = 3 if tier == 'quick' else 4

    def g():
        if depth not in WORDS:
            WORDS[depth] = words(depth)
        assert {n for n, _ in LIBRARY} <= set(KIND) | set(SKIPPED)
        for i, (n, _) in enumerate(LIBRARY):
            if n in KIND and 'ord' not in keywords(LIBRARY[i][1]):  # other norms are not rotation invariant
                for w in WORDS[depth]:
                    yield [i, list(w)]
    return g


def gen_scales(tier):
    def g():
        for i, (n, _) in enumerate(LIBRARY):
            if n in KIND and 'ord' not in keywords(LIBRARY[i][1]) and not ABSOLUTE & set(keywords(LIBRARY[i][1])):
                for w in [()] + words(1 if tier == 'quick' else 2):
                    for k in SCALE:
                        yield [i, [*w, k]]
    return g


# ---------------------------------------------------------------- points very close to an object, seen from far away

CLOSE_BY = [  # object, point of it, direction away from it, calls
    (['Line', [{'P': [1, 2]}, {'V': [3, 4]}]], [4, 6], [-1, 1], ['contains_point', 'distance_point', 'side_point']),
    (['Line', [{'P': [1, 2, 3]}, {'V': [0, 0, 2]}]], [1, 2, 5], [1, 1, 0], ['contains_point', 'distance_point']),
    (['Line', [{'P': [1, 2, 3]}, {'V': [1, 2, 2]}]], [2, 4, 5], [0, 1, -1], ['contains_point', 'distance_point']),
    (['LineSegment', [{'P': [0, 0]}, {'P': [4, 2]}]], [2, 1], [-1, 1], ['contains_point']),
    (['LineSegment', [{'P': [0, 0, 1]}, {'P': [4, 0, 1]}]], [4, 0, 1], [1, 0, 0], ['contains_point']),
    (['Plane', [{'P': [1, 2, 3]}, {'V': [0, 0, 1]}]], [5, 6, 3], [0, 0, 1], ['contains_point', 'distance_point', 'side_point', 'distance_point_signed']),
    (['Plane', [{'P': [1, 2, 3]}, {'V': [1, 2, -2]}]], [3, 2, 4], [1, 0, -1], ['contains_point', 'distance_point', 'side_point', 'distance_point_signed']),
    (['Circle', [{'P': [1, 2]}, {'R': 5}]], [4, 6], [1, 1], ['contains_point', 'distance_point']),
    (['Sphere', [{'P': [1, 2, 3]}, {'R': 3}]], [2, 4, 5], [1, 0, 1], ['contains_point', 'distance_point']),
    (['Cylinder', [{'P': [1, 2, 3]}, {'V': [0, 0, 4]}, {'R': 2}]], [3, 2, 5], [1, 0, 0], ['is_point_within']),
    (['Cylinder', [{'P': [1, 2, 3]}, {'V': [0, 4, 0]}, {'R': 2}]], [1, 6, 3], [0, 1, 0], ['is_point_within']),
    (['Point', [{'P': [1, 2, 3]}]], [1, 2, 3], [1, -1, 1], ['distance_point']),
]


def run_close(case, S):
    """The answers about a point at distance 2**-k, before and after an exact translation by about 2**m."""
    i, k, m, sg = case
    (cls, args), p, w, calls = CLOSE_BY[i]
    h = sg * 2.0 ** -k
    q = [x + h * y for x, y in zip(p, w)]
    t = [2.0 ** m * f for f in (1, -1, 0.5)]
    e = Elem()
    e.t = {d: np.array(t[:d]) for d in (1, 2, 3)}
    S.traces += 1
    for name in calls:
        prog = [['new', cls, args], ['op', {'$': 0}, name, [{'P': q}], {}]]
        p2 = move(prog, e)
        a, b = prepare(prog)[0](), prepare(p2)[0]()
        S.transitions += 1
        S.state((case[0], k, m, name))
        S.outcome(f'{cls}.{name}', repr(a) if isinstance(a, (bool, int)) else type(a).__name__)
        if isinstance(a, (bool, np.bool_, int)):
            if a != b or type(a) is not type(b):
                if undecided(prog) or undecided(p2):
                    S.amb += 1
                    continue
                return f'{describe(p2)} gives {b!r}, but {describe(prog)} gives {a!r}'
        elif isinstance(a, Exception) or isinstance(b, Exception) or not abs(float(a) - float(b)) <= 1e-6 * abs(float(a)) + 2.0 ** (m - 49):
            return f'{describe(p2)} gives {b!r}, but {describe(prog)} gives {a!r}'
    return None


def gen_close(tier):
    def g():
        for i in range(len(CLOSE_BY)):
            for k in range(4, 47, 1 if tier == 'thorough' else 2):
                for m in range(4, min(47 - k, 25 if CLOSE_BY[i][0][0] == 'LineSegment' else 47)):
                    for sg in (1, -1):
                        yield [i, k, m, sg]
    return g


def EXPLORE(tier):
    d = 3 if tier == 'quick' else 4
    return [
        Exploration('scales', gen_scales(tier), run=run_word,
                    bounds=f'catalogue calls x at most one generator x scaling by {list(SCALE)}'),
        Exploration('tilted', gen_tilted(tier), run=run_word, bounds=f'{len(TILTED)} calls with one direction almost along an axis (1e-4 to 3e-11 off) x words of 1 (2) generators'),
        Exploration('close', gen_close(tier), run=run_close, bounds=f'{len(CLOSE_BY)} objects, points 2^-4 .. 2^-46 off, exact translations by 2^4 .. 2^44 (at most 2^46 times the distance)'),
        Exploration('words', gen_word(tier), run=run_word,
                    bounds=f'{sum(n in KIND for n, _ in LIBRARY)} catalogue calls x all distinct group elements reached by words of up to {d} of the generators {GENS} '
                           '(axis swaps and cycles, reflection, 3-4-5 rotation, (1,2,2)/3 reflection, two translations, scalings by 2 and 1/8)'),
    ]
