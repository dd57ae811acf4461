"""
The operation catalogue: every public operation with small argument sets (including raising ones).

An entry is (name, prog): the last step of the program is the operation, the steps before it construct the objects it uses.
All coordinates are role-tagged leaves, so that a program can be scaled, moved and given other representations.
"""
from __future__ import annotations

from .domains import I, N, P, R, S, V, ref

CAT = []


def obj(cls, *args):
    return ['new', cls, list(args)]


def e(name, *steps):
    CAT.append((name, list(steps)))


def m(setup, method, *args, **kw):
    """A method of the last object of the setup."""
    cls = setup[-1][1]
    e(f'{cls}.{method}', *setup, ['op', ref(len(setup) - 1), method, list(args), kw])


def cm(cls, method, *args, **kw):
    e(f'{cls}.{method}', ['cm', cls, method, list(args), kw])


def fn(name, *args, **kw):
    e(name, ['fn', name, list(args), kw])


NAN = {'f': 'nan'}

# ---------------------------------------------------------------- objects

V2, W2, U2 = [3, 4], [-1, 2], [-6, -8]
V3, W3, U3 = [1, 2, 2], [2, -1, 0], [-2, -4, -4]
V4 = [1, -2, 3, 4]
PTS2 = [[0, 1], [2, 3], [-1, 4], [5, -2]]
PTS3 = [[0, 1, 2], [3, -1, 0], [-2, 4, 1], [5, 0, -3], [1, 1, 6]]
COL3 = [[0, 1, 2], [1, 2, 3], [3, 4, 5]]
DUP3 = [[0, 1, 2], [3, 4, 5], [0, 1, 2], [3, 4, 5]]


def vec(x):
    return obj('Vector', V(x))


def pt(x):
    return obj('Point', P(x))


def pts(x):
    return obj('Points', S(x))


def line(p, d):
    return obj('Line', P(p), V(d))


def plane(p, n):
    return obj('Plane', P(p), V(n))


def seg(a, b):
    return obj('LineSegment', P(a), P(b))


def circle(c, r):
    return obj('Circle', P(c), R(r))


def sphere(c, r):
    return obj('Sphere', P(c), R(r))


def tri(*T):
    return obj('Triangle', *[P(t) for t in T])


def cyl(p, v, r):
    return obj('Cylinder', P(p), V(v), R(r))


T2 = tri([0, 0], [4, 0], [1, 3])
TR = tri([0, 0], [3, 0], [0, 4])
T3 = tri([1, 0, 0], [0, 2, 1], [-1, 1, 3])
CY = cyl([1, -2, 3], [2, 4, 4], 2)
CZ = cyl([0, 0, 0], [0, 0, 5], 1)

# ---------------------------------------------------------------- vectors

cm('Vector', 'from_points', P([1, 2, 3]), P([4, 0, -1]))
cm('Vector', 'from_points', P([1, 2, 3]), P([4, 0]))
for v in (V2, V3, V4, [0, 0, 0]):
    m([vec(v)], 'norm')
    m([vec(v)], 'unit')
    m([vec(v)], 'is_zero')
m([vec(V3)], 'norm', ord=1)
m([vec([0, 1e-6, 0])], 'is_zero', abs_tol=N(1e-9))
for a, b in ((V2, W2), (V2, U2), (V3, W3), (V3, U3), ([0, 0, 0], V3), (V3, [0, 0, 0]), (V3, V2), (V4, [4, 3, -2, 1])):
    m([vec(a)], 'cross', V(b))
    m([vec(a)], 'cosine_similarity', V(b))
    m([vec(a)], 'angle_between', V(b))
    m([vec(a)], 'is_perpendicular', V(b))
    m([vec(a)], 'is_parallel', V(b))
    m([vec(a)], 'scalar_projection', V(b))
    m([vec(a)], 'project_vector', V(b))
    if len(a) == 2:
        m([vec(a)], 'angle_signed', V(b))
        m([vec(a)], 'side_vector', V(b))
m([vec(V3)], 'angle_signed', V(W3))
m([vec(V3)], 'side_vector', V(W3))
m([vec(V3)], 'is_parallel', V([1.001, 2, 2]), abs_tol=N(1e-4))
m([vec(V3)], 'is_perpendicular', V([2, -1, 0.001]), abs_tol=N(1e-2))
m([vec([1, 0, 0])], 'angle_signed_3d', V([0, 1, 0]), V([0, 0, 5]))
m([vec([1, 2, 0])], 'angle_signed_3d', V([-2, 1, 0]), V([0, 0, -3]))
m([vec([1, 2, 0])], 'angle_signed_3d', V([-2, 1, 0]), V([1, 0, -3]))
m([vec([1, 2])], 'angle_signed_3d', V([-2, 1, 0]), V([1, 0, -3]))
for v in ([2], V2, [5, 0], V3, [3, 0, 0], [0, 0], V4):
    m([vec(v)], 'different_direction')
m([pt([1, 2, 3])], 'distance_point', P([4, -2, 3]))
m([pt([1, 2, 3])], 'distance_point', P([4, -2]))
m([pt([1, 2])], 'distance_point', P([4, -2]))

# ---------------------------------------------------------------- arrays

for o, t in ((pt([1, 2, 3]), P([1, 2, 3])), (vec(V3), V([1, 2, 2.5])), (pts(PTS3), S(PTS3)), (pts(PTS3[:2]), P([0, 1, 2]))):
    m([o], 'is_close', t)
    m([o], 'is_close', t, abs_tol=N(1))
    m([o], 'is_equal', t)
for o in (pt([1, 2, 3]), vec([0.25, -1.75]), pts([[1.26, 2.5], [-3.49, 4]])):
    m([o], 'to_array')
    m([o], 'round')
    m([o], 'round', I(1))
    m([o], 'set_dimension', I(4))
    m([o], 'set_dimension', I(1))

# ---------------------------------------------------------------- point sets

for rows in (PTS2, PTS3, COL3, DUP3, [[1, 2, 3]], [[0, 0], [0, 0]]):
    for n in ('unique', 'centroid', 'mean_center', 'normalize_distance', 'affine_rank', 'are_concurrent', 'are_collinear', 'are_coplanar'):
        m([pts(rows)], n)
m([pts(PTS3)], 'mean_center', return_centroid=True)
m([pts(COL3)], 'affine_rank', tol=N(0.5))
m([pts(PTS3)], 'are_coplanar', tol=N(5))
m([pts(PTS3)], 'are_collinear', tol=N(0.1))
m([pts(PTS3)], 'are_concurrent', tol=N(50))

# ---------------------------------------------------------------- constructors

e('Point.new', pt([1, 2, 3]))
e('Vector.new', vec([1, 2]))
e('Points.new', pts(PTS2))
e('Line.new', line([0, 1, 2], [1, 2, 2]))
e('Line.new', line([0, 1, 2], [0, 0, 0]))
e('Line.new', line([0, 1, 2], [1, 0]))
e('Plane.new', plane([0, 1, 2], [1, 2, 2]))
e('Plane.new', plane([0, 1, 2], [0, 0, 0]))
e('LineSegment.new', seg([0, 1, 2], [1, 2, 2]))
e('LineSegment.new', seg([0, 1], [0, 1]))
e('Circle.new', circle([1, 2], 3))
e('Circle.new', circle([1, 2], 0))
e('Circle.new', circle([1, 2, 3], 1))
e('Sphere.new', sphere([1, 2, 3], 2))
e('Sphere.new', sphere([1, 2, 3], -2))
e('Triangle.new', T3)
e('Triangle.new', tri([0, 0], [1, 1], [2, 2]))
e('Cylinder.new', CY)
e('Cylinder.new', cyl([0, 0, 0], [0, 0, 0], 1))
cm('Line', 'from_points', P([1, 2, 3]), P([4, 0, -1]))
cm('Line', 'from_points', P([1, 2, 3]), P([1, 2, 3]))
cm('Line', 'from_slope', N(2), N(-3))
cm('Plane', 'from_vectors', P([1, 2, 3]), V(V3), V(W3))
cm('Plane', 'from_vectors', P([1, 2]), V(V2), V(W2))
cm('Plane', 'from_vectors', P([1, 2, 3]), V(V3), V(U3))
cm('Plane', 'from_points', P([1, 2, 3]), P([4, 0, -1]), P([0, 0, 5]))
cm('Plane', 'from_points', P([1, 2, 3]), P([2, 3, 4]), P([0, 1, 2]))
cm('Circle', 'from_points', P([1, 0]), P([0, 1]), P([-1, 0]))
cm('Circle', 'from_points', P([1, 2]), P([7, 3]), P([-2, 5]))
cm('Circle', 'from_points', P([1, 1]), P([2, 2]), P([3, 3]))
cm('Cylinder', 'from_points', P([1, 2, 3]), P([4, 0, -1]), R(2))
cm('Cylinder', 'from_points', P([1, 2, 3]), P([1, 2, 3]), R(2))

# ---------------------------------------------------------------- fits

cm('Line', 'best_fit', S(PTS3))
cm('Line', 'best_fit', S(PTS2), return_error=True)
cm('Line', 'best_fit', S(COL3), return_error=True)
cm('Line', 'best_fit', S([[1, 2], [1, 2]]))
cm('Line', 'best_fit', S(PTS3), full_matrices=False)
cm('Plane', 'best_fit', S(PTS3))
cm('Plane', 'best_fit', S(PTS3[:3]), return_error=True)
cm('Plane', 'best_fit', S(COL3))
cm('Plane', 'best_fit', S(PTS3), tol=N(1e-6), full_matrices=False)
cm('Circle', 'best_fit', S([[3, 4], [-4, 3], [5, 0], [0, -5]]))
cm('Circle', 'best_fit', S(PTS2))
cm('Circle', 'best_fit', S([[0, 0], [1, 1], [2, 2]]))
cm('Sphere', 'best_fit', S([[3, 0, 0], [0, 3, 0], [0, 0, 3], [-3, 0, 0], [1, 2, 2]]))
cm('Sphere', 'best_fit', S(PTS3))
cm('Sphere', 'best_fit', S(PTS2))
CYLPTS = [[2, 0, 0], [0, 2, 0], [-2, 0, 0], [0, -2, 0], [2, 0, 9], [0, 2, 9], [-2, 0, 9], [0, -2, 9], [2, 0, 4], [0, 2, 5]]
cm('Cylinder', 'best_fit', S(CYLPTS))
cm('Cylinder', 'best_fit', S([[z, x, y] for x, y, z in CYLPTS]))
cm('Cylinder', 'best_fit', S(PTS3))

# ---------------------------------------------------------------- lines

L3 = line([1, -2, 3], [2, 1, -2])
L2 = line([1, -2], [3, 4])
LX = line([0, 0, 0], [1, 0, 0])
L4 = line([1, -2, 3, 0], [1, 1, 1, 1])
for L, q, rows in ((L3, [4, 0, 1], PTS3), (L2, [4, 0], PTS2), (LX, [5, 1, 2], COL3), (L4, [0, 0, 0, 5], [[1, 2, 3, 4], [0, 0, 0, 0]])):
    for n in ('project_point', 'distance_point', 'contains_point', 'side_point'):
        m([L], n, P(q))
    m([L], 'contains_point', P([3 * L[2][1]['V'][i] + L[2][0]['P'][i] for i in range(len(q))]))
    m([L], 'to_point')
    m([L], 'to_point', N(-2.5))
    m([L], 'project_vector', V(q))
    for n in ('project_points', 'distance_points', 'transform_points', 'sum_squares'):
        m([L], n, S(rows))
m([L3], 'project_point', P([1, 2]))
m([L3], 'distance_points', S(PTS2))
m([L3], 'contains_point', P([3.001, -1, 1]), abs_tol=N(0.1))
PAIRS = [(L3, LX), (L3, line([3, -1, 1], [0, 1, 0])), (L3, line([0, 0, 0], [-4, -2, 4])), (L2, line([0, 0], [1, 0])), (L2, line([4, 2], [6, 8])), (LX, line([0, 0, 1], [0, 1, 0])), (L3, L2), (L4, L4)]
for a, b in PAIRS:
    for n in ('is_coplanar', 'distance_line', 'intersect_line', 'is_close'):
        m([b, a], n, ref(0))
m([line([0, 0, 1], [0, 1, 0]), LX], 'intersect_line', ref(0), check_coplanar=False)
m([line([0, 0, 0], [0, 1, 0]), LX], 'is_close', ref(0), abs_tol=N(1e-3))
m([LX], 'is_close', None)
m([LX], 'is_coplanar', None)

# ---------------------------------------------------------------- segments

SG = seg([0, 0], [4, 2])
SG3 = seg([0, 0, 1], [4, 2, 1])
for q in ([2, 1], [8, 4], [0, 0], [1, 1]):
    m([SG], 'contains_point', P(q))
m([SG3], 'contains_point', P([2, 1, 1]))
m([SG], 'contains_point', P([2, 1.0001]), abs_tol=N(1e-3))
for a, b in ((SG, seg([0, 2], [4, 0])), (SG, seg([4, 2], [5, 7])), (SG, seg([10, 0], [10, 1])), (SG, seg([1, 0], [5, 2])), (SG3, seg([0, 2, 1], [4, 0, 1])), (SG3, seg([0, 0, 0], [0, 0, 5])), (SG, SG3)):
    m([b, a], 'intersect_line_segment', ref(0))

# ---------------------------------------------------------------- planes

PL = plane([1, -2, 3], [1, 2, -2])
PZ = plane([0, 0, 2], [0, 0, -3])
P2 = plane([1, 2], [3, 4])
for L, q, rows in ((PL, [4, 0, 1], PTS3), (PZ, [5, 1, 2], COL3), (P2, [4, 0], PTS2)):
    for n in ('project_point', 'distance_point', 'distance_point_signed', 'contains_point', 'side_point'):
        m([L], n, P(q))
    m([L], 'project_vector', V(q))
    m([L], 'cartesian')
    for n in ('project_points', 'distance_points', 'distance_points_signed', 'sum_squares'):
        m([L], n, S(rows))
m([PL], 'project_point', P([1, 2]))
for a in (L3, LX, line([0, 0, 0], [2, 1, 2]), line([0, 0, 5], [1, 2, -2]), L2):
    m([a, PL], 'project_line', ref(0))
    m([a, PL], 'intersect_line', ref(0))
for b in (PZ, plane([0, 0, 0], [-2, -4, 4]), plane([1, 1, 1], [2, 0, 1]), P2, plane([1, -2, 3], [1, 2, -2])):
    m([b, PL], 'intersect_plane', ref(0))
    m([b, PL], 'is_close', ref(0))
m([LX, PL], 'is_close', ref(0))
m([PL], 'to_mesh')
m([PL], 'to_mesh', N([0, 2]), N([-1, 5]))
m([PZ], 'to_points', lims_x=N([-1, 1]), lims_y=N([-1, 1]))
m([plane([1, 2, 3], [1, 1, 0])], 'to_mesh')
m([plane([1, 2, 3], [0, 1, 0])], 'to_points')

# ---------------------------------------------------------------- circles and spheres

C5 = circle([1, -2], 5)
SP = sphere([1, -2, 3], 3)
for o, q in ((C5, [4, 2]), (C5, [1, 0]), (SP, [2, 0, 5]), (SP, [9, 1, 1])):
    for n in ('distance_point', 'contains_point', 'project_point'):
        m([o], n, P(q))
m([C5], 'project_point', P([1, -2]))
m([SP], 'project_point', P([1, -2, 3]))
m([SP], 'contains_point', P([2, 0, 5.01]), abs_tol=N(0.1))
for n in ('area', 'circumference'):
    m([C5], n)
for n in ('surface_area', 'volume', 'to_mesh', 'to_points'):
    m([SP], n)
m([SP], 'to_mesh', I(5))
m([SP], 'to_points', n_angles=I(4))
for b in (circle([7, -2], 5), circle([11, -2], 5), circle([1, -2], 3), circle([50, 0], 3), circle([2, -2], 1)):
    m([b, C5], 'intersect_circle', ref(0))
for b in (L2, line([0, 3], [1, 0]), line([0, 9], [1, 0])):
    m([b, C5], 'intersect_line', ref(0))
for b in (L3, line([0, 1, 3], [1, 0, 0]), line([0, 9, 0], [1, 0, 0]), LX):
    m([b, SP], 'intersect_line', ref(0))

# ---------------------------------------------------------------- triangles

for T in (T2, TR, T3):
    for x in 'ABC':
        for n in ('point', 'angle', 'altitude'):
            m([T], n, x)
    for x in 'abc':
        for n in ('line', 'length'):
            m([T], n, x)
    for n in ('normal', 'area', 'perimeter', 'centroid', 'orthocenter', 'classify', 'is_right'):
        m([T], n)
    m([T], 'multiple', 'length', 'abc')
    m([T], 'multiple', 'angle', 'ABC')
m([T2], 'line', 'D')
m([T2], 'point', 'a')
m([tri([0, 0], [4, 0], [2, 3.5])], 'classify', abs_tol=N(0.2))

# ---------------------------------------------------------------- cylinders

for n in ('length', 'lateral_surface_area', 'surface_area', 'volume', 'to_mesh', 'to_points'):
    m([CY], n)
m([CY], 'to_mesh', I(3), I(4))
m([CZ], 'to_points', n_along_axis=I(2), n_angles=I(5))
for q in ([2, 0, 5], [1, -2, 3], [9, 9, 9]):
    m([CY], 'is_point_within', P(q))
for b in (line([0, 0, 5], [1, 0, 0]), line([0, 0, 2], [1, 0, 0]), line([0.5, 0, 9], [0, 0, 2]), line([-3, 0, 2], [4, 1, 1]), line([5, 5, 0], [0, 1, 0])):
    for c in (CZ, CY):
        m([b, c], 'intersect_line', ref(0))
        m([b, c], 'intersect_line', ref(0), infinite=False)
m([line([-3, 0, 2], [4, 1, 1]), CZ], 'intersect_line', ref(0), n_digits=I(9))

# ---------------------------------------------------------------- functions

fn('area_triangle', P([0, 0]), P([4, 0]), P([1, 3]))
fn('area_triangle', P([0, 0, 1]), P([4, 0, 2]), P([1, 3, 5]))
fn('area_triangle', P([0, 0, 0, 0]), P([1, 0, 0, 0]), P([0, 1, 0, 0]))
fn('volume_tetrahedron', P([0, 0, 1]), P([4, 0, 2]), P([1, 3, 5]), P([-1, -1, 7]))
fn('area_signed', S([[0, 0], [4, 0], [4, 3], [0, 3]]))
fn('area_signed', S([[0, 0], [0, 3], [4, 3]]))
fn('area_signed', S([[0, 0], [0, 3]]))
fn('transform_coordinates', S(PTS3), P([1, 2, 3]), [V(V3), V(W3)])
fn('transform_coordinates', S(PTS2), P([1, 2]), [V(V2), V(W2)])
fn('transform_coordinates', S(PTS2), P([1, 2, 3]), [V(V2), V(W2)])
fn('transform_coordinates', S(PTS3[:3]), P([0, 0, 1]), [V(V3), V(W3), V([0, 0, 2])])
fn('transform_coordinates', S(PTS3), P([1, 2, 3]), S([V3, W3]))
fn('transform_coordinates', S(PTS2), P([1, 2]), S([V2]))

# ---------------------------------------------------------------- what every Python object can do: printing, copying, comparing

BASIC = []


def basic(o, name, *args):
    BASIC.append((f'{o[1]}.<{name}>', [o, ['fn', name, [ref(0), *args], {}]]))


for o in (vec(V3), vec(V2), pt([1, 2, 3]), pts(PTS3), L3, line([0.5, 1], [2, 1]), PL, seg([1, 2, 3], [4, 0, -1]), C5, SP, T2, T3, CY):
    for n in ('repr', 'str', 'format', 'copy', 'deepcopy', 'pickle', 'equal', 'hash', 'attributes'):
        basic(o, n)
for o in (vec(V3), pt([1, 2, 3]), pts(PTS3)):
    for n in ('iterate', 'sum', 'add', 'multiply', 'slice', 'compare', 'negative', 'asarray', 'tolist', 'transpose', 'astype'):
        basic(o, n)
SHORT = [b for b in BASIC if b[0].endswith('<repr>') or b[0] in ('Vector.<copy>', 'Points.<pickle>', 'Point.<slice>', 'Line.<deepcopy>')]
# ---------------------------------------------------------------- dimensions that do not match (or do)


def redim(x, d):
    """The same leaf with d more (or fewer) coordinates."""
    for role in ('P', 'V', 'S'):
        if role in x:
            def go(v):
                return v[:d] if d < 0 else v + [2, -1][:d]
            v = x[role]
            return {**x, role: [go(r) for r in v] if role == 'S' else go(v)}
    return None


def mismatched():
    """Every catalogue call with one array, or all arrays of one object or of the call, of another dimension."""
    seen = {repr(p) for _, p in CAT}
    for name, prog in CAT:
        places = []
        for k, step in enumerate(prog):
            at = 3 if step[0] in ('op', 'cm') else 2
            here = [(k, at, a) for a, x in enumerate(step[at]) if isinstance(x, dict) and any(r in x for r in ('P', 'V', 'S'))]
            places += [[h] for h in here]
            if len(here) > 1:
                places.append(here)
        for group in places:
            for d in (-1, 1, 2):
                p = [list(s) for s in prog]
                ok = True
                for k, at, a in group:
                    x = p[k][at][a]
                    v = next(x[r] for r in ('P', 'V', 'S') if r in x)
                    if len(v[0] if 'S' in x else v) + d < 1:
                        ok = False
                        break
                    p[k][at] = list(p[k][at])
                    p[k][at][a] = redim(x, d)
                if ok and repr(p) not in seen:
                    seen.add(repr(p))
                    yield name, p


MISMATCHED = list(mismatched())


def by_name():
    d = {}
    for n, p in CAT:
        d.setdefault(n, []).append(p)
    return d
