"""C27: meshes and sampled points lie on the object and cover it as requested."""
from mc.domains import *
from mc.engine import Exploration
from mc.interp import xform


def both(new, kws):
    s = [new]
    for kw in kws:
        s += [['op', ref(0), 'to_mesh', [], kw], ['op', ref(0), 'to_points', [], kw]]
    return s


LIMS = [{}, {'lims_x': {'t': [-5, 5]}, 'lims_y': {'t': [0, 2]}}, {'lims_x': [0, 10], 'lims_y': [-3.5, -0.25]}, {'lims_x': {'t': [2, -1]}}, {'lims_y': [0, 1, 4]},
        {'lims_x': [1, 2, 3, 4, 5], 'lims_y': [0.5]}]


def gen_planes(tier):
    def g():
        N = nonzero(lattice(3, (-2, -1, 0, 1, 3)))
        for n in N:
            for p in ([0, 0, 0], [1, -2, 3], [0.5, 7, -0.25]):
                yield both(['new', 'Plane', [P(p), V(n)]], LIMS)
        for dim in (1, 2, 4, 5):
            for n in vecs_dim(dim):
                yield both(['new', 'Plane', [P([1, 2, 3, 4, 5][:dim]), V(n)]], LIMS[:2])
        for n in nonzero(lattice(3, (-1, 0, 2))):
            for s in SCALES:
                yield both(['new', 'Plane', [P([s * x for x in [1, -2, 3]]), V(n)]], [{'lims_x': [-s, s], 'lims_y': [-2 * s, s]}])
                yield both(['new', 'Plane', [P([1, -2, 3]), V([s * x for x in n])]], LIMS[:2])
            for off in (OFFS[:3], [2.0 ** 20, -2.0 ** 21, 5], *FAROFF):
                yield both(['new', 'Plane', [P(off), V(n)]], LIMS[:3])
        for a, b in product((-5, -1, 0, 0.5, 3), repeat=2):
            for c, d in product((-5, -1, 0, 0.5, 3), repeat=2):
                for n in ([0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 2, 3], [2, -1, 0]):
                    yield [['new', 'Plane', [P([1, -2, 3]), V(n)]], ['op', ref(0), 'to_mesh', [[a, b], [c, d]], {}]]
    return g


RES = list(range(2, 13)) + [16, 17, 29, 30, 31, 32, 33, 63, 64, 65, 100, 101]


def gen_spheres(tier):
    def g():
        for c in lattice(3, (-1, 0, 2)):
            for r in (1, 2.5, 7):
                yield both(['new', 'Sphere', [P(c), r]], [{}, {'n_angles': 5}, {'n_angles': 12}])
        for n in RES + [1]:
            for c, r in (([0, 0, 0], 1), ([1, -2, 3], 0.75)):
                yield both(['new', 'Sphere', [P(c), r]], [{'n_angles': n}])
                yield [['new', 'Sphere', [P(c), r]], ['op', ref(0), 'to_mesh', [n], {}]]
        for s in SCALES:
            for n in (3, 4, 9, 30):
                yield xform(both(['new', 'Sphere', [P([1, -2, 3]), R(2)]], [{'n_angles': n}]), scale=s)
        for off in (OFFS[:3], [2.0 ** 20, -2.0 ** 21, 5], *FAROFF):
            yield xform(both(['new', 'Sphere', [P([1, -2, 3]), R(2)]], [{'n_angles': 7}]), offset=off)
    return g


def gen_cylinders(tier):
    def g():
        for v in nonzero(lattice(3, (-2, -1, 0, 1, 3))):
            for c, r in (([0, 0, 0], 1), ([1, -2, 3], 2.5)):
                yield both(['new', 'Cylinder', [P(c), V(v), r]], [{'n_along_axis': 3, 'n_angles': 5}, {'n_along_axis': 5, 'n_angles': 3}, {'n_along_axis': 4, 'n_angles': 4}])
            yield [['new', 'Cylinder', [P([1, -2, 3]), V(v), 1.5]], ['op', ref(0), 'to_mesh', [], {}], ['op', ref(0), 'to_mesh', [6, 7], {}]]
        for a, b in product(RES, RES):
            if a * b <= 2200:
                yield [['new', 'Cylinder', [P([1, -2, 3]), V([2, 1, -2]), 1.5]], ['op', ref(0), 'to_mesh', [a, b], {}], ['op', ref(0), 'to_points', [], {'n_along_axis': a, 'n_angles': b}]]
        for v in nonzero(lattice(3, (-1, 0, 2))):
            for s in SCALES:
                yield xform(both(['new', 'Cylinder', [P([1, -2, 3]), V(v), R(2)]], [{'n_along_axis': 3, 'n_angles': 6}]), scale=s)
            for k in (1e-3, 1e3):
                yield both(['new', 'Cylinder', [P([1, -2, 3]), V([k * x for x in v]), 2]], [{'n_along_axis': 3, 'n_angles': 6}])
            for off in (OFFS[:3], [2.0 ** 16, -2.0 ** 17, 5], *FAROFF):
                yield xform(both(['new', 'Cylinder', [P([1, -2, 3]), V(v), R(2)]], [{'n_along_axis': 3, 'n_angles': 6}]), offset=off)
        # axes that are almost along a coordinate axis
        for i, j in product(range(3), range(3)):
            for h in LADDER:
                v = [0, 0, 0]
                v[i] = 2
                v[j] += h
                yield both(['new', 'Cylinder', [P([1, -2, 3]), V(v), 1]], [{'n_along_axis': 3, 'n_angles': 6}])
    return g


def EXPLORE(tier):
    return [
        Exploration('planes', gen_planes(tier), bounds='all normals (entries -2..3) x 3 points x 6 limit settings, all limit pairs, dims 1-5, scales, offsets'),
        Exploration('spheres', gen_spheres(tier), bounds='lattice centres, resolutions 1-12 and up to 101, ten scales, offsets'),
        Exploration('cylinders', gen_cylinders(tier), bounds='all axes (entries -2..3), all resolution pairs up to 2200 vertices, scales, nearly axis-parallel axes'),
    ]
