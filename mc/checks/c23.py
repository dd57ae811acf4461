"""C23: fitting a cylinder to points on its surface recovers the cylinder."""
import math

import numpy as np

from mc import lib
from mc.domains import *
from mc.engine import Exploration
from mc.model import Outcome

RULE = 'a case is one fit (surface points of a known cylinder, or degenerate input); distinct cases differ in the cylinder or in the positions of the points'


def frame(v):
    v = np.array(v, float)
    v /= np.linalg.norm(v)
    i = int(np.argmin(np.abs(v)))
    e = np.zeros(3)
    e[i] = 1
    a = np.cross(v, e)
    a /= np.linalg.norm(a)
    return v, a, np.cross(v, a)


def surface(case):
    """Points on the lateral surface: rings at the given fractions of the length, k points each, with a twist."""
    axis, r, length, base = case['axis'], case['r'], case['len'], np.array(case['base'], float)
    v, a, b = frame(axis)
    out = []
    for i, t in enumerate(case['rings']):
        for j in range(case['k']):
            w = 2 * math.pi * case.get('arc', 1) * (j + 0.3 * i * case.get('twist', 1)) / case['k'] + 0.1
            if case.get('uneven'):  # angles crowd at one side, differently on every ring
                w += 0.8 * math.sin(w + i)
            out.append((base + t * length * v + r * (math.cos(w) * a + math.sin(w) * b)).tolist())
    if case.get('reverse'):
        out.reverse()
    return out


def run_recover(case, S):
    pts = surface(case)
    S.transitions += 1
    S.traces += 1
    S.state(repr(case))
    try:
        c = lib.Cylinder.best_fit(lib.Points(pts) if case.get('points') else pts)
    except Exception as e:
        return f'Cylinder.best_fit raised {e!r} for points on the cylinder {case}'
    S.outcome('Cylinder.best_fit', type(c).__name__)
    if type(c).__name__ != 'Cylinder':
        return f'expected a Cylinder, got {c!r}'
    v, _, _ = frame(case['axis'])
    r, length, base = case['r'], case['len'], np.array(case['base'], float)
    p, w = np.array(c.point, float), np.array(c.vector, float)
    tol = 1e-3 * max(r, length)
    n = np.linalg.norm(w)
    if not abs(n - length) <= tol:
        return f'length {n}, expected {length} ({case}, {c!r})'
    if not abs(c.radius - r) <= tol:
        return f'radius {c.radius}, expected {r} ({case}, {c!r})'
    if not np.linalg.norm(np.cross(w / n, v)) <= 1e-3:
        return f'axis {w}, expected parallel to {v} ({case}, {c!r})'
    ends = [base, base + length * v]
    d1 = max(np.linalg.norm(p - ends[0]), np.linalg.norm(p + w - ends[1]))
    d2 = max(np.linalg.norm(p - ends[1]), np.linalg.norm(p + w - ends[0]))
    if not min(d1, d2) <= tol:
        return f'the caps are centred at {p} and {p + w}, expected {ends} ({case}, {c!r})'
    return None


def run_bad(case, S):
    S.transitions += 1
    S.traces += 1
    S.state(repr(case))
    pts = case['points']
    try:
        c = lib.Cylinder.best_fit(pts)
    except ValueError:
        S.outcome('Cylinder.best_fit', 'ValueError')
        return None
    except Exception as e:
        if isinstance(e, TypeError) and case.get('type'):
            return None
        return f'Cylinder.best_fit({pts}) raised {e!r}, expected ValueError'
    return f'Cylinder.best_fit({pts}) returned {c!r}, expected ValueError ({case["why"]})'


RINGS = {
    'two': [0, 1],
    'three': [0, 0.5, 1],
    'five': [0, 0.25, 0.5, 0.75, 1],
    'low': [0, 0.05, 0.1, 0.2, 1],
    'high': [0, 0.7, 0.9, 0.95, 1],
    'ends': [0, 0.02, 0.98, 1],
    'one sided': [0, 0, 0, 0.1, 1],
    'unsorted': [0.3, 1, 0.6, 0, 0.9],
}


def canon(v):
    return next(x for x in v if x) > 0


def gen_recover(tier):
    big = tier == 'thorough'

    def g():
        axes = [v for v in nonzero(lattice(3, (-1, 0, 1, 2) if not big else (-2, -1, 0, 1, 2, 3))) if big or sum(map(abs, v)) <= 4]
        for i, v in enumerate(axes):
            for j, name in enumerate(RINGS):
                if not big and (i + j) % 3 and name not in ('low', 'ends'):
                    continue
                yield {'axis': v, 'r': 1, 'len': 8, 'base': [1, -2, 3], 'rings': RINGS[name], 'k': 6}
        for v in ([0, 0, 1], [1, 0, 0], [0, -1, 0], [1, 1, 1], [1, 2, -2], [0, 3, 4]):
            for r, ln in ((0.5, 10), (2, 20), (1, 6), (10, 100), (0.01, 0.2), (1, 50)):
                for base in ([0, 0, 0], [10, -20, 5], [-3, 0, 1]):
                    for name in ('two', 'five', 'low') if not big else RINGS:
                        for k in (4, 7) if not big else (3, 4, 5, 7, 12):
                            yield {'axis': v, 'r': r, 'len': ln, 'base': base, 'rings': RINGS[name], 'k': k}
            yield {'axis': v, 'r': 1, 'len': 10, 'base': [1, 2, 3], 'rings': RINGS['five'], 'k': 6, 'reverse': True, 'points': True}
            yield {'axis': v, 'r': 1, 'len': 10, 'base': [1, 2, 3], 'rings': [i / 20 for i in range(21)], 'k': 8, 'points': True}
            yield {'axis': v, 'r': 1, 'len': 10, 'base': [1, 2, 3], 'rings': [(i / 40) ** 2 for i in range(41)], 'k': 5}
        # points crowding at one side or covering only a part of the circumference, at all scales and far from the origin
        for v in ([0, 0, 1], [1, 2, 2], [-1, 0, 1], [0, 3, 4], [1, 1, -1]) + (([-2, 0, 1], [0, -1, 0], [-1, 0, 0], [3, -1, 2]) if big else ()):
            for arc, un in ((1, 1), (0.75, 0), (0.75, 1)):
                for sc, off in ((1, 0), (2.0 ** -20, 0), (2.0 ** -10, 1e3), (2.0 ** 20, 0), (1, 1e4), (2.0 ** -30, 0), (2.0 ** 30, 0)):
                    for name in ('two', 'low', 'one sided', 'unsorted') if not big else RINGS:
                        for k in (4, 7) if big else (5,):
                            yield {'axis': v, 'r': sc, 'len': 8 * sc, 'base': [sc * (1 + off), sc * (-2 - off), 3 * sc], 'rings': RINGS[name], 'k': k, 'arc': arc, 'uneven': un}
        # many points, with the rims anywhere in the order
        for n, k in ((64, 2), (65, 2), (43, 3), (86, 3), (128, 2), (129, 2), (101, 3), (103, 5)) + (((171, 3), (257, 2), (501, 2), (350, 3)) if big else ((257, 2),)):
            for mul in (1, 7, 19) if big or n < 90 else (7,):
                # the levels in a scattered order
                yield {'axis': [1, 2, 2], 'r': 1, 'len': 10, 'base': [1, 2, 3], 'rings': [(i * mul + 3) % n / (n - 1) for i in range(n)], 'k': k, 'twist': 4.1}
        for n in (150, 300) if not big else (60, 100, 129, 150, 200, 260, 300, 600):
            for at in (0, 1, n // 2 + 1, n - 1):
                # a single point on each rim
                yield {'axis': [0, 3, 4], 'r': 1, 'len': 12, 'base': [-1, 2, 0], 'rings': [1 if i == at else 0 if i == (at + 7) % n else 0.3 + 0.4 * i / n for i in range(n)], 'k': 1, 'twist': 7.7}
        if big:
            for n in (63, 64, 65, 100, 127, 128, 129, 256, 257):
                yield {'axis': [1, 2, 2], 'r': 1, 'len': 10, 'base': [1, 2, 3], 'rings': [i / (n - 1) for i in range(n)], 'k': 5}
    return g


def gen_bad(tier):
    def g():
        good = surface({'axis': [1, 2, 2], 'r': 1, 'len': 9, 'base': [0, 0, 0], 'rings': RINGS['three'], 'k': 4})
        for n in range(0, 6):
            yield {'points': good[:n], 'why': 'fewer than six points'}
            yield {'points': good[::2][:n], 'why': 'fewer than six points'}
        for d in (1, 2, 4, 5):
            for n in (1, 5, 6, 7, 12):
                yield {'points': spread(n, d), 'why': 'not three-dimensional'}
        # coplanar points in many planes
        for u, v in product(nonzero(lattice(3, (-1, 0, 2)))[::3], nonzero(lattice(3, (-1, 0, 1)))[::2]):
            for p in ([0, 0, 0], [1, -2, 3]):
                for n in (6, 9):
                    yield {'points': [[p[i] + a * u[i] + b * v[i] for i in range(3)] for a, b in spread(n, 2)], 'why': 'coplanar'}
        yield {'points': [[1, 2, 3]] * 8, 'why': 'concurrent'}
        for bad in ([], [[]], [1, 2, 3], [[1, 2], [3]], None, [[float('nan'), 0, 0]] * 7, [['a', 'b', 'c']] * 6):
            yield {'points': bad, 'why': 'malformed', 'type': True}
    return g


def EXPLORE(tier):
    return [
        Exploration('recover', gen_recover(tier), run=run_recover, bounds='lattice axes (entries -1..2; thorough -2..3) x eight ring layouts x radii/lengths/bases, relative tolerance 1e-3'),
        Exploration('degenerate', gen_bad(tier), run=run_bad, bounds='0-5 points, dims 1,2,4,5, coplanar lattices in all planes of the alphabet, malformed'),
    ]
