"""C28: plotting draws exactly the object and changes nothing else."""
import itertools
from fractions import Fraction as F

import numpy as np

import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import PathCollection  # noqa: E402
from matplotlib.patches import Circle as CirclePatch  # noqa: E402
from matplotlib.patches import FancyArrow, Patch  # noqa: E402
from mpl_toolkits.mplot3d.art3d import Line3D, Path3DCollection, Poly3DCollection  # noqa: E402

from mc import lib  # noqa: E402
from mc.domains import OFFS, lattice, nonzero  # noqa: E402
from mc.engine import Exploration  # noqa: E402
from mc.interp import mkrep, mkscalar  # noqa: E402
from mc.state import exact, exact_diff, global_diff, global_state  # noqa: E402

import skspatial.plotting as plotting  # noqa: E402

RULE = ('a case is one object drawn once (or two plotters on one figure) with one set of options; it is non-trivial when the artists that '
        'appeared on the axes were compared with the reference drawing')

# ---------------------------------------------------------------- what is on the axes


def num(x):
    return float(x)


def color(c):
    a = np.asarray(c, dtype=float).reshape(-1)
    return tuple(round(float(x), 6) for x in a[:4])


PROPS = {'c': 'color', 'color': 'color', 'fc': 'color', 'facecolor': 'color', 's': 'size', 'lw': 'lw', 'linewidth': 'lw', 'linewidths': 'lw', 'ls': 'ls', 'linestyle': 'ls',
         'alpha': 'alpha', 'zorder': 'zorder', 'label': 'label', 'marker': 'marker', 'fill': 'fill', 'ec': 'edge', 'edgecolor': 'edge', 'visible': 'visible', 'gid': 'gid'}


def props(artist, wanted):
    """The values of the given properties of an artist (those the keywords are about)."""
    out = {}
    for w in wanted:
        if w == 'color':
            out[w] = color(artist.get_facecolor() if hasattr(artist, 'get_facecolor') else matplotlib.colors.to_rgba(artist.get_color()))
        elif w == 'size':
            out[w] = tuple(np.asarray(artist.get_sizes()).tolist())
        elif w == 'lw':
            out[w] = tuple(np.atleast_1d(artist.get_linewidth()).tolist())
        elif w == 'ls':
            out[w] = repr(artist.get_linestyle())
        elif w == 'alpha':
            out[w] = artist.get_alpha()
        elif w == 'zorder':
            out[w] = artist.get_zorder()
        elif w == 'label':
            out[w] = artist.get_label()
        elif w == 'fill':
            out[w] = artist.get_fill()
        elif w == 'edge':
            out[w] = color(artist.get_edgecolor())
        elif w == 'visible':
            out[w] = artist.get_visible()
        elif w == 'gid':
            out[w] = artist.get_gid()
        elif w == 'marker':
            out[w] = artist.get_marker() if hasattr(artist, 'get_marker') else tuple(map(tuple, np.round(artist.get_paths()[0].vertices, 6).tolist()))
    return out


def records(artist, wanted):
    """The drawn primitives of one artist: (kind, coordinates, properties)."""
    pr = props(artist, wanted)
    if isinstance(artist, Path3DCollection):
        xs, ys, zs = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in artist._offsets3d)
        return [('marker', [num(x), num(y), num(z)], pr) for x, y, z in zip(xs, ys, zs)]
    if isinstance(artist, Poly3DCollection):
        v = np.asarray(artist._vec)[:3]
        return [('surface', sorted(tuple(num(x) for x in c) for c in v.T), pr)]
    if isinstance(artist, Line3D):
        p = np.array(artist.get_data_3d(), dtype=float).T.tolist()
        return [('segment', [a, b], pr) for a, b in zip(p, p[1:])] or [('line', p, pr)]
    if isinstance(artist, PathCollection):
        return [('marker', [num(x) for x in o], pr) for o in np.ma.filled(artist.get_offsets().astype(float), np.nan)]
    if isinstance(artist, matplotlib.lines.Line2D):
        p = np.array(artist.get_xydata(), dtype=float).tolist()
        return [('segment', [a, b], pr) for a, b in zip(p, p[1:])] or [('line', p, pr)]
    if isinstance(artist, CirclePatch):
        return [('circle', [num(x) for x in artist.center] + [num(artist.radius)], pr)]
    if isinstance(artist, FancyArrow):
        return [('arrow', [num(x) for x in np.asarray(artist.get_xy(), dtype=float).ravel()], pr)]
    if isinstance(artist, Patch):
        return [('patch', repr(artist), pr)]
    return [(type(artist).__name__, repr(artist), pr)]


def artists(ax):
    return list(ax.collections) + list(ax.lines) + list(ax.patches) + list(ax.images) + list(ax.texts) + list(ax.artists) + list(ax.tables)


def close(x, y, tol):
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(close(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, float) or isinstance(y, float):
        return x == y or abs(x - y) <= tol
    return x == y


def match(got, want, tol, directed=False):
    """Match two multisets of records (segments in either direction, unless directed)."""
    rest = list(got)
    for w in want:
        for i, g in enumerate(rest):
            if g[0] != w[0] or g[2] != w[2]:
                continue
            if close(g[1], w[1], tol) or (w[0] == 'segment' and not directed and close(g[1][::-1], w[1], tol)):
                del rest[i]
                break
        else:
            return f'{w} was not drawn; drawn: {got}'
    if rest:
        return f'{rest} was drawn, expected only {want}'
    return None


# ---------------------------------------------------------------- the stage: axes with other artists on them


def settings():
    """The settings of Matplotlib that drawing must leave alone."""
    return (plt.isinteractive(), matplotlib.get_backend(), hash(tuple((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))))


class Stage:
    """Reusable figures: the axes drawn on, a reference axes, and a current axes that must not be touched."""

    def __init__(self):
        self.f2, self.ax2 = plt.subplots()
        self.f3 = plt.figure()
        self.ax3 = self.f3.add_subplot(111, projection='3d')
        self.fr2, self.ref2 = plt.subplots()
        self.fr3 = plt.figure()
        self.ref3 = self.fr3.add_subplot(111, projection='3d')
        self.fc, self.cur = plt.subplots()  # the current axes of pyplot
        self.cur.plot([9, 8], [7, 6])
        self.ax2.scatter([5], [6], s=3)
        self.ax2.plot([1, 2], [3, 5], lw=2)
        self.ax3.scatter([5], [6], [7])
        self.ax3.plot([1, 2], [3, 5], [0, 1])
        # warm up (lazy initialisations of Matplotlib)
        for ax in (self.ref2, self.ref3):
            a = ax.scatter(*([[0]] * (3 if ax is self.ref3 else 2)))
            a.remove()

    def others(self):
        return [[records(a, ALL) for a in artists(ax)] for ax in (self.ax2, self.ax3, self.cur, self.ref2, self.ref3)]

    def look(self):
        out = []
        for ax in (self.ax2, self.ax3, self.cur):
            out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_visible(), ax.axison, repr(ax.get_aspect()), ax.get_xscale(), ax.get_yscale(), ax.get_legend() is None,
                        len(ax.figure.axes)))
        out.append((plt.get_fignums(), plt.gcf().number, id(plt.gca())))
        out.append(settings())
        return out


ALL = ['alpha', 'zorder', 'visible', 'lw']
STAGE = []


def stage():
    if not STAGE:
        STAGE.append(Stage())
    return STAGE[0]


# ---------------------------------------------------------------- reference drawings


def fr(v):
    return [F(x) for x in v]


def fl(v):
    return [float(x) for x in v]


def reference(ax, cls, data, dim, opts, kw):
    """Draw the reference on `ax` from the exact coordinates; returns the artists that appeared."""
    before = set(map(id, artists(ax)))
    o = dict(opts)

    def marker(p):
        ax.scatter(*[[float(x)] for x in p], **kw)

    def segment(a, b):
        ax.plot(*[[float(x), float(y)] for x, y in zip(a, b)], **kw)
    if cls == 'Point':
        marker(data[0])
    elif cls == 'Points':
        if len(data[0]) > 200:
            ax.scatter(*[[float(x) for x in c] for c in zip(*data[0])], **kw)
        else:
            for p in data[0]:
                marker(p)
    elif cls == 'Vector':
        p = fr(o.get('point', [0] * dim))
        k = F(o.get('scalar', 1))
        d = [k * F(x) for x in data[0]]
        if dim == 2:
            ax.arrow(float(p[0]), float(p[1]), float(d[0]), float(d[1]), **kw)
        else:
            segment(p, [x + y for x, y in zip(p, d)])
    elif cls == 'Line':
        p, d = fr(data[0]), fr(data[1])
        segment(*[[x + F(t) * y for x, y in zip(p, d)] for t in (o.get('t_1', 0), o.get('t_2', 1))])
    elif cls == 'LineSegment':
        segment(fr(data[0]), fr(data[1]))
    elif cls == 'Circle':
        ax.add_artist(plt.Circle((float(data[0][0]), float(data[0][1])), float(data[1]), **kw))
    elif cls == 'Triangle':
        part = o.get('part', 'points')
        if part == 'points':
            for p in data:
                marker(p)
        else:
            for a, b in ((0, 1), (1, 2), (2, 0)):
                segment(fr(data[a]), fr(data[b]))
    return [a for a in artists(ax) if id(a) not in before]


def surface_reference(ax, cls, data, opts, kw):
    """Surfaces: the mesh of the object, which is judged by C27; the drawn vertices are judged again by on_surface."""
    before = set(map(id, artists(ax)))
    X, Y, Z = getattr(lib, cls)(*data).to_mesh(**opts)  # judged by C27
    ax.plot_surface(X, Y, Z, **kw)
    return [a for a in artists(ax) if id(a) not in before], len(X)


def on_surface(cls, data, verts, tol):
    """Every drawn vertex satisfies the equation of the object, and (cylinder) both rims are drawn."""
    v = np.array(verts, dtype=float)
    if cls == 'Sphere':
        d = np.linalg.norm(v - np.array(data[0], dtype=float), axis=1) - data[1]
        return np.abs(d).max() <= tol
    p, n = np.array(data[0], dtype=float), np.array(data[1], dtype=float)
    if cls == 'Plane':
        if len(p) < 3:
            p, n = np.append(p, [0] * (3 - len(p))), np.append(n, [0] * (3 - len(n)))
        return np.abs((v - p) @ n / np.linalg.norm(n)).max() <= tol
    length = np.linalg.norm(n)
    h = (v - p) @ n / length
    rad = np.linalg.norm((v - p) - np.outer(h, n / length), axis=1)
    return np.abs(rad - data[2]).max() <= tol and abs(h.min()) <= tol and abs(h.max() - length) <= tol


def mk(cls, data, rep):
    C = getattr(lib, cls)
    if rep is None:
        return C(*data)
    out = []
    for x in data:
        out.append(mkrep(x, rep, 'P') if isinstance(x, (list, tuple)) else mkscalar(x, rep))
    return C(*out)


def size_of(data, opts):
    m = 1.0
    for x in list(data) + [v for v in opts.values() if not isinstance(v, str)]:
        m = max(m, float(np.abs(np.asarray(x, dtype=float)).max()))
    return m


def run_draw(case, S):
    """One object drawn on axes that already hold other artists."""
    cls, data, dim, opts, kw, rep, via = case
    st = stage()
    S.traces += 1
    obj = mk(cls, data, rep)
    ax = st.ax2 if dim == 2 else st.ax3
    refax = st.ref2 if dim == 2 else st.ref3
    kw2 = {k: v for k, v in kw.items()}
    o2 = {k: (tuple(v) if isinstance(v, list) and rep is None else np.array(v) if isinstance(v, list) else v) for k, v in opts.items()}
    x0, x_opts = exact(obj), exact(o2)
    plt.figure(st.fc.number)
    others, look, g = st.others(), st.look(), global_state()
    before = set(map(id, artists(ax)))
    what = f'{cls}{tuple(data)!r}'[:300] + f' with {opts} {kw} via {via}'
    ref_new, new = [], []
    try:
        S.transitions += 1
        try:
            if via == 'method':
                getattr(obj, f'plot_{dim}d')(ax, **o2, **kw2)
            elif via == 'plotter':
                obj.plotter(**o2, **kw2)(ax)
            else:  # the same plotter used twice: first on the reference axes
                p = obj.plotter(**o2, **kw2)
                p(refax)
                for a in artists(refax):
                    a.remove()
                p(ax)
        except Exception as e:
            return f'{what} raised {e!r}'
        new = [a for a in artists(ax) if id(a) not in before]
        surf = cls in ('Sphere', 'Plane', 'Cylinder')
        if surf:
            ref_new, _ = surface_reference(refax, cls, data, opts, kw)
        else:
            ref_new = reference(refax, cls, data, dim, opts, kw)
        wanted = sorted({PROPS[k] for k in kw if k in PROPS})
        got = [r for a in new for r in records(a, wanted)]
        want = [r for a in ref_new for r in records(a, wanted)]
        tol = 1e-11 * size_of(data, opts)
        if surf and len(got) == len(want) == 1:
            tol *= 10
            if got[0][2] != want[0][2]:
                return f'{what}: properties {got[0][2]} instead of {want[0][2]}'
            if len(got[0][1]) != len(want[0][1]):
                return f'{what}: a surface of {len(got[0][1])} vertices instead of {len(want[0][1])}'
            if not on_surface(cls, data, got[0][1], tol):
                return f'{what}: a drawn vertex is not on the object (or a rim is missing): {got[0][1][:20]}'
            gv, wv = np.array(got[0][1]), np.array(want[0][1])
            # sorted vertices may swap when equal up to rounding: compare the extents and the sorted coordinates
            if np.abs(np.sort(gv, axis=0) - np.sort(wv, axis=0)).max() > tol:
                return f'{what}: the drawn surface differs from the mesh of the object'
        else:
            m = match(got, want, tol, cls != 'Triangle')
            if m:
                return f'{what}: {m}'
        S.state((cls, dim, repr(got)))
        S.outcome(f'{cls}.plot_{dim}d', f'{len(got)} primitives')
    finally:
        for a in new + ref_new:
            try:
                a.remove()
            except Exception:
                pass
    if exact(obj) != x0:
        return f'{what} changed {exact_diff(x0, exact(obj), "the object")}'
    if exact(o2) != x_opts or kw2 != kw:
        return f'{what} changed its arguments'
    if st.others() != others:
        return f'{what} changed other artists: {others} became {st.others()}'
    if st.look() != look:
        return f'{what} changed the axes or figures: {look} became {st.look()}'
    d = global_diff(g, global_state())
    if d:
        return f'{what}: {d}'
    return None


# ---------------------------------------------------------------- alphabets

KW_SCATTER = [{}, {'c': 'r', 's': 25}, {'color': 'k', 'zorder': 7, 'alpha': 0.5}, {'label': 'here', 'marker': '^'}]
KW_LINE = [{}, {'c': 'r', 'lw': 4}, {'color': 'k', 'zorder': 7, 'alpha': 0.5}, {'label': 'here', 'linestyle': '--', 'marker': 'o'}]
KW_ARROW = [{}, {'head_width': 0.5, 'color': 'r'}, {'width': 0.1, 'zorder': 7, 'alpha': 0.5}, {'length_includes_head': True, 'label': 'here'}]
KW_CIRCLE = [{}, {'fill': False}, {'color': 'r', 'alpha': 0.25, 'zorder': 9}, {'ec': 'b', 'lw': 3, 'label': 'here'}]
KW_SURF = [{}, {'alpha': 0.2}, {'color': 'r', 'zorder': 7, 'shade': False}]
VIA = ['method', 'plotter', 'twice']
REPS4 = [None, 'float64', 'readonly', 'strided']


def with_kw(rows, kws, reps=REPS4, via=VIA):
    """Every row with every keyword set; representations and ways of calling rotate through all combinations."""
    n = 0
    rot = list(itertools.product(reps, via))
    for cls, data, dim, opts in rows:
        for kw in kws:
            rep, v = rot[n % len(rot)]
            n += 1
            yield [cls, data, dim, opts, kw, rep, v]


def full(rows, kws, reps=REPS4, via=VIA):
    for (cls, data, dim, opts), kw, rep, v in itertools.product(list(rows), kws, reps, via):
        yield [cls, data, dim, opts, kw, rep, v]


BIGSETS = [[[(i * 7) % 13 - 6, (i * i) % 11 - 5, i][:d] for i in range(n)] for n in (1, 2, 3, 4, 33, 64, 65, 100, 129) for d in (2, 3)]
HUGESETS = [[[(i * 7) % 1301 - 600, (i * i) % 1109 - 505, i][:d] for i in range(n)] for n in (256, 257, 513, 1000, 1001, 1025, 2049, 4097, 5001, 10001, 16385) for d in (2, 3)]


def gen_markers(tier):
    spread = with_kw if tier == 'quick' else full

    def rows():
        for d in (2, 3):
            for p in lattice(d, (-2, 0, 1, 2.5)):
                yield ['Point', [p], d, {}]
            yield ['Point', [[float(x) + 1e6 for x in range(d)]], d, {}]
            for ps in itertools.combinations_with_replacement(lattice(d, (-1, 0, 2))[:: 1 if d == 2 else 3], 2):
                yield ['Points', [[list(p) for p in ps]], d, {}]
            for ps in itertools.permutations(lattice(2, (0, 1, 3)), 3):
                yield ['Points', [[(p + [p[0] - 2 * p[1]])[:d] for p in ps]], d, {}]
        for b in BIGSETS:
            yield ['Points', [b], len(b[0]), {}]

    def g():
        yield from spread(rows(), KW_SCATTER)
        for i, b in enumerate(HUGESETS):
            yield ['Points', [b], len(b[0]), {}, KW_SCATTER[i // 2 % 3], None, VIA[i % 2]]
    return g


def gen_lines(tier):
    spread = with_kw if tier == 'quick' else full

    def rows():
        for d in (2, 3):
            vs = nonzero(lattice(d, (-2, 0, 1, 3)))
            ps = [[0] * d, [1, -2, 0.5][:d], [1000, -7, 3][:d]]
            for v in vs:
                for p in ps:
                    for o in ({}, {'t_1': -1}, {'t_2': 5}, {'t_1': 2, 't_2': -3.5}, {'t_1': 0, 't_2': 0}, {'t_1': 1, 't_2': 0}):
                        yield ['Line', [p, v], d, o]
                for o in ({}, {'point': [3, -5, 2][:d]}, {'scalar': 2}, {'point': [0.5, 1, -1][:d], 'scalar': -0.5}, {'point': [3, -1, 2][:d], 'scalar': 0}, {'scalar': 1e-3}, {'scalar': 0.25, 'point': [1, 2, 3][:d]}):
                    yield ['Vector', [v], d, o]
            for a, b in itertools.permutations(lattice(d, (-1, 0, 2)), 2):
                yield ['LineSegment', [a, b], d, {}]

    def g():
        lines, arrows = [], []
        for r in rows():
            (arrows if r[0] == 'Vector' and r[2] == 2 else lines).append(r)
        yield from spread(lines, KW_LINE)
        yield from spread(arrows, KW_ARROW)
    return g


def gen_shapes(tier):
    spread = with_kw if tier == 'quick' else full

    def g():
        circles = [['Circle', [c, r], 2, {}] for c in lattice(2, (-2, 0, 1, 2.5)) + [[1000, -300]] for r in (1, 0.5, 7)]
        yield from full(circles, KW_CIRCLE)
        tris = []
        for d in (2, 3):
            pts = lattice(2, (-1, 0, 2)) if d == 2 else [p for p in lattice(3, (0, 1, 3)) if sum(p) % 2]
            for t in itertools.combinations(pts, 3):
                m = np.array(t[1:]) - np.array(t[0])
                if np.linalg.matrix_rank(m) == 2:
                    for perm in (itertools.permutations(t) if d == 2 and tier != 'quick' else [t, t[::-1]]):
                        tris.append(['Triangle', [list(p) for p in perm], d])
        yield from spread([t + [{}] for t in tris], KW_SCATTER)
        yield from spread([t + [{'part': 'points'}] for t in tris[::3]], KW_SCATTER)
        yield from spread([t + [{'part': 'lines'}] for t in tris], KW_LINE)
    return g


def gen_far(tier):
    """Objects whose position is much larger than their size."""
    def g():
        rows = []
        for d in (2, 3):
            for far in (2 ** 20, 2 ** 30, 2 ** 34, 2 ** 40):
                for w in ([1, 1, 1], [-1, 3, 2], [0, 1, 0], [1, 0, -2]):
                    o = [far * x for x in w[:d]]

                    def at(p, k=1):
                        return [a + k * b for a, b in zip(o, p)]

                    rows.append((['Point', [o], d, {}], KW_SCATTER))
                    rows.append((['Points', [[o, at([1, 0, 2]), at([0, -3, 1])]], d, {}], KW_SCATTER))
                    for v in ([1, 0, 0], [0, 1, 3], [-2, 1, 1]):
                        rows.append((['Line', [o, v[:d]], d, {}], KW_LINE))
                        rows.append((['Line', [o, v[:d]], d, {'t_1': -1, 't_2': 4}], KW_LINE))
                        rows.append((['Vector', [v[:d]], d, {'point': o}], KW_ARROW if d == 2 else KW_LINE))
                        rows.append((['LineSegment', [o, at(v, far // 2 ** 16)], d, {}], KW_LINE))
                    for t in ([[0, 0, 0], [1, 0, 0], [0, 1, 0]], [[0, 0, 1], [3, 1, 0], [1, -2, 0]]):
                        data = [at(p) for p in t]
                        for part, kw in ((None, KW_SCATTER), ('points', KW_SCATTER), ('lines', KW_LINE)):
                            rows.append((['Triangle', data, d, {'part': part} if part else {}], kw))
                    if d == 2:
                        rows.append((['Circle', [o, 0.5], 2, {}], KW_CIRCLE))
        for kws in (KW_SCATTER, KW_LINE, KW_ARROW, KW_CIRCLE):
            yield from with_kw([r for r, kw in rows if kw is kws], kws)
    return g


def gen_surfaces(tier):
    def g():
        rows = []
        for c in lattice(3, (-1, 0, 2)) + [OFFS[:3]]:
            for r in (1, 2.5):
                for o in ({'n_angles': 4}, {'n_angles': 7}, {}):
                    rows.append(['Sphere', [c, r], 3, o])
        for v in nonzero(lattice(3, (-1, 0, 2))):
            for p in ([0, 0, 0], [1, -2, 3]):
                for o in ({'n_along_axis': 3, 'n_angles': 4}, {'n_along_axis': 2, 'n_angles': 7}, {'n_angles': 5, 'n_along_axis': 10}):
                    rows.append(['Cylinder', [p, v, 1.5], 3, o])
                for o in ({}, {'lims_x': [-5, 5]}, {'lims_y': [0, 2], 'lims_x': [1, 3]}, {'lims_y': [-3, 7]}):
                    rows.append(['Plane', [p, v], 3, o])
        rows.append(['Cylinder', [[1, 2, 3], [2, 1, -2], 2], 3, {}])
        yield from (with_kw if tier == 'quick' else full)(rows, KW_SURF, via=['method', 'plotter'])
    return g


# ---------------------------------------------------------------- the plotting functions, sequences of plotters

OBJ2 = [['Point', [[1, 2]], {}, {'s': 30}], ['Points', [[[1, 2], [3, 5], [0, -1]]], {}, {'c': 'r'}], ['Vector', [[2, 1]], {'point': [1, 1], 'scalar': 2}, {'head_width': 0.5}],
        ['Line', [[0, 1], [2, 3]], {'t_1': -1, 't_2': 2}, {'c': 'k'}], ['LineSegment', [[0, 1], [2, 5]], {}, {'lw': 3}], ['Circle', [[1, 2], 3], {}, {'fill': False}],
        ['Triangle', [[0, 0], [4, 0], [1, 3]], {}, {'c': 'g'}], ['Triangle', [[0, 0], [4, 0], [1, 3]], {'part': 'lines'}, {'c': 'g'}], ['Vector', [[-1, 3]], {}, {}]]
OBJ3 = [['Point', [[1, 2, 3]], {}, {'s': 30}], ['Points', [[[1, 2, 0], [3, 5, 1], [0, -1, 2]]], {}, {'c': 'r'}], ['Vector', [[2, 1, -1]], {'point': [1, 1, 4], 'scalar': 2}, {'lw': 2}],
        ['Line', [[0, 1, 2], [2, 3, -1]], {'t_1': -1, 't_2': 2}, {'c': 'k'}], ['LineSegment', [[0, 1, 2], [2, 5, 4]], {}, {'lw': 3}], ['Sphere', [[1, 2, 3], 3], {'n_angles': 5}, {'alpha': 0.2}],
        ['Triangle', [[0, 0, 1], [4, 0, 2], [1, 3, 5]], {}, {'c': 'g'}], ['Triangle', [[0, 0, 1], [4, 0, 2], [1, 3, 5]], {'part': 'lines'}, {'c': 'g'}],
        ['Plane', [[1, 2, 3], [1, 2, -2]], {'lims_x': [-2, 2]}, {'alpha': 0.5}], ['Cylinder', [[0, 0, 1], [0, 0, 4], 2], {'n_along_axis': 3, 'n_angles': 4}, {'alpha': 0.3}], ['Vector', [[-1, 3, 2]], {}, {}]]


def run_sequence(case, S):
    """Plotters drawn together by plotting.plot_2d / plot_3d: exactly the drawings of all of them, in one new figure."""
    dim, idx = case[:2]
    interactive = len(case) > 2 and case[2]
    table = OBJ2 if dim == 2 else OBJ3
    S.traces += 1
    st = stage()
    refax = st.ref2 if dim == 2 else st.ref3
    objs = [mk(c, d, None) for c, d, _, _ in (table[i] for i in idx)]
    x0 = [exact(o) for o in objs]
    nums = plt.get_fignums()
    others = st.others()
    ps = [o.plotter(**table[i][2], **table[i][3]) for o, i in zip(objs, idx)]
    fig = None
    ref_all = []
    (plt.ion if interactive else plt.ioff)()
    g = settings(), global_state()
    try:
        S.transitions += 1
        fig, ax = (plotting.plot_2d if dim == 2 else plotting.plot_3d)(*ps)
        d = global_diff(g[1], global_state())
        if settings() != g[0] or d:
            return f'plot_{dim}d of {[table[i][:3] for i in idx]} (interactive: {interactive}): settings {g[0]} became {settings()}' + (d or '')
        if len(plt.get_fignums()) != len(nums) + 1 or fig.axes != [ax] or (getattr(ax, 'name', '') == '3d') != (dim == 3):
            return f'plot_{dim}d made {fig!r} with axes {fig.axes}'
        for i in idx:
            c, d, o, kw = table[i]
            new = (surface_reference(refax, c, d, o, kw)[0] if c in ('Sphere', 'Plane', 'Cylinder') else reference(refax, c, d, dim, o, kw))
            ref_all += new
        # the properties fixed by the keywords of each object, plus the coordinates
        got = [(k, x, {}) for a in artists(ax) for k, x, _ in records(a, [])]
        want = [(k, x, {}) for a in ref_all for k, x, _ in records(a, [])]
        m = match([r for r in got if r[0] != 'surface'], [r for r in want if r[0] != 'surface'], 1e-10)
        if m:
            return f'plot_{dim}d of {[table[i][:3] for i in idx]}: {m}'
        gs, ws = [r[1] for r in got if r[0] == 'surface'], [r[1] for r in want if r[0] == 'surface']
        if len(gs) != len(ws) or any(len(a) != len(b) or np.abs(np.sort(np.array(a), axis=0) - np.sort(np.array(b), axis=0)).max() > 1e-10 for a, b in zip(gs, ws)):
            return f'plot_{dim}d of {[table[i][:3] for i in idx]}: different surfaces'
        S.state((dim, tuple(idx)))
        S.outcome(f'plotting.plot_{dim}d', f'{len(got)} primitives')
    finally:
        plt.ioff()
        for a in ref_all:
            a.remove()
        if fig is not None:
            plt.close(fig)
    for o, x in zip(objs, x0):
        if exact(o) != x:
            return f'plot_{dim}d changed {exact_diff(x, exact(o), repr(o))}'
    if st.others() != others:
        return f'plot_{dim}d of {idx} drew on another figure'
    return None


def gen_sequence(tier):
    def g():
        for dim, table in ((2, OBJ2), (3, OBJ3)):
            yield [dim, []]
            yield [dim, [], True]
            for i in range(len(table)):
                yield [dim, [i], True]
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                for idx in itertools.product(range(len(table)), repeat=n):
                    yield [dim, list(idx)]
    return g


# ---------------------------------------------------------------- rejections


def run_reject(case, S):
    kind, cls, data, dim = case
    S.traces += 1
    S.transitions += 1
    st = stage()
    obj = mk(cls, data, None)
    before = st.others()
    what = f'{cls}{tuple(data)}'
    if kind == 'plotter':
        ok = dim == 2 and cls in ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Circle', 'Triangle') or dim == 3 and cls != 'Circle'
        try:
            p = obj.plotter()
        except Exception as e:
            if ok or not isinstance(e, ValueError):
                return f'{what}.plotter() raised {e!r}'
            S.outcome('plotter', 'ValueError')
            return None
        if not ok:
            return f'{what}.plotter() of an object of dimension {dim} returned {p!r}'
        S.outcome('plotter', 'ok')
        S.state((cls, dim))
        return None
    # drawing three-dimensional markers and segments on two-dimensional axes
    try:
        obj.plot_3d(st.ax2)
    except ValueError:
        pass
    except Exception as e:
        return f'{what}.plot_3d() on two-dimensional axes raised {e!r}'
    else:
        return f'{what}.plot_3d() drew on two-dimensional axes'
    if st.others() != before:
        return f'{what}.plot_3d() on two-dimensional axes raised but left artists behind'
    S.outcome('plot_3d on 2D axes', 'ValueError')
    S.state((cls, 'axes'))
    return None


def gen_reject(tier):
    def g():
        for d in range(1, 8):
            e = [0] * d
            for p in ([1, 2, 3, 4, 5, 6, 7][:d], [0] * d):
                yield ['plotter', 'Point', [p], d]
                yield ['plotter', 'Vector', [p], d]
                yield ['plotter', 'Points', [[p]], d]
                yield ['plotter', 'Points', [[p, [7 - x for x in p], p]], d]
            for k in range(d):
                v = list(e)
                v[k] = 2
                yield ['plotter', 'Line', [e, v], d]
                yield ['plotter', 'LineSegment', [e, v], d]
                yield ['plotter', 'Plane', [e, v], d]
                for j in range(d):
                    if j != k:
                        w = list(e)
                        w[j] = -3
                        yield ['plotter', 'Triangle', [e, v, w], d]
        yield ['plotter', 'Circle', [[1, 2], 3], 2]
        yield ['plotter', 'Sphere', [[1, 2, 3], 3], 3]
        yield ['plotter', 'Cylinder', [[1, 2, 3], [0, 0, 1], 3], 3]
        for c, data in (('Point', [[1, 2, 3]]), ('Points', [[[1, 2, 3], [3, 4, 5]]]), ('Vector', [[1, 2, 3]]), ('Line', [[1, 2, 3], [1, 0, 2]]), ('LineSegment', [[1, 2, 3], [0, 0, 1]]),
                        ('Triangle', [[0, 0, 1], [4, 0, 2], [1, 3, 5]])):
            yield ['axes', c, data, 3]
    return g


def EXPLORE(tier):
    return [
        Exploration('markers', gen_markers(tier), run=run_draw, bounds='all lattice points and point sets of up to 3 lattice points (and up to 16385 points) in 2D and 3D x 4 keyword sets, rotating over 12 representation/call combinations (thorough: all)'),
        Exploration('lines', gen_lines(tier), run=run_draw, bounds='all lattice lines, segments, vectors in 2D and 3D x options x 4 keyword sets'),
        Exploration('shapes', gen_shapes(tier), run=run_draw, bounds='lattice circles, all lattice triangles in 2D and 3D x parts x 4 keyword sets'),
        Exploration('far', gen_far(tier), run=run_draw, bounds='points, lines, vectors, segments, triangles and circles at distances of 2^20 to 2^40, in 4 directions'),
        Exploration('surfaces', gen_surfaces(tier), run=run_draw, bounds='lattice spheres, planes and cylinders x mesh options x 3 keyword sets'),
        Exploration('sequences', gen_sequence(tier), run=run_sequence, bounds='all sequences of up to 2 (thorough: 3) plotters in one figure; single plotters in interactive mode'),
        Exploration('rejections', gen_reject(tier), run=run_reject, bounds='plotters of all classes in dimensions 1-7; 3D drawing on 2D axes'),
    ]
