"""
A process with particular interpreter flags in which the library has not been imported yet.

Reads requests (JSON lines) and forks a child for each of them; the child imports the library in the requested way,
makes all calls of the catalogue, compares them with the results of an ordinary process (pickled file) and reports.

    python [flags] -m mc.zygote BASELINE [blocked]

"blocked": Matplotlib is not installed (its import fails).
"""
import importlib
import json
import os
import pickle
import sys
import threading
import traceback
import warnings

os.environ['MC_LAZY'] = '1'

import numpy as np  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401

from mc import lib, state  # noqa: E402
from mc.catalog import CAT, MISMATCHED  # noqa: E402
from mc.interp import Stats, run_program  # noqa: E402

PUBLIC = ('Circle', 'Cylinder', 'Line', 'LineSegment', 'Plane', 'Point', 'Points', 'Sphere', 'Triangle', 'Vector')


def imports(order, blocked):
    """Import the modules in this order."""
    for m in order:
        try:
            importlib.import_module(m)
        except ImportError as e:
            if blocked and m == 'skspatial.plotting':
                if 'matplotlib' not in str(e).lower():
                    return f'without Matplotlib, importing {m} raised {e!r}, which does not name Matplotlib'
                continue
            return f'importing {m} raised {e!r}'
        except Exception as e:
            return f'importing {m} raised {e!r}'
        else:
            if blocked and m == 'skspatial.plotting':
                return f'without Matplotlib, importing {m} raised nothing'
    return None


def identity():
    """Every public class exists once."""
    objects = sys.modules['skspatial.objects']
    for name in PUBLIC:
        c = getattr(objects, name)
        for n, m in list(sys.modules.items()):
            if n.startswith('skspatial') and m is not None:
                d = getattr(m, name, c)
                if d is not c:
                    return f'{n}.{name} is not skspatial.objects.{name}'
    return None


def battery(base, which=None):
    n = 0
    for k in range(len(CAT)) if which is None else which:
        try:
            r = state.fp(state.prepare(CAT[k][1])[0]())
        except Exception as e:
            return n, f'{state.describe(CAT[k][1])}: the objects cannot be constructed: {e!r}'
        n += 1
        d = state.same(r, base[k])
        if d:
            return n, f'{state.describe(CAT[k][1])} gives {d}'
    return n, None


def make(c):
    return {
        'Point': lambda: lib.Point([1, 2, 3]), 'Vector': lambda: lib.Vector([0.5, 2, -3]), 'Points': lambda: lib.Points([[1, 2, 3], [4, 5, 7]]),
        'Line': lambda: lib.Line([1, 2, 3], [0, 1, 2]), 'LineSegment': lambda: lib.LineSegment([1, 2, 3], [0, 1, 2]), 'Plane': lambda: lib.Plane([1, 2, 3], [0, 1, 2]),
        'Circle': lambda: lib.Circle([1, 2], 3), 'Sphere': lambda: lib.Sphere([1, 2, 3], 2.5), 'Triangle': lambda: lib.Triangle([1, 2, 3], [0, 1, 2], [5, 5, 4]),
        'Cylinder': lambda: lib.Cylinder([1, 2, 3], [0, 1, 2], 2),
    }[c]()


DERIVED = {
    'Point': ['norm'], 'Vector': ['norm', 'unit'], 'Points': ['centroid', 'mean_center', 'are_collinear'], 'Line': ['to_point'], 'LineSegment': [],
    'Plane': ['cartesian', 'to_mesh'], 'Circle': ['area', 'circumference'], 'Sphere': ['volume', 'to_mesh'], 'Triangle': ['area', 'classify', 'centroid'],
    'Cylinder': ['volume', 'length', 'to_mesh'],
}


def results(o):
    out = [state.fp(o), ('lit', repr(o))]
    for m in DERIVED[type(o).__name__]:
        f = getattr(o, m, None)
        if f is not None:
            out.append(state.fp(f()))
    if isinstance(o, np.ndarray):
        out.append(state.fp(o + 1))
        out.append(state.fp(o[:1]))
        out.append(('num', 'i', o.dimension))
    return tuple(out)


PLOTS = {'plot_2d': ('Point', 'Vector', 'Points', 'Line', 'LineSegment', 'Circle', 'Triangle'), 'plot_3d': ('Point', 'Vector', 'Points', 'Line', 'LineSegment', 'Plane', 'Sphere', 'Triangle', 'Cylinder')}


def plots():
    """Without Matplotlib, plotting raises an ImportError that names it (or fails on the missing axes); plotters can be made."""
    for method, classes in PLOTS.items():
        for c in classes:
            o = make(c)
            f = o.plotter()
            if not callable(f):
                return f'{c}.plotter() returned {f!r}'
            for g, what in ((getattr(o, method), f'{c}.{method}'),):
                try:
                    g(None)
                except ImportError as e:
                    if 'matplotlib' not in str(e).lower():
                        return f'without Matplotlib, {what} raised {e!r}, which does not name Matplotlib'
                except (AttributeError, TypeError, ValueError):
                    pass
                else:
                    return f'without Matplotlib, {what} raised nothing'
    return None


DRAWN = [(c, m, o) for m, cs in PLOTS.items() for c in cs for o in ([{}] + {'Triangle': [{'part': 'lines'}, {'part': 'points'}], 'Vector': [{'scalar': 2}, {'point': [1, 2, 3]}],
         'Line': [{'t_1': -1, 't_2': 3}], 'Plane': [{'lims_x': [0, 2], 'lims_y': [-1, 4]}], 'Sphere': [{'n_angles': 5}], 'Cylinder': [{'n_along_axis': 3, 'n_angles': 4}]}.get(c, []))]


def drawings():
    """What the plotting methods draw, artist by artist, in the order of the axes."""
    import matplotlib.pyplot as plt
    flat = {'Point': lambda: lib.Point([1, 2]), 'Vector': lambda: lib.Vector([0.5, 2]), 'Points': lambda: lib.Points([[1, 2], [4, 5]]), 'Line': lambda: lib.Line([1, 2], [0, 1]),
            'LineSegment': lambda: lib.LineSegment([1, 2], [0, 1]), 'Triangle': lambda: lib.Triangle([1, 2], [0, 1], [5, 5])}
    fig = plt.figure()
    out = []
    for c, m, o in DRAWN:
        d = int(m[5])
        ax = fig.add_subplot(projection='3d') if d == 3 else fig.add_subplot()
        x = flat[c]() if d == 2 and c in flat else make(c)
        o = {k: v[:d] if k == 'point' else v for k, v in o.items()}
        try:
            getattr(x, m)(ax, **o)
        except Exception as e:
            out.append((c, m, repr(e)))
        for a in ax.get_children():
            for get in ('get_data_3d', 'get_xydata', 'get_offsets', 'get_center', 'get_radius', 'get_xy', '_vec', '_offsets3d'):
                v = getattr(a, get, None)
                try:
                    v = v() if callable(v) else v
                    if v is not None:
                        out.append((c, m, repr(o), type(a).__name__, get, repr([np.round(np.asarray(np.ma.filled(y, np.nan), dtype=float), 9).tolist() for y in (v if isinstance(v, tuple) else (v,))])))
                except TypeError:
                    pass
        fig.clf()
    plt.close(fig)
    return out


def outcome(prog):
    """The result of a call, or the exception of the call or of the construction of its operands."""
    try:
        call = state.prepare(prog)[0]
    except Exception as e:
        return ('new', type(e).__name__, str(e))
    return state.fp(call())


def reads():
    """The environment variables that code of the package reads while it is imported and used."""
    names = set()
    cls = type(os.environ)
    original = cls.__getitem__

    def recorded(self, key):
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.startswith(('<frozen', os.__file__, os.path.dirname(os.__file__) + '/_collections_abc')):
            f = f.f_back
        if f is not None and os.path.realpath(f.f_code.co_filename).startswith(os.path.realpath(lib.PKG_DIR)):
            names.add(key if isinstance(key, str) else os.fsdecode(key))
        return original(self, key)

    cls.__getitem__ = recorded
    lib.load()
    drawings()
    for _, p in CAT + MISMATCHED:
        outcome(p)
    return sorted(names)


def serve(req, base, blocked):
    kind = req[0]
    if kind == 'reads':
        return 1, reads()
    if kind == 'errors':
        _, strict = req
        if strict:
            warnings.simplefilter('error')
        lib.load()
        for k, (_, p) in enumerate(MISMATCHED):
            r, b = outcome(p), base['errors'][k]
            d = (None if r == b else f'{r} instead of {b}') if 'new' in (r[0], b[0]) else state.same(r, b)
            if d:
                return k, f'{state.describe(p)} gives {d}'
        return len(MISMATCHED), None
    if kind == 'drawings':
        _, order, strict = req
        if strict:
            warnings.simplefilter('error')
        m = imports(order, blocked)
        if m:
            return 1, m
        lib.load()
        got = drawings()
        for x, y in zip(got, base['drawings']):
            if x != y:
                return len(got), f'{x} was drawn instead of {y}'
        return len(got), None if len(got) == len(base['drawings']) else f'{len(got)} instead of {len(base["drawings"])} coordinates were drawn'
    if kind == 'order':
        _, order, strict, thread = req
        out = []

        def go():
            try:
                out.append(order_run(order, strict, base, blocked))
            except BaseException:
                out.append((0, traceback.format_exc()[-1500:]))
        if thread:
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        return out[0]
    if kind == 'unpickle':
        _, c, proto = req
        data, want = base['pickles'][c][proto]
        try:
            o = pickle.loads(data)
        except Exception as e:
            return 1, f'unpickling a {c} (protocol {proto}) in a process that has not imported the library raised {e!r}'
        lib.load()
        if type(o) is not getattr(lib, c):
            return 1, f'unpickling a {c} (protocol {proto}) gave a {type(o)}'
        got = results(o)
        for x, y in zip(got, want):
            if (x[0] == 'lit' and x != y) or state.same(x, y):
                return len(got), f'a {c} unpickled (protocol {proto}) in a new process gives {x} instead of {y}'
        return len(got), identity()
    raise AssertionError(req)


def order_run(order, strict, base, blocked):
    if strict:
        warnings.simplefilter('error')
    m = imports(order, blocked)
    if m:
        return 1, m
    lib.load()
    m = identity()
    if m:
        return 1, m
    n, m = battery(base['calls'])
    if m is None and blocked:
        m = plots()
    return n, m


def main():
    with open(sys.argv[1], 'rb') as f:
        base = pickle.load(f)
    blocked = 'blocked' in sys.argv[2:]
    sys.pycache_prefix = '/nonexistent/skspatial-pycache'
    sys.dont_write_bytecode = True
    if blocked:
        for m in list(sys.modules):
            if m.split('.')[0] in ('matplotlib', 'mpl_toolkits'):
                del sys.modules[m]
        sys.modules['matplotlib'] = None
        sys.modules['matplotlib.pyplot'] = None
        sys.modules['mpl_toolkits'] = None
    else:
        import matplotlib.pyplot  # noqa: F401
    assert_ok = not any(m.startswith('skspatial') for m in sys.modules)
    for line in sys.stdin:
        req = json.loads(line)
        if not assert_ok:
            out = ('err', 'the library was imported too early')
        elif req[0] == 'judge':
            if not hasattr(lib, 'objects'):
                lib.load()
            S = Stats()
            try:
                m = run_program(req[1], S)
                out = ('ok', (S.transitions, m))
            except Exception:
                out = ('err', traceback.format_exc()[-2000:])
            if out[0] == 'ok':
                sys.stdout.write(json.dumps(['ok', [S.transitions, m]]) + '\n')
                sys.stdout.flush()
                continue
        else:
            out = state.in_child(serve, req, base, blocked, timeout=50)
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
