"""The library under test, imported from the working tree of /repo (or SKSPATIAL_SRC, for scratch copies)."""
import copy
import operator
import os
import pickle
import sys

SRC = os.environ.get('SKSPATIAL_SRC', '/repo/src')
sys.path.insert(0, SRC)

import numpy  # noqa: E402,F401
import numpy.linalg  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401

CLASSES = {'Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Plane', 'Circle', 'Sphere', 'Triangle', 'Cylinder'}
FUNCTIONS = {  # those of the language and of NumPy; the public functions of the library are added below
    'repr': repr, 'str': str, 'format': '{}'.format, 'copy': copy.copy, 'deepcopy': copy.deepcopy,
    'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'equal': lambda x: x == x, 'hash': lambda x: isinstance(hash(x), int),
    'attributes': lambda x: sorted(n for n in dir(x) if not n.startswith('_')) != [],
    'iterate': list, 'sum': numpy.sum, 'add': lambda x: x + x, 'multiply': lambda x: 3 * x, 'slice': lambda x: x[:2], 'compare': lambda x: x < 2,
    'negative': operator.neg, 'asarray': numpy.asarray, 'tolist': lambda x: x.tolist(), 'transpose': lambda x: x.T, 'astype': lambda x: x.astype(float),
}
PKG_DIR = os.path.realpath(os.path.join(SRC, 'skspatial'))


def load():
    """Import the library."""
    # Byte code of the library is never read from a cache: what runs is the source in the working tree.
    prefix, write = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix = '/nonexistent/skspatial-pycache'
    sys.dont_write_bytecode = True
    import skspatial
    import skspatial.measurement as measurement
    import skspatial.objects as objects
    import skspatial.transformation as transformation
    sys.pycache_prefix = prefix
    sys.dont_write_bytecode = write
    where = os.path.realpath(os.path.dirname(os.path.dirname(objects.__file__)))
    if where != PKG_DIR:
        raise SystemExit(f'skspatial was imported from {where}, not from {SRC}')
    g = globals()
    g.update(skspatial=skspatial, objects=objects, measurement=measurement, transformation=transformation)
    for name in CLASSES:
        g[name] = getattr(objects, name)
    for name in ('area_triangle', 'volume_tetrahedron', 'area_signed'):
        FUNCTIONS[name] = getattr(measurement, name)
    FUNCTIONS['transform_coordinates'] = transformation.transform_coordinates


if not os.environ.get('MC_LAZY'):  # set only in the processes of mc/zygote.py, which import the library in other ways
    load()
