"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

Not needed by any check: the two generated files are committed.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = 'src/skspatial/objects/'
INP = 'inputs'
HIST = 'histories'
PROG = 'programs'
SCH = 'schedules'
CONF = 'configurations'
FLT = 'fault_sequences'
CRASH = 'crash_points'

TESTS = 'The suite checks hand-picked parametrised examples (a few per method)'

P = []


def prop(id_, title, statement, over, quant, why, files, mech, technique, note, level='model_checking'):
    assert len(title) <= 80, title
    P.append(dict(id=id_, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level))


BOUNDED = 'Exhaustive over the stated alphabets and bounds; values outside them are not covered. '

prop('C01', 'Points, vectors and point sets are exactly the finite array they were given',
     'Constructing a point, vector or set of points succeeds exactly when the input is a non-empty, all-finite numeric array of the '
     'right rank (one for points and vectors, two for point sets), and otherwise raises ValueError. '
     'The constructed object has the same values in the same order and shape, and its dimension is its number of coordinates (the row width for point sets).',
     [INP, CONF],
     'all input shapes of rank 0 to 4 with sides 0 to 4, every position of a NaN or infinite entry, all input representations, and widths/lengths up to large sizes',
     TESTS + '; a validation or dimension bug for an untested shape, position of the bad entry, or container type stays invisible.',
     [O + '_base_array.py', O + 'point.py', O + 'vector.py', O + 'points.py'],
     [('rank, emptiness and finiteness validation', O + '_base_array.py:_BaseArray.__new__'),
      ('dimension property', O + '_base_array.py:_BaseArray1D.dimension')],
     'bounded exhaustive enumeration of input shapes/contents against an executable reference model',
     BOUNDED + 'Trusts the reference model and Python/NumPy array conversion.')

prop('C02', 'Composite objects exist only in a valid state and hold exactly their inputs',
     'A line, segment, plane, circle, sphere, triangle or cylinder can be constructed (directly or through any of its alternative constructors) exactly when its defining data is '
     'valid: consistent and permitted dimensions, non-zero directions and normals, distinct endpoints, positive radii, non-collinear vertices; otherwise ValueError is raised. '
     'A constructed object reports exactly the given points, vectors, radius and dimension, and alternative constructors give the object that passes through (or is spanned by) their inputs.',
     [INP],
     'all tuples of small lattice points/vectors in dimensions 1 to 6, including zero, repeated, parallel, collinear and mixed-dimension inputs, at several scales, and all constructors',
     TESTS + '; validity must hold for every combination of dimensions and degenerate configurations.',
     [O + x for x in ('_base_line_plane.py', '_base_sphere.py', 'line.py', 'line_segment.py', 'plane.py', 'circle.py', 'sphere.py', 'triangle.py', 'cylinder.py')],
     [('constructor validation', O + '_base_line_plane.py:_BaseLinePlane.__init__'), ('radius validation', O + '_base_sphere.py:_BaseSphere.__init__'),
      ('collinearity test', O + 'triangle.py:Triangle.__init__')],
     'bounded exhaustive enumeration of constructor inputs against an exact-arithmetic reference model',
     BOUNDED + 'Inputs whose validity depends on rounding are counted as ambiguous and not judged.')

prop('C03', 'Computations never modify their receiver, their arguments or global state',
     'Calling any geometric operation leaves every object, array and list involved exactly as it was (values, type, shape and data type), also when the call raises, '
     'and works on read-only arrays. It also leaves the NumPy error state, warning filters, print options, random state and every other setting of the process untouched, whatever their values are.',
     [PROG, INP],
     'every public operation, on every argument of its small-argument catalogue in every array representation, and sequences of operations on shared objects',
     TESTS + ' and never compare the inputs before and after; an in-place update that depends on the data type (float but not integer input) passes them all.',
     ['src/skspatial/objects', 'src/skspatial/measurement.py', 'src/skspatial/transformation.py'],
     [('all methods build new arrays', O + 'points.py:Points.mean_center'), ('out-of-place rounding', O + '_base_array.py:_BaseArray.round')],
     'exhaustive exploration of operation x representation x argument programs with state comparison on every transition',
     BOUNDED + 'Snapshots compare bytes, type, dtype, shape of every reachable array and attribute.')

prop('C04', 'Results depend only on current coordinates, never on the call history',
     'Every operation returns the same result whatever operations were called before on the same or other objects, however often it was called, and whether an equal or different object lived at the same place before. '
     'After the coordinates, radius or array contents of an object are changed by its owner, all results reflect the new values.',
     [HIST, PROG],
     'all ordered pairs of operations on shared objects, mutate-and-repeat histories for every operation and every attribute, object replacement histories, and long runs of distinct calls followed by a re-check',
     TESTS + ' each on a fresh object, so no test has a history; stale caches, memoisation by identity or shared scratch state cannot show.',
     ['src/skspatial'],
     [('no state besides the defining attributes', O + '_base_line_plane.py:_BaseLinePlane.__init__'), ('dimension derived on demand', O + '_base_array.py')],
     'explicit-state exploration of operation histories (all pairs, mutation histories) against a stateless reference model',
     BOUNDED + 'Histories of length 2-3 over the whole operation catalogue, longer ones for repetition only.')

prop('C05', 'Concurrent calls give the same results as sequential calls',
     'When several threads call operations at the same time, on shared or separate objects that nobody modifies, every call returns exactly what it returns when executed alone, and neither an object nor a global setting is changed.',
     [SCH],
     'all interleavings with at most one preemption at every bytecode, and with two preemptions at every line, of pairs of operations taken from the whole catalogue',
     'No test uses threads, and a free-running stress test samples a vanishing fraction of the interleavings.',
     ['src/skspatial'],
     [('no module-level mutable state', 'src/skspatial/_functions.py'), ('no temporary mutation of self', O)],
     'preemption-bounded exhaustive exploration of real-thread interleavings under a controlled scheduler',
     'Every schedule with <=1 preemption at bytecode granularity (2 at line granularity for thorough) inside the package; code inside NumPy/SciPy C functions is atomic for the scheduler.')

prop('C06', 'An interrupted or failed call leaves everything usable and unchanged',
     'If a call is interrupted at any point by an asynchronous exception, or fails because memory or stack space ran out, the exception reaches the caller, no object has changed, '
     'and every later call returns exactly what it returns without the failure.',
     [FLT, CRASH],
     'an exception injected at every line and bytecode executed inside the package, for every operation of the catalogue, and stack exhaustion at every depth',
     'No test injects a fault; the number of interruption points is far beyond examples.',
     ['src/skspatial'],
     [('no temporary mutation; narrow except clauses', O + '_base_array.py:_BaseArray.__array_wrap__'), ('error translation', O + 'cylinder.py')],
     'exhaustive fault injection at every executed bytecode, followed by state and result comparison',
     'Every injection point inside the package for each catalogue entry; faults inside NumPy/SciPy C code are not injected.',
     level='fault_enumeration')

prop('C07', 'Results do not depend on how the input is represented or on NumPy settings',
     'For every operation, passing the same numbers as lists, tuples, integers, floats, contiguous, strided, transposed, byte-swapped or read-only arrays, or as points and vectors gives the same result up to rounding. '
     'The results do not depend on the NumPy error state or on warnings being turned into errors, and valid calls emit no warning.',
     [INP, CONF],
     'every catalogue operation and argument set, in every representation (lists, tuples, arrays of every integer and float width and memory layout; mixed per argument), at several scales including integers whose products exceed their type, under each NumPy error state',
     TESTS + ' almost always with lists of small integers; layout- or dtype-dependent code paths are not entered.',
     ['src/skspatial'],
     [('conversion through np.array / np.asarray', O + '_base_array.py:_BaseArray.__new__'), ('np.subtract on array-likes', O + 'vector.py:Vector.from_points')],
     'exhaustive enumeration of representation x configuration x operation with differential and reference-model oracle',
     BOUNDED + 'Extended precision (unsupported by numpy.linalg) and values whose squares underflow are excluded; one wrap-around of 64-bit integers in Vector.cross is a recorded finding.')

prop('C08', 'Arrays derived from points and vectors keep their type, values and dimension',
     'Slicing, arithmetic, copying, pickling, rounding, padding to a higher dimension and conversion to a plain array give the values NumPy gives; '
     'results that are a point, vector or point set of valid shape keep that type and report the dimension that matches their own shape. Copied, padded and converted arrays are independent of the original. Printing shows the class and the coordinates, and composite objects survive copying and pickling unchanged.',
     [PROG],
     'all sequences of up to three derivations (from about 40) over small arrays of every shape in the alphabet, for the three array types, and round trips of all composite objects',
     TESTS + ', mostly a single derivation; combinations such as slice-then-pickle-then-add are not reached.',
     [O + '_base_array.py'],
     [('view casting and re-wrapping', O + '_base_array.py:_BaseArray.__array_wrap__'), ('dimension from shape', O + '_base_array.py'), ('padding', O + '_base_array.py:_BaseArray1D.set_dimension')],
     'breadth-first exploration of derivation sequences against plain NumPy arrays as reference model',
     BOUNDED + 'Depth 2 in quick, 3 in thorough.')

prop('C09', 'Equality and closeness are decided by the coordinates and the given tolerances',
     'Exact equality of points, vectors and point sets holds exactly when shapes and all coordinates agree; closeness holds exactly when every coordinate pair is within the given relative or absolute tolerance. '
     'Lines and planes are close exactly when they are the same set of points up to the tolerance, whatever point and direction or normal represent them; comparing different kinds of object raises TypeError.',
     [INP],
     'all pairs of small arrays differing in any single coordinate by amounts around the tolerance, all reparametrisations of lattice lines and planes, and all tolerance settings of the alphabet',
     TESTS + '; symmetric, reparametrised and near-tolerance pairs are only sampled.',
     [O + '_base_array.py', O + '_base_line_plane.py', 'src/skspatial/_functions.py'],
     [('elementwise isclose', 'src/skspatial/_functions.py:_allclose'), ('contains point and parallel', O + '_base_line_plane.py:_BaseLinePlane.is_close')],
     'bounded exhaustive enumeration of pairs and tolerances against an exact reference model', BOUNDED + 'Pairs whose difference is within rounding of the tolerance are ambiguous.')

prop('C10', 'Vector measurements equal their mathematical definitions in every dimension',
     'Vector differences, norms, unit vectors, dot and cross products, scalar projections, cosine similarities and angles (unsigned, signed in the plane, and signed about an axis in space) equal their definitions for all vectors where they are defined. '
     'Where they are undefined (zero vectors, wrong dimensions, axis not perpendicular to both vectors) ValueError is raised, and cosine and angle results always stay in their mathematical range.',
     [INP],
     'all pairs of small lattice vectors in dimensions 1 to 6 (triples for the axis angle), scaled by powers of two down to 2^-60 and up to 2^60, long vectors, decimal coordinates and near-parallel pairs',
     TESTS + '; wrong branches for a quadrant, dimension or magnitude survive.',
     [O + 'vector.py'], [('definitions', O + 'vector.py:Vector.cosine_similarity'), ('clipping', O + 'vector.py:Vector.cosine_similarity')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C11', 'Vector predicates and orientation tests are exact on exactly representable input',
     'Zero, parallel and perpendicular tests answer exactly as defined by the vectors and the given tolerances, are symmetric, and do not depend on the lengths of non-zero vectors beyond the tolerance rules; the zero vector is parallel to every vector. '
     'The side test of plane vectors is the orientation sign (reversed by swapping), and the vector returned as a different direction is never parallel to the original.',
     [INP],
     'all pairs of lattice vectors in dimensions 1 to 6 with several tolerance settings, near-parallel and near-perpendicular pairs on both sides of the tolerance, and several scales',
     TESTS + '; tolerance handling and orientation in all quadrants are only sampled.',
     [O + 'vector.py'], [('isclose on dot products and cosines', O + 'vector.py:Vector.is_parallel'), ('cross product sign', O + 'vector.py:Vector.side_vector')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED + 'Pairs within rounding of the tolerance are ambiguous.')

prop('C12', 'Point-set statistics equal their definitions for every number of points',
     'The centroid is the mean of the rows, centering subtracts it from every row, normalising divides by the largest distance to the origin, and removing duplicates keeps each distinct point exactly once, '
     'for every number of points and every dimension; inputs for which they are undefined raise ValueError.',
     [INP],
     'all multisets of up to four small lattice points in dimensions 1 to 3, all sizes from 1 to 130 and around 256, 512, 1024 in dimensions 1 to 6, square inputs, duplicates, large offsets and scales',
     TESTS + ' with at most a handful of points; size-dependent or square-shape bugs do not show.',
     [O + 'points.py'], [('mean over axis 0', O + 'points.py:Points.centroid'), ('unique rows', O + 'points.py:Points.unique')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C13', 'Concurrency, collinearity and coplanarity are decided by the affine rank',
     'The affine rank of a point set equals the dimension of the smallest flat containing it, and the set is reported concurrent, collinear or coplanar exactly when that rank is at most zero, one or two; a given tolerance is applied to the singular values of the centred distinct points. '
     'The answers do not depend on the order or repetition of points, nor on an exact translation or scaling.',
     [INP],
     'all multisets of up to four lattice points in dimensions 1 to 3 and structured sets in dimensions 4 to 6, all orderings and duplications, scales 2^-40 to 2^40, translations, larger N with one off-flat point in every position, and tolerance settings',
     TESTS + '; a rank decision that depends on order, position of the outlier, duplicates or scale is not tested.',
     [O + 'points.py', O + 'line.py'], [('matrix rank of the centred unique points', O + 'points.py:Points.affine_rank')],
     'bounded exhaustive enumeration against exact rational rank computation', BOUNDED + 'Only exactly representable configurations are judged without tolerance.')

prop('C14', 'Projections are the nearest point of the target object',
     'Projecting a point onto a line, plane, circle or sphere gives the point of that object nearest to it, and projecting a vector onto a vector, line or plane gives its orthogonal component there. '
     'Projections are idempotent, the residual is orthogonal, the result does not depend on the length or sign of the direction or normal, and projecting the centre of a circle or sphere raises ValueError.',
     [INP],
     'all lattice lines/planes/points in dimensions 1 to 3 with direction entries up to 3, structured cases in dimensions 4 to 6, several scales, offsets and radii',
     TESTS + '; the minimality over the whole object is a universal statement tests do not express.',
     [O + 'line.py', O + 'plane.py', O + '_base_sphere.py', O + 'vector.py'],
     [('vector projection', O + 'vector.py:Vector.project_vector'), ('radial projection', O + '_base_sphere.py:_BaseSphere.project_point')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C15', 'Distances are the true minimum distances, and batch results match single ones',
     'The distance from a point to a point, line, plane, circle or sphere, the signed distance to a plane, and the distance between two lines equal the exact minimum distance (signed along the normal). '
     'Operations on many points give, row by row, the results of the single-point operation for every number of points, and the sum of squares is the sum of the squared single distances.',
     [INP],
     'all lattice pairs of lines (parallel, identical, crossing, skew) and of objects with points, batches of 1 to 130 points and around 256, 512 and 1024, square batches, several scales and offsets',
     TESTS + '; batch sizes, skew/parallel branches and orientation combinations are sampled only.',
     [O + 'line.py', O + 'plane.py', O + 'point.py', O + '_base_sphere.py', 'src/skspatial/_functions.py'],
     [('line-line case distinction', O + 'line.py:Line.distance_line'), ('vectorised projection', O + 'line.py:Line.project_points'), ('sum of squares', 'src/skspatial/_functions.py:_sum_squares')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C16', 'Side and containment answers agree with the geometry',
     'A point is reported on a line, plane, segment, circle or sphere exactly when it lies on it within the given tolerance, and within a cylinder exactly when it is between the end caps and not farther from the axis than the radius. '
     'The side of a point with respect to a line in the plane or to a plane is the sign of its exact position (zero on the object), independent of the length of the direction or normal.',
     [INP],
     'all lattice points against lattice objects (inside, on the boundary, outside, beyond each endpoint or cap), dimensions 1 to 5, with several absolute tolerances on both sides of the actual distance, and several scales',
     TESTS + '; boundary and beyond-the-end cases in all orientations are not covered.',
     [O + '_base_line_plane.py', O + 'line_segment.py', O + '_base_sphere.py', O + 'cylinder.py', O + 'plane.py', 'src/skspatial/_functions.py'],
     [('distance close to zero', 'src/skspatial/_functions.py:_contains_point'), ('opposite directions to the endpoints', O + 'line_segment.py:LineSegment.contains_point'),
      ('cap planes', O + 'cylinder.py:_between_cap_planes')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED + 'Boundary cases decided only by rounding are ambiguous.')

prop('C17', 'Lines and segments intersect exactly where they geometrically meet',
     'Two lines in up to three dimensions intersect in exactly their common point when they are coplanar and not parallel, and raise ValueError otherwise; coplanarity of lines is answered accordingly, and without the coplanarity requirement the point of the first line nearest to the second is returned. '
     'Two segments intersect exactly when their lines meet in a point belonging to both segments, endpoints included.',
     [INP],
     'all pairs of lattice lines and of lattice segments in 2D and a dense family in 3D (crossing, skew, parallel, identical, touching at endpoints, T-junctions, just missing), in both orders, at several scales and offsets',
     TESTS + '; endpoint, T-junction and orientation cases are far more than the listed examples.',
     [O + 'line.py', O + 'line_segment.py'], [('parallel/coplanar checks', O + 'line.py:Line.intersect_line'), ('endpoint check', O + 'line_segment.py:LineSegment.intersect_line_segment')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C18', 'Plane intersections and projected lines are the exact common or shadow sets',
     'A plane and a non-parallel line intersect in their unique common point, two non-parallel planes in the line of all their common points, and parallel pairs raise ValueError. '
     'Projecting a line onto a plane gives the set of the projections of its points, and raises ValueError exactly when the line is perpendicular to the plane.',
     [INP],
     'all lattice plane/line and plane/plane pairs with normal and direction entries up to 2 or 3, all coincident and parallel positions, several scales, offsets and tolerances',
     TESTS + '; the normal/direction combinations that select each branch are sampled only.',
     [O + 'plane.py'], [('linear system', O + 'plane.py:Plane.intersect_plane'), ('parametric solution', O + 'plane.py:Plane.intersect_line')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C19', 'Circle and sphere intersections are exactly the common points',
     'Intersecting a circle with a circle or a line, or a sphere with a line, returns exactly their common points (twice the same point when tangent), independent of the order of the objects and the length or sign of the direction. '
     'ValueError is raised exactly when there is no common point or the centres coincide.',
     [INP],
     'all lattice centre/radius/line combinations of the alphabet including every exactly tangent one (integer and Pythagorean), separate, contained and concentric circles, several scales and offsets',
     TESTS + '; tangency and containment in all orientations are decided by rounding-sensitive comparisons.',
     [O + 'circle.py', O + 'sphere.py'], [('discriminants', O + 'circle.py:Circle.intersect_line'), ('case distinction', O + 'circle.py:Circle.intersect_circle')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED + 'Tangency that is not exactly representable is ambiguous.')

prop('C20', 'Lines meet a cylinder exactly in their entry and exit points',
     'Intersecting a line with an infinite cylinder returns the two points at the radius from the axis, and with a finite cylinder the two points where the line enters and leaves the closed solid, through the side or through the caps. '
     'ValueError is raised exactly when the line misses it, is parallel to the axis of an infinite cylinder, or is not three-dimensional.',
     [INP],
     'all lattice cylinders (axis entries up to 2, lengths and radii of the alphabet) against all lattice lines through a box around them, both modes, with coefficient rounding digits 0 to 12, several scales and offsets',
     TESTS + '; the case distinction side/side, side/cap, cap/cap, miss in all orientations is sampled only.',
     [O + 'cylinder.py', 'src/skspatial/_functions.py'], [('quadratic', O + 'cylinder.py:_intersect_line_with_infinite_cylinder'), ('caps', O + 'cylinder.py:_intersect_line_with_finite_cylinder'),
      ('rounding of coefficients', 'src/skspatial/_functions.py:_solve_quadratic')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED + 'Touching at a rim, tangency, and lines inside a cap plane are ambiguous.')

prop('C21', 'Fitted lines and planes minimise the sum of squared distances',
     'The line or plane of best fit passes through the centroid and no other line or plane has a smaller sum of squared distances to the points; the returned error is that minimum and recomputing the sum of squares of the fitted object gives the same value. '
     'ValueError is raised exactly for degenerate input (concurrent points for lines; collinear or non-3D points for planes).',
     [INP],
     'all multisets of up to five small lattice points, structured sets of 3 to 130 points and around 256, 512 and 1024, N equal to the dimension, dimensions 1 to 6 for lines, tolerances, SVD options, several scales and offsets',
     TESTS + '; minimality is a universal statement over all lines/planes.',
     [O + 'line.py', O + 'plane.py'], [('singular value decomposition of the centred points', O + 'plane.py:Plane.best_fit')],
     'bounded exhaustive enumeration against an eigenvalue reference on the exact scatter matrix', BOUNDED)

prop('C22', 'Circles and spheres fitted to points are the algebraic least-squares solution',
     'The circle through three non-collinear points contains all three. The circle or sphere of best fit is the algebraic least-squares solution, so points lying exactly on a circle or sphere recover it; '
     'inputs that do not determine it (too few, collinear or coplanar points, wrong dimension) raise ValueError.',
     [INP],
     'all lattice triples for circles, all multisets of 1 to 5 lattice points for fits, Pythagorean exactly-cocircular/cospherical sets of up to 1025 points, flat arcs and caps, scales from 2^-60 to 2^60 and far centres',
     TESTS + '; recovery must hold for every subset and orientation.',
     [O + 'circle.py', O + 'sphere.py'], [('least squares', O + 'circle.py:Circle.best_fit'), ('determinants', O + 'circle.py:Circle.from_points')],
     'bounded exhaustive enumeration against an exact rational least-squares solution', BOUNDED)

prop('C23', 'Fitting a cylinder to points on its surface recovers the cylinder',
     'When the input points lie on the surface of an elongated cylinder, spread around its axis and including both of its rims, the fitted cylinder has the same axis, radius and length and ends at the same caps, '
     'independent of the distribution of the points along the axis. Fewer than six, coplanar or non-3D points raise ValueError.',
     [INP],
     'all axis directions from a lattice, radii, lengths, offsets, ring counts and uneven ring positions of the alphabet, and all small degenerate inputs',
     TESTS + '; only a few directions and evenly spread points are tested.',
     [O + 'cylinder.py'], [('numerical minimisation over directions', O + 'cylinder.py:Cylinder.best_fit')],
     'bounded exhaustive enumeration of exact cylinders with recovery oracle', BOUNDED + 'Recovery tolerance 1e-3 relative because the fit is a numerical minimisation.')

prop('C24', 'Every triangle quantity agrees with its vertices, in every labelling',
     'Side lengths, side lines, angles, area, perimeter, normal, centroid, altitudes and orthocentre equal their definitions from the vertices, for every assignment of labels; angles add to half a turn and each altitude is perpendicular to the opposite side and meets it. '
     'Classification as equilateral, isosceles or scalene and as right-angled follows from the exact side lengths and the given tolerance; unknown labels raise ValueError.',
     [INP],
     'all lattice triangles in 2D and 3D of the alphabet (and structured ones in dimensions 4 to 6 where defined), all label permutations, several scales, offsets and tolerances',
     TESTS + '; label-specific and shape-specific mistakes survive.',
     [O + 'triangle.py'], [('label dispatch', O + 'triangle.py:Triangle.line'), ('law of cosines', O + 'triangle.py:Triangle.angle')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C25', 'Areas, volumes, lengths and circumferences equal the exact measures',
     'The areas and volumes of triangles, tetrahedra, polygons, circles, spheres and cylinders, circumferences and lengths equal their exact values; the signed polygon area is positive for counter-clockwise order, negated by reversal, and unchanged by starting at another vertex. '
     'Degenerate figures have measure zero, and inputs without a measure (wrong dimension or too few points) raise ValueError.',
     [INP],
     'all lattice triples and quadruples in dimensions 1 to 3, all polygons of 3 to 5 lattice vertices plus regular structures up to 130 vertices and around 256/512/1024, all radii of the alphabet, scales and offsets',
     TESTS + '; orientation, vertex-count and dimension combinations are sampled.',
     ['src/skspatial/measurement.py', O + 'circle.py', O + 'sphere.py', O + 'cylinder.py', O + 'triangle.py'],
     [('cross products', 'src/skspatial/measurement.py:area_triangle'), ('shoelace', 'src/skspatial/measurement.py:area_signed')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C26', 'Coordinate transforms and parametrisations are exact and consistent',
     'Transforming points to a new origin and basis gives the dot products of their offsets with each basis vector, in row and basis order; the coordinate of a point along a line and the point of a line at a parameter are inverse to each other for points of the line. '
     'The Cartesian coefficients of a plane describe exactly its points, and a line built from slope and intercept contains exactly the points satisfying that equation.',
     [INP],
     'all combinations of 1 to 4 lattice points, origins and 1 to 4 basis vectors in dimensions 1 to 3 (square and non-square), larger batches, all lattice lines with parameters of the alphabet, scales and offsets',
     TESTS + '; row/basis transpositions for square inputs and non-unit directions are barely tested.',
     ['src/skspatial/transformation.py', O + 'line.py', O + 'plane.py'],
     [('matrix product', 'src/skspatial/transformation.py:transform_coordinates'), ('parametrisation', O + 'line.py:Line.to_point'), ('coefficients', O + 'plane.py:Plane.cartesian')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C27', 'Meshes and sampled points lie on the object and cover it as requested',
     'Every mesh vertex of a plane, sphere or cylinder, and every point sampled from it, lies on the surface of the object; the mesh has the requested resolution and spans the requested limits, the full sphere, or the full lateral surface between both rims. '
     'The sampled points are the mesh vertices in mesh order.',
     [INP],
     'all lattice plane normals, cylinder axes, centres and radii of the alphabet, all resolutions 2 to 12 and larger ones, all limit pairs of the alphabet, scales and offsets',
     TESTS + ' with two or three resolutions; axis-orientation dependent branches are sampled.',
     [O + 'plane.py', O + 'sphere.py', O + 'cylinder.py', O + '_mixins.py', 'src/skspatial/_functions.py'],
     [('explicit plane equation per vertical case', O + 'plane.py:Plane.to_mesh'), ('perpendicular frame', O + 'cylinder.py:Cylinder.to_mesh')],
     'bounded exhaustive enumeration against an exact-arithmetic reference model', BOUNDED)

prop('C28', 'Plotting draws exactly the object and changes nothing else',
     'Plotting an object on 2D or 3D axes adds exactly the artists that represent its coordinates (markers at the points, segments from the first to the second endpoint, circles and surfaces of the right position and size), forwards the keywords, and modifies neither the object nor other artists, other axes or figures, nor the settings of Matplotlib. '
     'The plotting function of an object draws in the dimension of the object, and raises ValueError when the object has no drawing in that dimension.',
     [INP, PROG],
     'every plottable class in 2D and 3D over the lattice alphabet and all its plotting options, and all sequences of two plotters on one figure',
     TESTS + ' only that plotting does not crash; drawn coordinates are never inspected.',
     ['src/skspatial/plotting.py', O + '_base_spatial.py', O + 'vector.py', O + 'line.py', O + 'triangle.py', O + 'circle.py'],
     [('scatter and connect helpers', 'src/skspatial/plotting.py'), ('plotter', O + '_base_spatial.py:_PlotterMixin.plotter')],
     'bounded exhaustive enumeration of plotting programs with artist inspection', BOUNDED + 'Matplotlib with the Agg backend is trusted to store the data it is given.')

prop('C29', 'Results move with the coordinate system',
     'Applying an exact rigid motion, reflection, axis permutation or power-of-two scaling to all inputs applies the same change to every resulting point, line and vector, multiplies lengths, areas and volumes by the matching power of the scale, and leaves angles and yes/no answers unchanged '
     '(orientation-dependent results change sign under reflections).',
     [INP, PROG],
     'every catalogue operation, on every argument set of its alphabet, under every group element reachable by words of generators up to a bounded length (axis permutations, sign flips, 3-4-5 rotations, translations, scalings), and under scalings by 2^-60 to 2^60',
     'No test relates the results of two calls on transformed input; special-casing of an axis or quadrant passes the examples.',
     ['src/skspatial'], [('coordinate-free formulas', O)],
     'breadth-first exploration of transformation-group words with a metamorphic (equivariance) oracle', BOUNDED)

prop('C30', 'Chained computations stay correct at every step',
     'When results of operations are used as inputs of further operations, every intermediate result is correct for the values it was computed from: sequences of constructions, projections, intersections, fits and measurements never drift from the exact geometry by more than rounding at any step.',
     [PROG, HIST],
     'all well-typed operation sequences up to a bounded depth from twelve initial sets of objects (lattice, thirds, tiny, huge, far from the origin, integers), breadth-first with merging of equal states',
     'Tests never chain more than two operations; states such as computed (non-lattice, view-backed) objects are only reachable by chaining.',
     ['src/skspatial'], [('results are ordinary spatial objects', O)],
     'explicit-state breadth-first search over the real operations, every transition judged by the reference model', BOUNDED + 'Depth 3 in quick, 4 in thorough.')

prop('C31', 'The library works whatever its import order, interpreter flags or optional parts',
     'Every module of the package can be imported first and in any order, in any thread, and gives the same classes and the same results. Matplotlib is optional: without it everything but plotting works, and plotting raises an '
     'ImportError that names Matplotlib. Results and errors do not depend on interpreter flags (such as -O, which removes assert statements), hash seeds or environment variables, and pickled objects can be loaded in a '
     'process that has not imported the library yet.',
     [CONF, PROG],
     'all ordered pairs of modules of the package as first imports (triples in thorough), with and without Matplotlib, eight interpreter flags, seven environments, six pickle protocols, and the alphabets of other properties under python -OO',
     'The suite runs in one process with one import order, without optimisation, and with Matplotlib installed; circular imports, validation by assert statements and hard dependencies on Matplotlib stay invisible.',
     ['src/skspatial'],
     [('lazy imports of plotting', O + 'point.py:Point.plot_2d'), ('informative error', 'src/skspatial/plotting.py'), ('imports between modules', O + '__init__.py'), ('validation by exceptions', O)],
     'exhaustive enumeration of import sequences and interpreter configurations in pristine processes, each followed by all catalogue calls compared with the reference process',
     'Flags and environments are those listed; Python 3.12 and the installed NumPy/SciPy/Matplotlib only.')

prop('C32', 'Operands of different dimensions are rejected, never broadcast or truncated',
     'An operation on operands whose dimensions do not fit together, or for which it is not defined, raises ValueError, and one on operands that fit gives the result for their common dimension, in any dimension the operation '
     'is defined for. Operands are never broadcast, truncated or padded to make them fit, except where documented: 2D vectors have a zero third coordinate in cross products and in the planes and triangles built with them, '
     'set_dimension pads with zeros, objects of different shapes compare as unequal, and the closeness of arrays of different shapes follows the broadcasting of NumPy.',
     [INP, CONF],
     'all combinations of the dimensions 1 to 5 (thorough: 7) of the operands of every operation, padded with zeros or not, and every call of the catalogue with one array or one operand of another dimension in four representations',
     'The suite tests mismatched dimensions for a few methods with one pair of dimensions; NumPy broadcasts single coordinates and the remaining methods would silently combine coordinates that do not belong together.',
     ['src/skspatial'],
     [('dimension checks of constructors', O + '_base_line_plane.py:_BaseLinePlane.__init__'), ('checks of operands', O + 'cylinder.py:Cylinder.intersect_line'), ('shape of array operands', O + '_base_array.py'), ('documented padding', O + 'vector.py:Vector.cross')],
     'bounded exhaustive enumeration of operations x dimensions of their operands against an executable reference model',
     BOUNDED + 'The reference model decides which dimensions fit from the documentation of each operation.')


def write_properties():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            rec = {
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }
            f.write(json.dumps(rec) + '\n')


def write_manifest(done):
    m = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [],
        'not_applicable': [],
        'notes': 'No hooks in /repo are needed: all instrumentation uses sys.settrace and monkeypatching from outside. '
                 'Known findings and repaired defects: known_findings.txt.',
    }
    for p in P:
        if p['id'] in done:
            m['checks'].append({
                'property': p['id'],
                'quick_cmd': f"bash check.sh {p['id']} quick",
                'thorough_cmd': f"bash check.sh {p['id']} thorough",
                'technique': 'model checking: ' + p['technique'],
                'level': p['level'],
                'level_note': p['note'].strip(),
            })
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'The check for this property is not finished yet; no result is claimed.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import re
    mods = os.listdir(os.path.join(HERE, 'mc', 'checks')) if os.path.isdir(os.path.join(HERE, 'mc', 'checks')) else []
    done = {m.group(1).upper() for f in mods for m in [re.match(r'(c\d+)\.py$', f)] if m}
    write_properties()
    write_manifest(done)
    print(sorted(done))
