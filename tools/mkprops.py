#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
S = 'lib/nikfemm/src/'
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=[f if f.startswith('python/') else S + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'The conduction system is the exact linear finite-element system',
 'For every mesh, the system assembled for a current-density layer has, for each pair of nodes, exactly the sum over the triangles that contain both of depth * conductivity * area * grad(phi_a).grad(phi_b), whatever the order in which a triangle lists its corners, stored once at (smaller node, larger node), and a zero right-hand side. A node that belongs to no triangle is refused with an exception rather than silently given an empty row. generateSystem draws, meshes and assembles in that order, setVoltage fixes the node nearest to the given point, and solve solves exactly the given system.',
 ['inputs'], 'every mesh (node numbering, triangle orientation, vertex degree), every assignment of conductivities to triangles and every layer depth',
 'No unit test meshes anything or inspects an assembled coefficient; the example only has to exit with status 0.',
 ['current_density/mesh.cpp', 'mesh/mesh.hpp', 'geometry/vector.hpp'],
 [('CurrentDensityMesh::getFemSystem', S+'current_density/mesh.cpp'), ('MeshData::getDoubleOrientedArea', S+'mesh/mesh.hpp')],
 ['System::A', 'System::b'])

prop('C02', 'The magnetostatic system is the exact linear finite-element system',
 'For every mesh, the coefficient between two nodes is the formal sum, over the triangles containing both, of area * grad(phi_a).grad(phi_b) divided by the permeability of that very triangle, independent of the corner order, stored at (smaller node, larger node); each triangle adds a third of area * J of its material to the right-hand side of each of its corners, and nothing else is added by a drawing without surface currents or magnets.',
 ['inputs'], 'every mesh, corner order, material assignment and current density',
 'No unit test assembles a magnetostatic system.',
 ['magnetostatic/mesh.cpp', 'mesh/mesh.hpp'],
 [('MagnetostaticMesh::getFemSystem', S+'magnetostatic/mesh.cpp')], ['System::A', 'System::b'])

prop('C03', 'Coordinate storage and its compressed form hold the same symmetric matrix',
 'Converting any symmetric coordinate matrix (of numbers or of permeability expressions) to compressed form keeps every stored entry at its (row, column), with rows ascending and columns ascending inside a row, the diagonal separate, and reading element (i,j) or (j,i) of the result gives the entry stored at (min,max), or zero when none is stored. Access to a coordinate entry with row > column is refused with an exception, and access to a missing entry creates it as zero.',
 ['inputs'], 'every dimension, sparsity pattern and insertion order',
 'The unit tests convert one dense 3x3 matrix in one insertion order.',
 ['algebra/coo.hpp', 'algebra/csr.cpp', 'algebra/non_linear.cpp'],
 [('MatCOOSymmetric::operator()', S+'algebra/coo.hpp'), ('BaseCSR::BaseCSR(MatCOOSymmetric&)', S+'algebra/csr.cpp'), ('NonLinearMatCSRSymmetric::NonLinearMatCSRSymmetric', S+'algebra/non_linear.cpp')])

prop('C04', 'Sparse matrix-vector products use every stored entry on the right side',
 'For any compressed matrix and vector, the symmetric product is diag*x plus every off-diagonal entry applied both to (row, column) and to (column, row), the lower-triangular product applies it only to (column, row) and the upper-triangular product only to (row, column); previous contents of the result vector never leak into the product.',
 ['inputs'], 'every size, sparsity pattern, numeric content and previous content of the result vector',
 'One dense 3x3 symmetric product is tested; the triangular products are never tested.',
 ['algebra/math.cpp'], [('mult(result, MatCSR*, vector)', S+'algebra/math.cpp')])

prop('C05', 'Element-wise vector kernels touch every element and are alias-safe',
 'Each element-wise kernel (add, subtract, multiply, divide, copy, scaled add, with vector or scalar operand) sets every element of the result to exactly that operation on the same-index operands and changes nothing else, also when the result is one of the operands; dot product, square sum, norm, element-wise norm and the NaN tests consult every element.',
 ['inputs'], 'every vector length, content and aliasing of result with an operand',
 'The unit tests use length-3 vectors with distinct result and operands.',
 ['algebra/math.cpp'], [('add/sub/mult/div/copy/addScaled/dot/squareSum/norm/isnan', S+'algebra/math.cpp')])

prop('C06', 'Conjugate-gradient solvers run the right recurrence and stop on the true rule',
 'Every conjugate-gradient solver starts from the caller\'s guess with residual b-Ax, updates solution and residual with the same step length and direction, recomputes the preconditioned residual with the matrix of that call, builds the next direction from the Fletcher-Reeves ratio of new to old products, and stops early only when the squared norm of the updated residual is below the square of the requested error; it never performs more than the requested number of iterations and never modifies the matrix or the right-hand side.',
 ['inputs', 'histories'], 'every symmetric system, starting vector, tolerance, relaxation factor and iteration limit',
 'One 3x3 system is solved by one of the four solvers; a wrong recurrence still converges there.',
 ['algebra/solvers.cpp'], [('conjugateGradientSolver', S+'algebra/solvers.cpp'), ('preconditionedJacobiConjugateGradientSolver', S+'algebra/solvers.cpp'), ('preconditionedSSORConjugateGradientSolver', S+'algebra/solvers.cpp'), ('preconditionedIncompleteCholeskyConjugateGradientSolver', S+'algebra/solvers.cpp'), ('multSSORPreconditioner', S+'algebra/solvers.cpp')])

prop('C07', 'Fixing a node value eliminates its row and column symmetrically',
 'Imposing value v on node k moves every off-diagonal coefficient a of row or column k to the right-hand side of the other node (subtracting a*v), zeroes it, sets the diagonal to one and the right-hand side of k to v, and changes no other coefficient; this holds for numeric and for permeability-dependent systems, wherever k lies in the stored triangle.',
 ['inputs', 'histories'], 'every system, node id, value and sequence of imposed nodes',
 'One tiny system is tested; column-side entries of the half-stored matrix and repeated impositions are not.',
 ['algebra/system.hpp', 'algebra/non_linear.hpp'], [('System::addDirichletBoundaryCondition', S+'algebra/system.hpp')])

prop('C08', 'Gradient, curl and power density are the exact per-triangle values',
 'For any nodal field, the gradient reported for a triangle is that of the plane through its three corner values, whatever the corner order, the curl is that gradient rotated to (dA/dy, -dA/dx), and the dissipated power density of triangle j of layer l is conductivity of its own material times squared field, computed from that layer\'s own nodes and reported at that layer\'s triangle offset.',
 ['inputs'], 'every mesh, nodal field, layer count and material assignment',
 'No test evaluates a field.',
 ['mesh/mesh.hpp', 'current_density/multilayer_simulation.cpp'],
 [('Mesh::computeGrad', S+'mesh/mesh.hpp'), ('Mesh::computeCurl', S+'mesh/mesh.hpp'), ('MultiLayerCurrentDensitySimulation::computePowerDensity', S+'current_density/multilayer_simulation.cpp')])

prop('C09', 'Region integrals cover exactly the triangles of the region, rightly weighted',
 'Area, mass, barycenter and moment of inertia of the region at a point sum over exactly the triangles whose three corners lie in the innermost polygon containing that point, weighting each by its unsigned area (and its centroid, or squared distance of its centroid from the given center), and mass and inertia scale with density and depth. The innermost polygon is looked up in the drawing\'s own (shifted) coordinates, and a point in no polygon is refused with an exception.',
 ['inputs'], 'every drawing, mesh, query point, density, depth and center',
 'No test computes a region integral.',
 ['mesh/mesh.hpp'], [('Mesh::computeAreaIntegral', S+'mesh/mesh.hpp'), ('Mesh::computeMass', S+'mesh/mesh.hpp'), ('Mesh::computeBarycenter', S+'mesh/mesh.hpp'), ('Mesh::computeInertiaMoment', S+'mesh/mesh.hpp'), ('Mesh::getInnermostPolygon', S+'mesh/mesh.hpp')])

prop('C10', 'Force and torque integrate the same weighted Maxwell stress on the same shell',
 'Force and torque are the sums, over the triangles with no corner strictly inside the body, none outside the surrounding region and none inside a hole, of area times the stress contracted with the gradient of the shell weight ((|B|^2/2) grad g - B (B.grad g), and its moment about the given center), scaled by 1/mu0 and by the depth; the weight g is one on the body, zero outside the surrounding region, and solves the same error-weighted system in both.',
 ['inputs'], 'every mesh, field, body location and center',
 'No test computes a force or torque.',
 ['magnetostatic/simulation.cpp'], [('MagnetostaticSimulation::computeForceIntegrals', S+'magnetostatic/simulation.cpp'), ('MagnetostaticSimulation::computeTorqueIntegral', S+'magnetostatic/simulation.cpp'), ('MagnetostaticSimulation::computeStressIntegral', S+'magnetostatic/simulation.cpp')])

prop('C11', 'Geometric primitives compute their defining formula',
 'For all finite inputs, vector algebra, distances, areas, rotations, interpolation, angles, point-segment distance, point-in-polygon by crossing number with boundary points inside, segment intersection, circles through two or three points and the enclosing circle of a drawing return what their Euclidean definition says; in particular the enclosing circle contains every point it was given.',
 ['inputs'], 'all finite coordinates, including degenerate and axis-aligned configurations',
 'No unit test exercises the geometry code.',
 ['geometry/vector.hpp', 'geometry/segment.cpp', 'geometry/polygon.cpp', 'geometry/circle.cpp', 'geometry/circle.hpp', 'geometry/common.hpp'],
 [('Vector', S+'geometry/vector.hpp'), ('Segment::pointSegmentDistance', S+'geometry/segment.cpp'), ('Segment::segmentsIntersect', S+'geometry/segment.cpp'), ('Polygon::contains', S+'geometry/polygon.cpp'), ('Circle::getEnclosingCircle', S+'geometry/circle.cpp')])

prop('C12', 'Drawings record closed outlines, shared points, unique ids and refuse crossings',
 'Every rectangle, circle or polygon is recorded as a closed chain of segments through its vertices in order plus one polygon with the same vertices; points already present (within the comparison tolerance) are reused, a segment already present is not added again, coincident end points add nothing, and a segment that crosses an existing one without sharing an end point is refused with an exception whatever their relative extents. Equal materials get the same region id, different materials different ids, and translating a drawing moves every point, polygon vertex and region marker by the same vector.',
 ['inputs', 'histories'], 'every sequence of drawing calls',
 'The unit tests never draw; the example draws one fixed scene.',
 ['drawing/drawing.hpp', 'geometry/polygon.cpp'],
 [('Drawing::drawSegment', S+'drawing/drawing.hpp'), ('Drawing::drawRectangle', S+'drawing/drawing.hpp'), ('Drawing::drawCircle', S+'drawing/drawing.hpp'), ('Drawing::drawPolygon', S+'drawing/drawing.hpp'), ('Drawing::getRegionId', S+'drawing/drawing.hpp'), ('Drawing::translate', S+'drawing/drawing.hpp')])

prop('C13', 'The mesher receives the complete drawing in the layout it expects',
 'Meshing hands the triangulator every drawn point, segment and region marker, in order, in buffers large enough for the counts it announces, with no uninitialised input field, with the requested minimum angle and maximum area for every representable value of them, and the mesh structure the result is written through agrees field by field in type, offset and order with the triangulator\'s own.',
 ['inputs', 'configurations'], 'every drawing and every pair of quality parameters',
 'The example meshes one drawing with one pair of parameters.',
 ['mesh/mesh.hpp', 'triangle/triangle.h'], [('Mesh::mesh', S+'mesh/mesh.hpp'), ('MeshData', S+'mesh/mesh.hpp'), ('triangulateio', S+'triangle/triangle.h')])

prop('C14', 'Every mesh buffer is released exactly once',
 'Over any history of constructing, meshing, re-meshing, copying and destroying meshes and simulations, every buffer obtained for the triangulator or returned by it is released exactly once by the matching allocator: no leak on the normal path, no double release, no release of foreign or already released memory.',
 ['histories'], 'every sequence of construct, mesh, mesh again, extend, copy, destroy',
 'Tests run without a leak or address checker and mesh at most once per object.',
 ['mesh/mesh.hpp'], [('Mesh::~Mesh', S+'mesh/mesh.hpp'), ('Mesh::mesh', S+'mesh/mesh.hpp'), ('Mesh::addKelvinBoundaryConditions', S+'mesh/mesh.hpp')])

prop('C15', 'Layers couple block-wise and interconnections are stamped at the right nodes',
 'The multi-layer system is the block-diagonal union of the layer systems, each shifted by the number of nodes of all previous layers; every interconnection adds one resistor stamp of the same conductance (symmetric: +g on both diagonals, -g once in the stored triangle, accumulated when several connect the same pair) between the nodes nearest to its two points, each searched in its own layer (an interconnection of resistance R has g = 1/R, and one whose two ends fall on the same node changes nothing); voltages are imposed on the nearest node of the addressed layer at that layer\'s offset.',
 ['inputs', 'configurations'], 'every number of layers, interconnection set, and resistor value',
 'The only multi-layer program in the repository is an example that is not run by the stable tests.',
 ['current_density/multilayer_simulation.cpp', 'current_density/simulation.cpp'], [('MultiLayerCurrentDensitySimulation::generateSystem', S+'current_density/multilayer_simulation.cpp'), ('MultiLayerCurrentDensitySimulation::setVoltage', S+'current_density/multilayer_simulation.cpp'), ('CurrentDensitySimulation::setVoltage', S+'current_density/simulation.cpp')])

prop('C16', 'The exterior domain is glued to the interior without loss or duplication',
 'Adding the infinite-domain extension maps every interior exterior-mesh node by inversion in the boundary circle (capped near the origin), identifies its boundary nodes with the coincident boundary nodes of the interior mesh, appends each remaining node and every exterior triangle exactly once with all three corners renumbered through that identification, grows the buffers to the new counts, and gives the new triangles the default material.',
 ['inputs'], 'every interior mesh and boundary resolution',
 'No unit test builds an exterior domain.',
 ['mesh/mesh.hpp'], [('Mesh::addKelvinBoundaryConditions', S+'mesh/mesh.hpp'), ('Mesh::kelvinTransformCentered', S+'mesh/mesh.hpp')])

prop('C17', 'Permeability follows the material curve for every induction value',
 'A material without curve always returns its constant permeability; with a curve the permeability is the slope of the curve segment that governs the given induction (first segment below the curve, last segment from the last point on), for every induction value including the last interval and both ends, never reading outside the curve, and a one-point curve is refused with an exception.',
 ['inputs'], 'every curve with any number of points and every induction value',
 'No test uses a non-linear material.',
 ['magnetostatic/properties.cpp', 'magnetostatic/properties.hpp'], [('MagnetostaticProp::getMu', S+'magnetostatic/properties.cpp')])

prop('C18', 'Permeability expressions obey linear algebra and use current values',
 'An expression evaluates to its constant plus the sum of coefficient over the permeability of the named triangle; assignment, addition, subtraction and scaling act on both the constant and every term; and each non-linear solver pass updates every triangle\'s permeability from its own induction and then re-evaluates all matrix entries and all right-hand sides from the updated permeabilities before the residual that decides convergence is computed.',
 ['inputs', 'histories'], 'every expression, operator sequence, permeability vector and non-linear iteration history',
 'No test evaluates an expression or runs the non-linear solver.',
 ['algebra/non_linear.hpp', 'algebra/non_linear.cpp', 'magnetostatic/simulation.cpp'], [('NonLinearExpression', S+'algebra/non_linear.hpp'), ('NonLinearMatCSRSymmetric::evaluate', S+'algebra/non_linear.cpp'), ('MagnetostaticSimulation::solve', S+'magnetostatic/simulation.cpp'), ('MagnetostaticSimulation::updateMu', S+'magnetostatic/simulation.cpp')])

prop('C19', 'Queries and plots never change the model',
 'Solving, evaluating fields, integrating, plotting, printing and writing to file change neither the drawing, nor the mesh, nor the assembled system, nor the caller\'s field vectors; the only state they change is their declared result.',
 ['histories', 'inputs'], 'every sequence of solve, evaluate, integrate and plot calls',
 'No test compares the model before and after a query.',
 ['mesh/mesh.hpp', 'drawing/drawing.hpp', 'magnetostatic/simulation.cpp', 'current_density/simulation.cpp', 'current_density/multilayer_simulation.cpp', 'algebra/csr.cpp', 'algebra/math.cpp', 'algebra/solvers.cpp'], [('Mesh::compute*', S+'mesh/mesh.hpp'), ('*Plot*', S+'mesh/mesh.hpp'), ('*Simulation::solve / compute*', S+'magnetostatic/simulation.cpp')])

prop('C20', 'Python calls validate arguments before using them',
 'For every argument tuple, each method of the Python module either raises a Python exception or uses each argument only after its kind, its length and (for a layer number) its range were established: no method indexes a list or a layer beyond its length, uses a missing system object, or converts an object of unchecked type.',
 ['inputs', 'histories'], 'every argument tuple and object state reachable from Python',
 'The Python script is one happy-path run and fails at this commit.',
 ['python/nikfemm.cpp'], [('nikfemm_MultiLayerCurrentDensitySimulation_*', 'python/nikfemm.cpp')])

prop('C21', 'Python results carry the right layer, coordinates, indices and values',
 'The lists returned to Python are fully populated: each voltage record carries its layer number, the coordinates of its own node and that node\'s voltage, each triangle record its layer and its three global node indices (layer offset added to each), each power record its layer and that triangle\'s power density, in layer-major order; each setter passes the caller\'s numbers to the matching parameter.',
 ['inputs'], 'every number of layers, mesh and solution',
 'No stable test loads the Python module.',
 ['python/nikfemm.cpp'], [('solve, generate_system, set_voltage, add_interconnection, draw_*', 'python/nikfemm.cpp')])

prop('C22', 'The Python binding keeps the interpreter\'s contract',
 'No C++ exception leaves a function called by the interpreter; every NULL or error return is accompanied by a pending Python exception and every normal return by none; each function releases every object reference it owns exactly once on every path, and never releases a borrowed one.',
 ['inputs', 'fault_sequences'], 'every call, including those whose C++ work throws or whose allocation fails',
 'The module is never called by a stable test, and leaks are invisible to a test of results.',
 ['python/nikfemm.cpp'], [('all PyCFunction entry points', 'python/nikfemm.cpp')])

prop('C23', 'The library never ends the process and keeps no hidden mutable state',
 'No library call, whatever its input, terminates or aborts the process: failures surface as C++ exceptions. Results depend only on the object and the arguments: outside the vendored triangulator no function keeps mutable static or global state or consults time, randomness or addresses to compute a result.',
 ['inputs', 'schedules', 'histories'], 'every call, call order and concurrent use of distinct objects',
 'Tests observe single-threaded, fixed call orders and never reach the failure branches.',
 ['utils/utils.cpp', 'triangle/triangle.cpp', 'mesh/mesh.hpp', 'magnetostatic/simulation.cpp'], [('nexit, nassert, triexit', S+'utils/utils.cpp')])

prop('C24', 'Equality, inequality and hashing of values agree and cover every field',
 'Equality of every value type compares all of its fields (symmetrically, and for segments regardless of direction), inequality is its exact negation, two values with the same fields hash equally, and every ordering used as a container key is a strict weak order on the field it claims to order by.',
 ['inputs'], 'every pair of values',
 'No test compares materials, segments, polygons or curve points.',
 ['geometry/vector.hpp', 'geometry/segment.cpp', 'geometry/polygon.cpp', 'geometry/circle.cpp', 'drawing/drawing.hpp', 'current_density/properties.cpp', 'magnetostatic/properties.cpp', 'magnetostatic/properties.hpp'], [('operator== / operator!= / std::hash / std::less', S+'magnetostatic/properties.cpp')])

prop('C25', 'No container is modified while it is being traversed',
 'No library function uses an iterator, reference or pointer into a container after an operation that may invalidate it: in particular no loop over a container inserts into, erases from or reassigns that container and then continues the traversal, and no past-the-end iterator is dereferenced. A call that is given the object itself as its argument (a += a) has the effect of one given an equal copy, and no function returns or keeps a reference to something that ends before it.',
 ['inputs'], 'every drawing, mesh and curve',
 'Invalidated iterators usually still read the old memory, so tests pass.',
 ['magnetostatic/simulation.cpp', 'magnetostatic/properties.cpp', 'mesh/mesh.hpp', 'drawing/drawing.hpp', 'geometry/circle.cpp'], [('range-for traversals and explicit iterator loops', S+'magnetostatic/simulation.cpp')])

prop('C26', 'Every loop of the library is bounded',
 'Outside the vendored triangulator, every loop advances towards a bound that the loop does not move, or has an explicit iteration limit, and every recursion strictly decreases an argument: no input makes a call run forever.',
 ['inputs'], 'every input, including singular systems and degenerate drawings',
 'A test can only show that the inputs it tries finish.',
 ['algebra/solvers.cpp', 'magnetostatic/simulation.cpp', 'mesh/mesh.hpp', 'drawing/drawing.hpp', 'geometry/circle.cpp', 'algebra/math.cpp', 'algebra/csr.cpp'], [('all loops', S+'algebra/solvers.cpp')])

prop('C27', 'Diagnostic output matches its format',
 'Every diagnostic call passes, for each conversion in its format string, exactly one argument of a type with the width and kind that the conversion reads; no diagnostic call passes an object by value through the variable argument list.',
 ['inputs'], 'every diagnostic call site on every path',
 'Most sites are never executed by a test, and a mismatch prints garbage rather than failing.',
 ['utils/utils.cpp', 'mesh/mesh.hpp', 'magnetostatic/simulation.cpp', 'current_density/multilayer_simulation.cpp', 'algebra/solvers.cpp'], [('nloginfo, nlogwarn, nlogerror, printf call sites', S+'utils/utils.cpp')])

prop('C28', 'Per-node and per-triangle arrays are sized and indexed by their own kind',
 'An array with one entry per node is only indexed by node numbers and an array with one entry per triangle only by triangle numbers, each allocated with the matching count, so that no access leaves its array whatever the ratio of nodes to triangles; lists of the triangles around a node never exceed their capacity however many triangles meet there.',
 ['inputs'], 'every mesh, including nodes of arbitrarily high degree',
 'Mixed-up indices read valid memory on small meshes; the meshes of the examples have low vertex degree.',
 ['mesh/mesh.hpp', 'current_density/mesh.cpp', 'magnetostatic/mesh.cpp', 'magnetostatic/simulation.cpp', 'current_density/multilayer_simulation.cpp'], [('adjelems_ids and all per-node/per-triangle vectors', S+'magnetostatic/simulation.cpp')])

prop('C29', 'The computed solution approximates the physical field',
 'For any well-posed problem the returned potentials converge to the exact solution of the boundary-value problem as the mesh is refined, and forces, torques and powers converge with them.',
 ['inputs'], 'every well-posed problem and refinement sequence', 'Tests compare nothing with a physical reference.',
 ['magnetostatic/simulation.cpp', 'current_density/simulation.cpp'], [('solve', S+'magnetostatic/simulation.cpp')])
prop('C30', 'The triangulation is a conforming mesh of the requested quality',
 'For every valid drawing the mesher terminates with a conforming triangulation in which every drawn segment is a union of edges, no triangle exceeds the area limit and no angle is below the requested minimum except where the drawing forces it.',
 ['inputs'], 'every valid drawing', 'The example meshes one drawing and checks nothing.',
 ['triangle/triangle.cpp'], [('triangulate', S+'triangle/triangle.cpp')])

prop('C31', 'The exterior reference and the mesh-wide measures come from the right nodes and sides',
 'For every mesh, the infinite boundary is held at zero potential at the three mesh nodes farthest from the origin; the length tolerance used for point-in-region decisions is half the shortest triangle side of the whole mesh; and the viewing box is centred on the mean of all nodes (on the origin, with the boundary radius, when clipped) with a half side of 1.1 times the farthest node\'s distance, mapped with its middle to the middle of the image and its larger side to nine tenths of it.',
 ['inputs'], 'every mesh with any number of nodes and triangles, in any order',
 'No test looks at the anchored nodes, the tolerance or the plot scaling; wrong choices show only for particular node orders.',
 ['magnetostatic/mesh.cpp', 'mesh/mesh.hpp'], [('MagnetostaticMesh::addDirichletInfiniteBoundaryConditions', S+'magnetostatic/mesh.cpp'), ('Mesh::computeEpsilon', S+'mesh/mesh.hpp'), ('Mesh::getMeshBoundingBox', S+'mesh/mesh.hpp'), ('Mesh::getMeshScaleOffset', S+'mesh/mesh.hpp')])
prop('C32', 'Sharp corners are refined inside the bodies, away from the walls',
 'For every drawing and mesh size, before meshing each original point at which two drawn segments meet at less than 120 degrees gets the 18 points on a circle around it, 20 degrees apart and of a hundredth of the drawing epsilon in radius, exactly those that lie inside at least one drawn polygon and at least half a radius away from every segment ending in that corner; corners that are nowhere sharper, points without segments and the added points themselves get none, and no segment or region is added.',
 ['inputs'], 'every drawing, with any number of points, segments and polygons, the segments of a corner in any order and orientation',
 'No test looks at the refinement points: a wrong corner, angle or containment choice shows only as a slightly different mesh.',
 ['drawing/drawing.hpp'], [('Drawing::addRefiningPoints', S+'drawing/drawing.hpp')])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
