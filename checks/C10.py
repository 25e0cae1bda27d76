from flow import flow
from facts import distinct_corners, nondegenerate
KW = dict(opq=[r'ConjugateGradientSolver\(', r'::MatCSRSymmetric\(', r'MatCSRSymmetric::~', r'::computeGrad\('], facts=[distinct_corners, nondegenerate],
    opts=dict(fills=[(r'ConjugateGradientSolver\(', 2)], makes=[(r'::MatCSRSymmetric\(', 0), (r'MatCSR\w*::~', None), (r'::computeGrad\(', 0, 'vec')]))
AS = dict(opq=[r'::compute(ForceIntegrals|TorqueIntegral)\(.*Assets', r'^nikfemm::Polygon::', r'::getInnermostPolygon\(', r'::getPolygonProp\(', r'MagnetostaticProp::~?MagnetostaticProp\('],
    opts=dict(pure=[r'::computeTorqueIntegral\(.*Assets', r'^nikfemm::Polygon::(contains|operator[!=]=)'], objelem={'nikfemm::Polygon': 24}, makes=[(r'::computeForceIntegrals\(.*Assets', 0), (r'::getInnermostPolygon\(', 0, 'obj'), (r'^nikfemm::Polygon::(Polygon|operator=)\(', 0, 'obj'), (r'^nikfemm::Polygon::~Polygon\(', None), (r'::getPolygonProp\(', 0), (r'MagnetostaticProp::~MagnetostaticProp\(', None)]))
def run(c):
    flow(c, need=5, only='^(force|torque)$', **KW)
    flow(c, only='^(assets|moment|stress)$', **AS)
    c.assume.append('membership of points and polygons in a polygon is decided by C11, the innermost polygon by C09, the gradient of a nodal field by C08, the conversion to CSR by C03 and the linear solve by C06; every triangle has three distinct corners and a non-zero area; the smallest and largest element error are compared as loops over the elements')
    return c.finish('computeForceIntegrals and computeTorqueIntegral (any mesh, field, region data, center): the shell weight system assembled from the error-weighted elements with the Dirichlet values one on the body and zero outside the surrounding region or in holes, then the sum over the elements of the shell of the stress against the gradient of the weight, scaled by 1/mu0 and the depth, are compared with the defining formulas. The overloads without region data, and computeStressIntegral, pass exactly the region data of their specification: innermost surrounding outline, holes, elements around each vertex, error of each element, its extremes, and the four membership flags of each vertex.')
