from flow import flow
from facts import distinct_corners, nondegenerate
KW = dict(facts=[distinct_corners, nondegenerate])
SIM = dict(opq=[r'::addDirichletBoundaryCondition\(', r'::addRefiningPoints\(', r'Mesh<.*>::mesh\(', r'::computeEpsilon\(', r'::getFemSystem\(', r'System<double>::~System\(', r'ConjugateGradientSolver\(', r'::MatCSRSymmetric\(', r'MatCSRSymmetric::~'],
    opts=dict(fills=[(r'ConjugateGradientSolver\(', 2)], makes=[(r'::MatCSRSymmetric\(', 0), (r'MatCSR\w*::~', None), (r'::getFemSystem\(', 0), (r'System<double>::~System\(', None)]))
def run(c):
    flow(c, need=4, only='system', **KW)
    flow(c, only='^(voltage|generate|solve)$', **SIM)
    c.assume.append('triangles are non-degenerate with three distinct corner indices; the mesh arrays have the lengths their counts announce')
    return c.finish('Value-flow summary of CurrentDensityMesh::getFemSystem (triangle loop of unbounded length, coordinate matrix as an abstract map) compared with the summary of the textbook assembly: every (row, column) contribution and every right-hand-side entry, for every corner order. Also: generateSystem draws, meshes and assembles in that order; setVoltage fixes the node nearest to the point; solve solves exactly the given system.')
