from flow import flow
from terms import *
def bsize(ev, base, off):
    """a layer's right-hand side has one entry per mesh node (decided by C01 for getFemSystem)"""
    if base.op == 'fn' and base.args[0] == 'vb' and base.args[1].op == 'fn' and base.args[1].args[0] == 'made' and off == const(64):
        o = base.args[1].args[2]
        return scale(fn('ld', o.args[1], add(o.args[2], const(NPOINTS))), 8)
NPOINTS = 72     # offset of data.numberofpoints in CurrentDensityMesh, checked by the harness
KW = dict(opq=[r'::addDirichletBoundaryCondition\(', r'::drawPoint\(', r'::addRefiningPoints\(', r'::mesh\(', r'::computeEpsilon\(', r'::getFemSystem\(', r'::pointSegmentDistance\(', r'System<double>::~?System\(System', r'System<double>::~System\('],
    opts=dict(pure=[r'::pointSegmentDistance\('], objelem={'nikfemm::System<double>': 88}, acc=[r'::drawPoint\(', r'::addRefiningPoints\(', r'Mesh<.*>::mesh\(', r'::computeEpsilon\('],
        makes=[(r'CurrentDensityMesh::getFemSystem\(', 0, 'obj'), (r'System<double>::~System\(', None)], ldfacts=[bsize]))
SOLVE = dict(opq=[r'ConjugateGradientSolver\(', r'::MatCSRSymmetric\(', r'MatCSRSymmetric::~'], opts=dict(fills=[(r'ConjugateGradientSolver\(', 2)], makes=[(r'::MatCSRSymmetric\(', 0), (r'MatCSR\w*::~', None)]))
def run(c):
    flow(c, need=3, only='^(generate|voltage)$', **KW)
    flow(c, only='^solve$', **SOLVE)
    c.assume.append('drawing points, meshing and tolerance computation are requests to the layer; nothing generateSystem reads afterwards but the meshed data depends on their order (the set of requests is compared)')
    c.assume.append('the system of a layer has one equation per mesh node (C01)')
    return c.finish('MultiLayerCurrentDensitySimulation::generateSystem is compared as a whole with its specification: the points requested in every layer, the block offset of every layer, the merged matrix and right-hand side and the stamp of every interconnection (1/R between the nearest nodes of its two points), for any number of layers, nodes, matrix entries and interconnections; setVoltage with the nearest node of the given layer plus the offset of the layer; solve with the preconditioned solver applied to exactly the given system.')
