from flow import flow
PURE = [r'::getMu\(', r'::isLinear\(', r'^nikfemm::NonLinearExpression::evaluate', r'::getRegionPtrFromId\(', r'^nikfemm::norm\(']
KW = dict(inline=[r'^nikfemm::NonLinearExpression::'], opts=dict())
EV = dict(opq=[r'^nikfemm::NonLinearExpression::evaluate'], opts=dict(pure=PURE))
SV = dict(opq=[r'^nikfemm::NonLinearExpression::evaluate', r'::getMu\(', r'::isLinear\(', r'::getRegionPtrFromId\(', r'^nikfemm::norm\(', r'^nikfemm::(mult|sub)\(', r'ConjugateGradientSolver\(', r'::computeCurl\(', r'::updateMu\(', r'::NonLinearMatCSRSymmetric\(', r'NonLinearMatCSRSymmetric::evaluate', r'MatCSR\w*::~'],
          opts=dict(pure=PURE, fills=[(r'ConjugateGradientSolver\(', 2), (r'^nikfemm::(mult|sub)\(', 0), (r'::updateMu\(', 2)],
                    makes=[(r'::computeCurl\(', 0, 'vec'), (r'::NonLinearMatCSRSymmetric\(', 0), (r'NonLinearMatCSRSymmetric::evaluate', 0), (r'MatCSR\w*::~', None)]))
def run(c):
    flow(c, only='^(set|add|sub|times|islinear|evaluate)', need=11, **KW)
    flow(c, only='^matevaluate$', **EV)
    flow(c, only='^solve$', **SV)
    c.assume.append('solver, curl, permeability update, matrix evaluation and products are functions of their arguments (decided by C06, C08, C17, C04)')
    return c.finish('Operators and evaluation of permeability expressions, evaluation of a whole permeability matrix, and the complete state of the nonlinear solver loop (solution, permeabilities, matrix, right-hand side, residual, stopping rule) are compared with their specification.')
