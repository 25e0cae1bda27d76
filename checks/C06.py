from flow import flow
from facts import csr_ordered
MV = r'^nikfemm::mult\(std::vector<double, std::allocator<double> ?>&, nikfemm::MatCSR'
KW = dict(direct=dict(precond=r'^nikfemm::multSSORPreconditioner'), opts=dict(ordered=csr_ordered, makes=[(r'MatCSR\w*::MatCSR\w*\(', 0), (r'MatCSR\w*::~', None)], fills=[(MV, 0), (r'^nikfemm::multSSOR', 1)]), opq=[r'MatCSR\w*::~?MatCSR\w*\(', r'^nikfemm::mult\(std::vector<double.*MatCSR', r'^nikfemm::multSSOR', r'^nikfemm::incompleteCholesky'])
def run(c):
    flow(c, need=5, **KW)
    c.assume.append('matrix, right-hand side and guess have the same dimension; mat-vec products fill their result from their operands (C04); the incomplete Cholesky factor is an uninterpreted function of the matrix')
    return c.finish('Value-flow summaries of the four conjugate-gradient solvers (iteration loop with carried vectors, early exits, opaque mat-vec and preconditioner calls) and of the in-place SSOR preconditioner compared with the textbook recurrences.')
