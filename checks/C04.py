from flow import flow
from facts import csr_ordered
KW = dict(opts=dict(ordered=csr_ordered))
def run(c):
    flow(c, need=3, **KW)
    c.assume.append('a compressed matrix stores strictly upper entries only (column > row): established by C03')
    c.assume.append('result, operand and matrix have the same dimension and result does not alias the operand (documented precondition)')
    return c.finish('Value-flow summary of the three sparse matrix-vector products, for matrices of unbounded size and arbitrary sparsity, compared with the element-wise definition (diagonal, stored entries, mirrored entries).')
