from flow import flow
KW = dict(opts=dict(pure=[r'^nikfemm::NonLinearExpression::evaluate']), direct=dict(csr_at=r'^nikfemm::BaseCSR::operator\(\)\(unsigned int, unsigned int\) const$'))
def run(c):
    flow(c, need=7, **KW)
    return c.finish('Value-flow summaries of coordinate-matrix access, of the conversion to compressed form, of element reading, copying and evaluation of permeability matrices, compared with their definitions over abstract maps of unbounded size.')
