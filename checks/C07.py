from flow import flow
KW = dict()
def run(c):
    flow(c, need=1, **KW)
    c.assume.append('entries are keyed row<<32|column (established by C03)')
    return c.finish('Value-flow summary of System::addDirichletBoundaryCondition over an abstract coordinate matrix of unbounded size compared with symmetric elimination of the row and the column.')
