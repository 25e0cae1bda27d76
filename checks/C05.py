from flow import flow
def run(c):
    flow(c, need=39)
    c.assume.append('operand vectors have the length of the result (the documented precondition)')
    return c.finish('Value-flow summary of every element-wise kernel and reduction in algebra/math.cpp, for distinct and for aliased result/operand vectors of unbounded length, compared with the summary of its one-line definition.')
