from flow import flow
KW = dict(opq=[])
PW = dict(opq=[r'::computeGrad\(', r'::getRegionPtrFromId\('], opts=dict(makes=[(r'::computeGrad\(', 0, 'vec')], pure=[r'::getRegionPtrFromId\(']))
def run(c):
    flow(c, need=2, only='^(grad|curl)$', **KW)
    flow(c, only='^power$', **PW)
    c.assume.append('the triangle of every gradient is not degenerate (its doubled area is the divisor on both sides)')
    return c.finish('Mesh::computeGrad and Mesh::computeCurl are compared, for a symbolic mesh and nodal vector, with the slope of the plane through the three corner values of every triangle; computePowerDensity with sigma*|grad V|^2 on the slice of nodes and triangles of every layer.')
