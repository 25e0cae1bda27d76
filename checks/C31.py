from flow import flow
KW = dict(opq=[r'::addDirichletBoundaryCondition\('], opts=dict(acc=[r'::addDirichletBoundaryCondition\(']))
def run(c):
    flow(c, need=4, **KW)
    return c.finish('addDirichletInfiniteBoundaryConditions (any number of points): one pass keeps the three largest distances from the origin with their nodes, earlier nodes first, and exactly those three nodes get potential zero; computeEpsilon: half the smallest of the three sides over all triangles; getMeshBoundingBox: square of half side 1.1 times the largest distance, about the mean of all points, or of 1.1 radii about the origin when clipped; getMeshScaleOffset: scales and offsets that map the middle of that box to the middle of the window and its larger side to nine tenths of it')
