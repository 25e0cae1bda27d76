from flow import flow
def run(c):
    flow(c, need=45)
    c.assume.append('tolerances of the comparisons (1e-100 for zero cross products, DBL_EPSILON for orientation) are part of the definition')
    return c.finish('Value-flow summary of every geometric primitive (vectors, segments, polygons, circles, orientation) compared with the summary of its defining formula; loops over polygon points of unbounded length.')
