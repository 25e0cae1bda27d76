from flow import flow
POLY = [r'^nikfemm::Polygon::(~?Polygon|operator=|contains|operator==)\(', r'::pointSegmentDistance\(', r'::absoluteAngle\(', r'::getCurrentEpsilon\(']
# two segments collected at the same corner share it, so the "segment not found" exit is never taken
OPTS = dict(assume=r'^nikfemm::nexit\(', pure=[r'::pointSegmentDistance\(', r'::absoluteAngle\(', r'::getCurrentEpsilon\(', r'Polygon::contains\('],
            objelem={'nikfemm::Polygon': 24}, makes=[(r'^nikfemm::Polygon::Polygon\(', 0, 'obj'), (r'^nikfemm::Polygon::~Polygon\(', None)])
KW = dict(opq=POLY, opts=OPTS, inline=[r'::_M_range_check\('])
def run(c):
    c.assume.append('the segments collected at a corner share it: the exit for segments without a common point is taken never to be reached')
    flow(c, need=1, **KW)
    return c.finish('addRefiningPoints as a whole (any number of points, segments and polygons): which corners are refined, and the list of points afterwards, equal the specification; distance, angle and containment are taken as the functions decided in C11')
