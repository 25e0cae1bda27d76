from flow import flow
POLY = [r'^nikfemm::Polygon::(~?Polygon|operator=|translate|contains|operator==)\(', r'Segment::segmentsIntersect\(', r'::pointSegmentDistance\(']
PO = dict(pure=[r'Segment::segmentsIntersect\(', r'::pointSegmentDistance\('], objelem={'nikfemm::Polygon': 24}, makes=[(r'^nikfemm::Polygon::Polygon\(', 0, 'obj'), (r'^nikfemm::Polygon::~Polygon\(', None)])
KW = dict(opq=POLY, opts=PO, inline=[r'::_M_range_check\('])
OUT = dict(opq=POLY + [r'::drawSegment\('], opts=dict(PO, acc=[r'::drawSegment\(']))
ALIAS = dict(opq=[r'::drawSegment\(nikfemm::Vector, nikfemm::Vector\)', r'::drawRectangle\(nikfemm::Vector, nikfemm::Vector\)', r'::drawCircle\(nikfemm::Vector, ', r'::drawPolygon\(nikfemm::Vector\*'], opts=PO)
def run(c):
    flow(c, need=14, only='^(segment|point|region|id|ptr|translate|epsilon)$', **KW)
    flow(c, only='^(rectangle|circle|polygon)$', **OUT)
    flow(c, only='_(obj|wh|vec)$', **ALIAS)

    c.assume.append('segment intersection, point-segment distance, polygon construction and polygon translation are the functions decided by C11; the order in which drawSegment is called for one outline is not compared (the set of calls is)')
    return c.finish('drawSegment (any number of points and segments already there): points within tolerance are reused, coincident end points add nothing, an existing segment is not repeated, a segment that shares an end point or is separated in its bounding box is accepted, a crossing one throws, otherwise exactly one segment with the two point numbers is appended. drawPoint, drawRectangle, drawCircle, drawPolygon (all overloads): closed chain of drawSegment calls and exactly one polygon with the vertices in order. getRegionId / getRegionPtrFromId / drawRegion: one id per distinct material. translate: every point, polygon and region marker.')
