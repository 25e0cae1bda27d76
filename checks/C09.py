from flow import flow
MK = [(r'::getInnermostPolygon\(', 0)]
KW = dict(opq=[r'^nikfemm::Polygon::contains\(', r'::getInnermostPolygon\('], opts=dict(pure=[r'^nikfemm::Polygon::contains\('], makes=MK))
IN = dict(opq=[r'^nikfemm::Polygon::(~?Polygon|operator=|contains|operator==)\('], opts=dict(pure=[r'^nikfemm::Polygon::(contains|operator==)\('], objelem={'nikfemm::Polygon': 24}, makes=[(r'^nikfemm::Polygon::(Polygon|operator=)\(', 0, 'obj'), (r'^nikfemm::Polygon::~Polygon\(', None)]))
def run(c):
    flow(c, only='^(area|mass|barycenter|inertia)$', need=4, **KW)
    flow(c, only='^innermost$', **IN)
    c.assume.append('membership of a point in a polygon is the uninterpreted predicate Polygon::contains (its formula is C11)')
    return c.finish('The value returned by every region integral (area, mass, barycenter, moment of inertia) is summarised as a sum over all triangles and compared with the defining sum over the triangles whose three corners lie in the innermost polygon around the query point, in drawing coordinates.')
