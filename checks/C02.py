from flow import flow
from facts import distinct_corners, nondegenerate
KW = dict(ignore=['^family$'], subset=[r'^nle\(vd\(arg.1'], facts=[distinct_corners, nondegenerate], opq=[r'^nikfemm::Polygon::(contains|operator)', r'^nikfemm::Segment::pointSegmentDistance', r'^std::(map|unordered_set|vector<[^<]*(getFemSystem|nv::spec)[^<]*(Magnet|Side|SurfaceCurrentSegment))'])
def run(c):
    flow(c, need=1, **KW)
    c.assume.append('triangles are non-degenerate with three distinct corner indices; the surface-current part (equivalent currents of magnets) is not compared, only shown not to replace the compared contributions')
    return c.finish('Value-flow summary of MagnetostaticMesh::getFemSystem (stiffness terms tagged with their triangle and body currents on the right-hand side) compared with the summary of the textbook assembly.')
