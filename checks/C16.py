from flow import flow
KW = dict(opq=[r'^std::set<nikfemm::BH_Point.*>::(set|~set|operator=)\(', r'::drawCircle\(', r'::drawRegion\(', r'::getRegionId\(', r'Mesh<.*>::mesh\(', r'::kelvinTransformCentered\(', r'^std::(unordered_)?map<unsigned int, unsigned int.*>::(operator\[\]|count|contains|at|find|(unordered_)?map|~(unordered_)?map)\('], opts=dict(lookup=[r'::getRegionId\(']))
TR = dict()
GEN = dict(opq=[r'^std::set<nikfemm::BH_Point.*>::(set|~set|operator=)\(', r'::drawCircle\(', r'::drawRegion\(', r'::translate\(', r'::getEnclosingCircle\(', r'::refineMeshAroundMagnets\(', r'::addRefiningPoints\(', r'Mesh<.*>::mesh\(', r'::addKelvinBoundaryConditions\(', r'::computeEpsilon\(', r'::getFemSystem\(', r'::addDirichletInfiniteBoundaryConditions\(', r'System<.*>::~System\(', r'MagnetostaticProp::~?MagnetostaticProp\('],
    opts=dict(makes=[(r'::getFemSystem\(', 0), (r'System<.*>::~System\(', None), (r'MagnetostaticProp::~MagnetostaticProp\(', None)]))
def run(c):
    flow(c, need=3, only='transform', **TR)
    flow(c, only='kelvin', **KW)
    flow(c, only='^generate$', **GEN)
    c.assume.append('drawing, meshing and assembly entry points are opaque steps here (what they do is decided by C02, C12, C13); an allocation request that fails is not modelled')
    return c.finish('kelvinTransformCentered: every interior vertex goes to R^2/|x|^2 x (clamped near the centre), boundary vertices stay. addKelvinBoundaryConditions: the exterior disc is meshed with the same circle and no extra boundary vertices, its boundary vertices are identified with the equal boundary vertices of the mesh, the others are appended, every exterior triangle is appended with renumbered corners and the region of the default material, and the three arrays are enlarged to the new counts. MagnetostaticSimulation::generateSystem: boundary circle, translation, drawing, meshing, exterior, assembly and boundary condition in that order with those arguments.')
