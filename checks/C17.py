from flow import flow
KW = dict(opq=[r'^nikfemm::MagnetostaticProp::getMu'], direct=dict(getmu=r'^nikfemm::MagnetostaticProp::getMu'), opts=dict(pure=[r'::getMu\(', r'^std::set<.*::(lower|upper)_bound']))
def run(c):
    flow(c, need=3, **KW)
    c.assume.append('the BH curve is a std::set ordered by induction; its look-ups are uninterpreted, its iterators move one point at a time')
    return c.finish('MagnetostaticProp::getMu (linear material, curve of one point, before, inside and beyond the curve), isLinear and the relaxation of MagnetostaticSimulation::updateMu are compared with their specification on symbolic inputs.')
