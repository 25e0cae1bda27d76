#include "nv.hpp"
namespace nv {
void impl_magnetic_system(MagnetostaticMesh& m, System<NonLinearExpression>* out) { *out = m.getFemSystem(); }
void spec_magnetic_system(MagnetostaticMesh& m, System<NonLinearExpression>* out) {
    const int n = m.data.numberofpoints, nt = m.data.numberoftriangles;
    System<NonLinearExpression> s(n);
    for (int t = 0; t < nt; ++t) {
        const uint32_t v[3] = {(uint32_t)m.data.trianglelist[t][0], (uint32_t)m.data.trianglelist[t][1], (uint32_t)m.data.trianglelist[t][2]};
        const Vector p0 = m.data.pointlist[v[0]], p1 = m.data.pointlist[v[1]], p2 = m.data.pointlist[v[2]];
        const double d = (p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
        const double gx[3] = {(p1.y - p2.y) / d, (p2.y - p0.y) / d, (p0.y - p1.y) / d}, gy[3] = {(p2.x - p1.x) / d, (p0.x - p2.x) / d, (p1.x - p0.x) / d};
        const double area = std::fabs(d) / 2, J = m.drawing.getRegionPtrFromId(m.data.triangleattributelist[t])->J;
        for (int a = 0; a < 3; ++a) {
            for (int b = 0; b < 3; ++b)
                if (v[b] >= v[a]) s.A(v[a], v[b]) += NonLinearTerm{area * (gx[a] * gx[b] + gy[a] * gy[b]), (uint32_t)t};
            s.b[v[a]] += J * area / 3;
        }
    }
    *out = s;
}
}
