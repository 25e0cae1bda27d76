#include "nv.hpp"
namespace nv {
void impl_conduction_system(CurrentDensityMesh& m, System<double>* out) { *out = m.getFemSystem(); }
void spec_conduction_system(CurrentDensityMesh& m, System<double>* out) {
    const int n = m.data.numberofpoints, nt = m.data.numberoftriangles;
    System<double> s(n);
    std::vector<uint32_t> cnt(n, 0);
    for (int t = 0; t < nt; ++t) for (int a = 0; a < 3; ++a) cnt[m.data.trianglelist[t][a]]++;
    for (int i = 0; i < n; ++i) if (cnt[i] == 0) nexit("");
    for (int t = 0; t < nt; ++t) {
        const uint32_t v[3] = {(uint32_t)m.data.trianglelist[t][0], (uint32_t)m.data.trianglelist[t][1], (uint32_t)m.data.trianglelist[t][2]};
        const Vector p0 = m.data.pointlist[v[0]], p1 = m.data.pointlist[v[1]], p2 = m.data.pointlist[v[2]];
        const double d = (p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
        const double gx[3] = {(p1.y - p2.y) / d, (p2.y - p0.y) / d, (p0.y - p1.y) / d}, gy[3] = {(p2.x - p1.x) / d, (p0.x - p2.x) / d, (p1.x - p0.x) / d};
        const double area = std::fabs(d) / 2, sigma = m.drawing.getRegionPtrFromId(m.data.triangleattributelist[t])->sigma;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b)
            if (v[b] >= v[a]) s.A(v[a], v[b]) += m.depth * sigma * area * (gx[a] * gx[b] + gy[a] * gy[b]);
    }
    *out = s;
}
typedef CurrentDensitySimulation CS;
void impl_voltage(CS& s, System<double>& sys, Vector p, double v) { s.setVoltage(sys, p, v); }
void spec_voltage(CS& s, System<double>& sys, Vector p, double v) {
    int32_t best = -1; double d = INFINITY;
    for (uint32_t i = 0; i < s.mesh.data.numberofpoints; i++) {
        const double x = s.mesh.data.pointlist[i].x - p.x, y = s.mesh.data.pointlist[i].y - p.y;
        if (x * x + y * y < d) { best = i; d = x * x + y * y; }
    }
    if (best != -1) sys.addDirichletBoundaryCondition(best, v);
}
void impl_generate(CS& s, bool refine, double area, int angle, System<double>* out) { *out = s.generateSystem(refine, area, angle); }
void spec_generate(CS& s, bool refine, double area, int angle, System<double>* out) {
    if (refine) s.mesh.drawing.addRefiningPoints();
    s.mesh.mesh(area, angle);
    s.mesh.computeEpsilon();
    *out = s.mesh.getFemSystem();
}
void impl_solve(CS& s, System<double>& sys, std::vector<double>* out) { *out = s.solve(sys); }
void spec_solve(CS& s, System<double>& sys, std::vector<double>* out) {
    std::vector<double> V(s.mesh.data.numberofpoints);
    MatCSRSymmetric A(sys.A);
    preconditionedSSORConjugateGradientSolver(A, sys.b, V, 1.5, 1e-12, 100000);
    *out = V;
}
}
