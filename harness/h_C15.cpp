#include "nv.hpp"
namespace nv {
typedef MultiLayerCurrentDensitySimulation ML;
void impl_voltage(ML& s, System<double>& sys, Vector p, double v, uint64_t l) { assume(l < s.meshes.size()); s.setVoltage(sys, p, v, l); }
void spec_voltage(ML& s, System<double>& sys, Vector p, double v, uint64_t l) {
    assume(l < s.meshes.size());
    CurrentDensityMesh& m = s.meshes[l];
    uint64_t before = 0;
    std::vector<uint64_t> off;
    for (auto& k : s.meshes) { off.push_back(before); before += k.data.numberofpoints; }
    int32_t best = -1; double d = INFINITY;
    for (uint32_t i = 0; i < m.data.numberofpoints; i++) {
        const double x = m.data.pointlist[i].x - p.x, y = m.data.pointlist[i].y - p.y;
        if (x * x + y * y < d) { best = i; d = x * x + y * y; }
    }
    if (best == -1) return;
    sys.addDirichletBoundaryCondition(best + off[l], v);
}
void spec_voltage__2(ML& s, System<double>& sys, Vector p, double v, uint64_t l) {
    assume(l < s.meshes.size());
    CurrentDensityMesh& m = s.meshes[l];
    uint64_t before = 0;
    for (uint64_t k = 0; k < l; k++) before += s.meshes[k].data.numberofpoints;
    int32_t best = -1; double d = INFINITY;
    for (uint32_t i = 0; i < m.data.numberofpoints; i++) {
        const double x = m.data.pointlist[i].x - p.x, y = m.data.pointlist[i].y - p.y;
        if (x * x + y * y < d) { best = i; d = x * x + y * y; }
    }
    if (best == -1) return;
    sys.addDirichletBoundaryCondition(best + before, v);
}
// nearest mesh node of a point
static inline uint64_t nearest(const CurrentDensityMesh& m, Vector p) {
    uint64_t best = 0; double d = INFINITY;
    for (uint64_t i = 0; i < m.data.numberofpoints; i++) {
        const double e = (m.data.pointlist[i] - p).norm();
        if (e < d) { best = i; d = e; }
    }
    return best;
}
void impl_generate(ML& s, bool refine, double area, int angle, System<double>* out) { *out = s.generateSystem(refine, area, angle); }
void spec_generate(ML& s, bool refine, double area, int angle, System<double>* out) {
    if (refine) for (auto& m : s.meshes) m.drawing.addRefiningPoints();
    for (auto& c : s.interconnections) { s.meshes[c.layer1_id].drawing.drawPoint(c.p1); s.meshes[c.layer2_id].drawing.drawPoint(c.p2); }
    for (auto& c : s.interconnections) {
        double e1 = std::numeric_limits<double>::max(), e2 = e1;
        auto& d1 = s.meshes[c.layer1_id].drawing; auto& d2 = s.meshes[c.layer2_id].drawing;
        for (size_t k = 0; k < d1.segments.size(); k++) { double d = Segment::pointSegmentDistance(c.p1, d1.points[d1.segments[k].p1], d1.points[d1.segments[k].p2]); if (d < e1) e1 = d; }
        for (size_t k = 0; k < d2.segments.size(); k++) { double d = Segment::pointSegmentDistance(c.p2, d2.points[d2.segments[k].p1], d2.points[d2.segments[k].p2]); if (d < e2) e2 = d; }
        for (int k = 0; k < 10; k++) {
            const double a = 2 * M_PI * k / 10;
            Vector p1(c.p1.x + e1 * std::cos(a) / 2, c.p1.y + e1 * std::sin(a) / 2), p2(c.p2.x + e2 * std::cos(a) / 2, c.p2.y + e2 * std::sin(a) / 2);
            Vector q1(c.p1.x + e1 * std::cos(a) / 4, c.p1.y + e1 * std::sin(a) / 4), q2(c.p2.x + e2 * std::cos(a) / 4, c.p2.y + e2 * std::sin(a) / 4);
            d1.drawPoint(p1); d2.drawPoint(p2); d1.drawPoint(q1); d2.drawPoint(q2);
        }
    }
    for (auto& m : s.meshes) { m.mesh(area, angle); m.computeEpsilon(); }
    std::vector<System<double>> sys;
    for (auto& m : s.meshes) sys.push_back(m.getFemSystem());
    std::vector<uint64_t> off; uint64_t n = 0;
    for (auto& k : sys) { off.push_back(n); n += k.b.size(); }
    System<double> r(n);
    for (size_t l = 0; l < s.meshes.size(); l++) {
        for (auto& e : sys[l].A.elems) r.A((e.first >> 32) + off[l], (e.first & 0xFFFFFFFF) + off[l]) = e.second;
        for (uint64_t j = 0; j < s.meshes[l].data.numberofpoints; j++) r.b[j + off[l]] = sys[l].b[j];
    }
    for (auto& c : s.interconnections) {
        const uint64_t a = nearest(s.meshes[c.layer1_id], c.p1) + off[c.layer1_id], b = nearest(s.meshes[c.layer2_id], c.p2) + off[c.layer2_id];
        if (a == b) continue;
        r.A(a, a) += 1 / c.R; r.A(b, b) += 1 / c.R;
        if (a < b) r.A(a, b) -= 1 / c.R; else r.A(b, a) -= 1 / c.R;
    }
    *out = r;
}
void impl_solve(ML& s, System<double>& sys, std::vector<double>* out) { *out = s.solve(sys); }
void spec_solve(ML& s, System<double>& sys, std::vector<double>* out) {
    std::vector<double> V(sys.b.size());
    MatCSRSymmetric A(sys.A);
    preconditionedSSORConjugateGradientSolver(A, sys.b, V, 1.5, 1e-7, 100000);
    *out = V;
}
}
