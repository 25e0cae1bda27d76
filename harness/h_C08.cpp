#include "nv.hpp"
namespace nv {
typedef Mesh<CurrentDensityProp> M;
typedef Mesh<MagnetostaticProp> MM;
// plane z = a + gx x + gy y through the three corners
static inline Vector slope(const M& m, std::vector<double>& in, int t) {
    Elem e = m.data.trianglelist[t];
    Vector p[3]; double z[3];
    for (int k = 0; k < 3; k++) { p[k] = m.data.pointlist[e[k]]; z[k] = in[e[k]]; }
    const double d = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[2].x - p[0].x) * (p[1].y - p[0].y);
    const double gx = ((z[1] - z[0]) * (p[2].y - p[0].y) - (z[2] - z[0]) * (p[1].y - p[0].y)) / d;
    const double gy = ((z[2] - z[0]) * (p[1].x - p[0].x) - (z[1] - z[0]) * (p[2].x - p[0].x)) / d;
    return Vector(gx, gy);
}
void impl_grad(const M& m, std::vector<double>& in, std::vector<Vector>* out) { *out = m.computeGrad(in); }
void spec_grad(const M& m, std::vector<double>& in, std::vector<Vector>* out) {
    std::vector<Vector> o(m.data.numberoftriangles);
    for (int t = 0; t < m.data.numberoftriangles; t++) o[t] = slope(m, in, t);
    *out = o;
}
void impl_curl(const M& m, std::vector<double>& in, std::vector<Vector>* out) { *out = m.computeCurl(in); }
void spec_curl(const M& m, std::vector<double>& in, std::vector<Vector>* out) {
    std::vector<Vector> o(m.data.numberoftriangles);
    for (int t = 0; t < m.data.numberoftriangles; t++) { Vector g = slope(m, in, t); o[t] = Vector(g.y, -g.x); }
    *out = o;
}
typedef MultiLayerCurrentDensitySimulation ML;
void impl_power(ML& s, std::vector<double>& V, std::vector<double>* out) { *out = s.computePowerDensity(V); }
void spec_power(ML& s, std::vector<double>& V, std::vector<double>* out) {
    std::vector<uint64_t> no, eo;
    uint64_t n = 0, e = 0;
    for (auto& m : s.meshes) { no.push_back(n); n += m.data.numberofpoints; }
    for (auto& m : s.meshes) { eo.push_back(e); e += m.data.numberoftriangles; }
    std::vector<double> o(e, 0);
    for (uint64_t l = 0; l < s.meshes.size(); l++) {
        M& m = s.meshes[l];
        std::vector<double> v(V.begin() + no[l], V.begin() + no[l] + m.data.numberofpoints);
        std::vector<Vector> g = m.computeGrad(v);
        for (uint64_t t = 0; t < m.data.numberoftriangles; t++) {
            const CurrentDensityProp* q = m.drawing.getRegionPtrFromId(m.data.triangleattributelist[t]);
            o[eo[l] + t] = q->sigma * (g[t].x * g[t].x + g[t].y * g[t].y);
        }
    }
    *out = o;
}
}
