#include "nv.hpp"
namespace nv {
typedef Mesh<MagnetostaticProp> M;
struct Tri { bool in; double area; Vector g; };
static inline Tri tri(M& m, const Polygon& r, int t) {
    const Vector a = m.data.pointlist[m.data.trianglelist[t][0]], b = m.data.pointlist[m.data.trianglelist[t][1]], c = m.data.pointlist[m.data.trianglelist[t][2]];
    return Tri{r.contains(a) && r.contains(b) && r.contains(c), std::fabs(((b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y)) / 2), Vector((a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3)};
}
double impl_area(M& m, Vector p) { return m.computeAreaIntegral(p); }
double spec_area(M& m, Vector p) {
    Polygon r = m.getInnermostPolygon(p);
    double s = 0;
    for (int t = 0; t < m.data.numberoftriangles; t++) { Tri x = tri(m, r, t); if (x.in) s += x.area; }
    return s;
}
double impl_mass(M& m, Vector p, double rho) { return m.computeMass(p, rho); }
double spec_mass(M& m, Vector p, double rho) {
    Polygon r = m.getInnermostPolygon(p);
    double s = 0;
    for (int t = 0; t < m.data.numberoftriangles; t++) { Tri x = tri(m, r, t); if (x.in) s += x.area; }
    return s * m.depth * rho;
}
Vector impl_barycenter(M& m, Vector p) { return m.computeBarycenter(p); }
Vector spec_barycenter(M& m, Vector p) {
    Polygon r = m.getInnermostPolygon(p);
    double s = 0, x = 0, y = 0;
    for (int t = 0; t < m.data.numberoftriangles; t++) { Tri k = tri(m, r, t); if (k.in) { s += k.area; x += k.area * k.g.x; y += k.area * k.g.y; } }
    return Vector(x / s + m.center.x, y / s + m.center.y);
}
double impl_inertia(M& m, Vector p, Vector c, double rho) { return m.computeInertiaMoment(p, c, rho); }
double spec_inertia(M& m, Vector p, Vector c, double rho) {
    Polygon r = m.getInnermostPolygon(p);
    double s = 0;
    for (int t = 0; t < m.data.numberoftriangles; t++) {
        Tri k = tri(m, r, t);
        const double dx = k.g.x + m.center.x - c.x, dy = k.g.y + m.center.y - c.y;
        if (k.in) s += k.area * (dx * dx + dy * dy);
    }
    return s * m.depth * rho;
}
// the first drawn polygon that contains the point and does not contain another polygon containing the point
void impl_innermost(M& m, Vector p, Polygon* out) { *out = m.getInnermostPolygon(p); }
void spec_innermost(M& m, Vector p, Polygon* out) {
    std::vector<Polygon> in;
    Polygon r;
    Vector q(p.x - m.center.x, p.y - m.center.y);
    for (auto k : m.drawing.polygons) if (k.contains(q)) in.push_back(k);
    if (in.size() == 0) throw 1;
    else if (in.size() == 1) r = in[0];
    else for (auto a : in) {
        bool inner = true;
        for (auto b : in) if (a != b && a.contains(b)) { inner = false; break; }
        if (inner) { r = a; break; }
    }
    *out = r;
}
// the same without the special case: a polygon is never different from itself
void spec_innermost__2(M& m, Vector p, Polygon* out) {
    std::vector<Polygon> in;
    Polygon r;
    Vector q(p.x - m.center.x, p.y - m.center.y);
    for (auto k : m.drawing.polygons) if (k.contains(q)) in.push_back(k);
    if (in.size() == 0) throw 1;
    else for (auto a : in) {
        bool inner = true;
        for (auto b : in) if (a != b && a.contains(b)) { inner = false; break; }
        if (inner) { r = a; break; }
    }
    *out = r;
}
}
