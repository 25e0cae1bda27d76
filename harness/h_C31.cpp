#include "nv.hpp"
namespace nv {
typedef MagnetostaticMesh MM;
typedef System<NonLinearExpression> NS;
void impl_anchor(MM& m, NS& s) { m.addDirichletInfiniteBoundaryConditions(s); }
static double far(const Vector& v) { return std::sqrt(v.x * v.x + v.y * v.y); }
static double far2(const Vector& v) { return v.x * v.x + v.y * v.y; }
template <double (*F)(const Vector&)> inline __attribute__((always_inline)) void three(MM& m, NS& s) {
    uint32_t p1 = 0, p2 = 0, p3 = 0;
    double d1 = 0, d2 = 0, d3 = 0;
    for (uint32_t i = 0; i < m.data.numberofpoints; i++) {
        const double d = F(m.data.pointlist[i]);
        const bool first = d > d1, second = !first && d > d2, third = !first && !second && d > d3;
        p3 = first || second ? p2 : third ? i : p3;
        d3 = first || second ? d2 : third ? d : d3;
        p2 = first ? p1 : second ? i : p2;
        d2 = first ? d1 : second ? d : d2;
        p1 = first ? i : p1;
        d1 = first ? d : d1;
    }
    s.addDirichletBoundaryCondition(p1, 0);
    s.addDirichletBoundaryCondition(p2, 0);
    s.addDirichletBoundaryCondition(p3, 0);
}
// the same three nodes found by inserting at the end and moving up
template <double (*F)(const Vector&)> inline __attribute__((always_inline)) void sorted(MM& m, NS& s) {
    uint32_t p1 = 0, p2 = 0, p3 = 0;
    double d1 = 0, d2 = 0, d3 = 0;
    for (uint32_t i = 0; i < m.data.numberofpoints; i++) {
        const double d = F(m.data.pointlist[i]);
        if (!(d > d3)) continue;
        d3 = d; p3 = i;
        if (d3 > d2) { double t = d2; d2 = d3; d3 = t; uint32_t q = p2; p2 = p3; p3 = q; }
        if (d2 > d1) { double t = d1; d1 = d2; d2 = t; uint32_t q = p1; p1 = p2; p2 = q; }
    }
    s.addDirichletBoundaryCondition(p1, 0);
    s.addDirichletBoundaryCondition(p2, 0);
    s.addDirichletBoundaryCondition(p3, 0);
}
void spec_anchor(MM& m, NS& s) { three<far>(m, s); }
void spec_anchor__2(MM& m, NS& s) { three<far2>(m, s); }
void spec_anchor__3(MM& m, NS& s) { sorted<far>(m, s); }
void spec_anchor__4(MM& m, NS& s) { sorted<far2>(m, s); }
static double len(const Vector& a, const Vector& b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
void impl_tolerance(MM& m) { m.computeEpsilon(); }
template <int I, int J, int K> inline __attribute__((always_inline)) void tol(MM& m) {
    const int from[] = {0, 0, 1}, to[] = {1, 2, 2};
    double e = std::numeric_limits<double>::infinity();
    for (uint32_t t = 0; t < m.data.numberoftriangles; t++) {
        const Vector c[] = {m.data.pointlist[m.data.trianglelist[t].verts[0]], m.data.pointlist[m.data.trianglelist[t].verts[1]], m.data.pointlist[m.data.trianglelist[t].verts[2]]};
        e = std::min(e, len(c[from[I]], c[to[I]]));
        e = std::min(e, len(c[from[J]], c[to[J]]));
        e = std::min(e, len(c[from[K]], c[to[K]]));
    }
    m.epsilon = e * 0.5;
}
void spec_tolerance(MM& m) { tol<0, 1, 2>(m); }
void spec_tolerance__2(MM& m) { tol<0, 2, 1>(m); }
void spec_tolerance__3(MM& m) { tol<1, 0, 2>(m); }
void spec_tolerance__4(MM& m) { tol<1, 2, 0>(m); }
void spec_tolerance__5(MM& m) { tol<2, 0, 1>(m); }
void spec_tolerance__6(MM& m) { tol<2, 1, 0>(m); }
void impl_box(MM& m, double* o, bool clip) { m.getMeshBoundingBox(o[0], o[1], o[2], o[3], clip); }
void spec_box(MM& m, double* o, bool clip) {
    double x = 0, y = 0, h = 1.1 * m.radius;
    if (!clip) {
        for (uint32_t i = 0; i < m.data.numberofpoints; i++) x += m.data.pointlist[i].x, y += m.data.pointlist[i].y;
        x /= m.data.numberofpoints;
        y /= m.data.numberofpoints;
        double far = 0;
        for (uint32_t i = 0; i < m.data.numberofpoints; i++) far = std::max(far, len(m.data.pointlist[i], Vector(x, y)));
        h = far * 1.1;
        o[0] = x - h; o[1] = x + h; o[2] = y - h; o[3] = y + h;
    } else {
        o[0] = -1.1 * m.radius; o[1] = h; o[2] = -1.1 * m.radius; o[3] = h;
    }
}
void impl_window(MM& m, double w, double h, double* o, bool clip) { m.getMeshScaleOffset(w, h, o[0], o[1], o[2], o[3], clip); }
void spec_window(MM& m, double w, double h, double* o, bool clip) {
    double b[4];
    m.getMeshBoundingBox(b[0], b[1], b[2], b[3], clip);
    const double extent = std::max(b[1] - b[0], b[3] - b[2]);
    const double sx = 0.9 * w / extent, sy = 0.9 * h / extent;
    o[0] = sx; o[1] = sy;
    o[2] = 0.5 * w - 0.5 * (b[1] + b[0]) * sx;
    o[3] = 0.5 * h - 0.5 * (b[3] + b[2]) * sy;
}
}
