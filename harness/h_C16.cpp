#include "nv.hpp"
namespace nv {
typedef MagnetostaticMesh M;
void impl_transform(M& m) { m.kelvinTransformCentered(); }
void spec_transform(M& m) {
    for (uint32_t i = 0; i < m.data.numberofpoints; i++) {
        if (m.data.pointmarkerlist[i] != 0) continue;
        Vector& v = m.data.pointlist[i];
        const double dx = v.x - m.center.x, dy = v.y - m.center.y, dist = std::sqrt(dx * dx + dy * dy), r2 = v.x * v.x + v.y * v.y;
        const double k = dist < m.radius / 100 ? m.radius * 100 / dist : m.radius * m.radius / r2;
        v = Vector(v.x * k, v.y * k);
    }
}
void impl_kelvin(M& m, uint32_t n) { m.addKelvinBoundaryConditions(n); }
void spec_kelvin(M& m, uint32_t n) {
    Mesh<MagnetostaticProp> k;
    k.drawing.drawCircle(Circle(Vector(0, 0), m.radius), n);
    k.drawing.drawRegion(Vector(0, 0), m.default_prop);
    k.mesh(1.0, 33, true);
    k.center = Vector(0, 0);
    k.radius = m.radius;
    k.kelvinTransformCentered();
    std::map<uint32_t, uint32_t> to;
    const uint32_t old = m.data.numberofpoints;
    uint32_t shared = 0;
    for (uint32_t i = 0; i < k.data.numberofpoints; i++)
        if (k.data.pointmarkerlist[i] != 0)
            for (uint32_t j = 0; j < old; j++)
                if (m.data.pointmarkerlist[j] != 0 && m.data.pointlist[j].x == k.data.pointlist[i].x && m.data.pointlist[j].y == k.data.pointlist[i].y) { to[i] = j; shared++; break; }
    const uint32_t room = old + k.data.numberofpoints - shared;
    m.data.pointlist = (Vector*)realloc(m.data.pointlist, room * sizeof(Vector));
    m.data.pointmarkerlist = (int*)realloc(m.data.pointmarkerlist, room * sizeof(int));
    uint32_t next = old;
    for (uint32_t i = 0; i < k.data.numberofpoints; i++)
        if (k.data.pointmarkerlist[i] == 0) { m.data.pointlist[next] = k.data.pointlist[i]; m.data.pointmarkerlist[next] = 0; to[i] = next++; }
    m.data.numberofpoints = next;
    const uint32_t id = m.drawing.getRegionId(m.default_prop), nt = m.data.numberoftriangles;
    m.data.trianglelist = (Elem*)realloc(m.data.trianglelist, (nt + k.data.numberoftriangles) * sizeof(Elem));
    m.data.triangleattributelist = (TRI_REAL*)realloc(m.data.triangleattributelist, (nt + k.data.numberoftriangles) * sizeof(TRI_REAL));
    for (uint32_t t = 0; t < k.data.numberoftriangles; t++) {
        for (int c = 0; c < 3; c++) if (to.count(k.data.trianglelist[t][c])) m.data.trianglelist[nt + t][c] = to[k.data.trianglelist[t][c]];
        m.data.triangleattributelist[nt + t] = id;
    }
    m.data.numberoftriangles = nt + k.data.numberoftriangles;
}
typedef MagnetostaticSimulation MS;
void impl_generate(MS& s, bool refine, double area, int angle, bool magnets, System<NonLinearExpression>* out) { *out = s.generateSystem(refine, area, angle, magnets); }
void spec_generate(MS& s, bool refine, double area, int angle, bool magnets, System<NonLinearExpression>* out) {
    auto& m = s.mesh;
    Circle c = Circle::getEnclosingCircle(m.drawing.points);
    const double r = (m.drawing.points.size() == 0 ? 1 : c.radius) * 1.5;
    m.center = c.center;
    m.radius = r;
    m.drawing.translate(-m.center);
    const uint32_t n = (uint32_t)(2 * M_PI * r / std::sqrt(area * 4 / std::sqrt(3)) * 2);
    m.drawing.drawCircle(Circle(Vector(0, 0), r), n);
    m.drawing.drawRegion(Vector(r * 0.9, 0), {0, {0, 0}, magnetostatic_materials::air});
    if (magnets) m.refineMeshAroundMagnets();
    if (refine) m.drawing.addRefiningPoints();
    m.mesh(area, angle, true);
    m.addKelvinBoundaryConditions(n);
    m.computeEpsilon();
    System<NonLinearExpression> sys = m.getFemSystem();
    m.addDirichletInfiniteBoundaryConditions(sys);
    *out = sys;
}
}
