#include "nv.hpp"
namespace nv {
typedef MagnetostaticSimulation S;
typedef SurroundingRegionBlockIntegralAssets Assets;
typedef std::vector<Vector> F;
static bool fixed(const Assets& a, uint32_t v) { return !a.vertex_inside_boundary_region[v] || a.vertex_inside_boundary_region_hole[v] || a.vertex_inside_integration_region_with_boundary[v]; }
static double value(const Assets& a, uint32_t v) { return !a.vertex_inside_boundary_region[v] || a.vertex_inside_boundary_region_hole[v] ? 0 : 1; }
// the weight of the shell: one on the body, zero outside the surrounding region; k(t, A) is the stress contracted with the
// direction of the force (or with the moment), both of which give the same structure
template <class K> static std::vector<Vector> shell(S& s, const F& B, const Assets& a, K k) {
    const uint32_t n = s.mesh.data.numberofpoints;
    MatCOOSymmetric<double> A(n);
    std::vector<double> b(n);
    for (uint32_t i = 0; i < n; i++)
        for (uint32_t j = 0; j < a.adjelems_ids[i].size(); j++) {
            const uint32_t t = a.adjelems_ids[i][j];
            const Elem e = s.mesh.data.trianglelist[t];
            uint32_t v[3];
            v[0] = i;
            if ((uint32_t)e.verts[0] == i) { v[1] = e.verts[1]; v[2] = e.verts[2]; }
            else if ((uint32_t)e.verts[1] == i) { v[1] = e.verts[2]; v[2] = e.verts[0]; }
            else if ((uint32_t)e.verts[2] == i) { v[1] = e.verts[0]; v[2] = e.verts[1]; }
            else nexit("corner");
            const Vector *P = s.mesh.data.pointlist;
            auto cross = [&](uint32_t p, uint32_t q, uint32_t r) { return (P[q].x - P[p].x) * (P[r].y - P[p].y) - (P[q].y - P[p].y) * (P[r].x - P[p].x); };
            if (cross(v[0], v[1], v[2]) < 0) std::swap(v[1], v[2]);
            const double D = cross(v[0], v[1], v[2]);
            const Vector c((P[v[0]].x + P[v[1]].x + P[v[2]].x) / 3, (P[v[0]].y + P[v[1]].y + P[v[2]].y) / 3);
            const Vector w = k(B[t], c);
            auto part = [&](int m) { return (w.x * (P[v[(m + 1) % 3]].y - P[v[(m + 2) % 3]].y) + w.y * (P[v[(m + 2) % 3]].x - P[v[(m + 1) % 3]].x)) / D; };
            const double x = (std::sqrt(std::fabs(a.elem_field_errors[t])) - a.min_err) * 999 / (a.max_err - a.min_err) + 1;
            const double W = x < 1 ? 1 : x > 1000 ? 1000 : x;
            for (int m = 0; m < 3; m++) if (v[m] >= i) A(i, v[m]) += D * W * part(0) * part(m);
        }
    for (auto& e : A.elems) {
        const uint32_t r = e.first >> 32, c = e.first & 0xFFFFFFFF;
        if (r == c) { if (fixed(a, r)) e.second = 1; }
        else if (fixed(a, r) || fixed(a, c)) {
            if (!fixed(a, r)) b[r] -= e.second * value(a, c);
            if (!fixed(a, c)) b[c] -= e.second * value(a, r);
            e.second = 0;
        }
    }
    for (uint32_t i = 0; i < n; i++) if (fixed(a, i)) b[i] = value(a, i);
    MatCSRSymmetric M(A);
    std::vector<double> g(n);
    preconditionedSSORConjugateGradientSolver(M, b, g, 1.5, 1e-100, 100);
    return s.mesh.computeGrad(g);
}
static bool counts(S& s, const Assets& a, uint32_t t) {
    for (int j = 0; j < 3; j++) {
        const uint32_t v = s.mesh.data.trianglelist[t].verts[j];
        if (a.vertex_inside_integration_region[v] || !a.vertex_inside_boundary_region[v] || a.vertex_inside_boundary_region_hole[v]) return false;
    }
    return true;
}
static double area(S& s, uint32_t t) {
    const Elem& e = s.mesh.data.trianglelist[t]; const Vector* P = s.mesh.data.pointlist;
    return std::fabs((P[e.verts[1]].x - P[e.verts[0]].x) * (P[e.verts[2]].y - P[e.verts[0]].y) - (P[e.verts[1]].y - P[e.verts[0]].y) * (P[e.verts[2]].x - P[e.verts[0]].x)) / 2;
}
void impl_force(S& s, const F& B, const Assets& a, Vector p, Vector* out) { *out = s.computeForceIntegrals(B, a, p); }
void spec_force(S& s, const F& B, const Assets& a, Vector p, Vector* out) {
    const F g = shell(s, B, a, [](Vector b, Vector) { return Vector((b.y * b.y - b.x * b.x) / 2, -b.x * b.y); });
    double fx = 0, fy = 0;
    for (uint32_t t = 0; t < s.mesh.data.numberoftriangles; t++)
        if (counts(s, a, t)) {
            const double q = (B[t].x * B[t].x + B[t].y * B[t].y) / 2, d = B[t].x * g[t].x + B[t].y * g[t].y, ar = area(s, t);
            fx += (g[t].x * q - B[t].x * d) * ar;
            fy += (g[t].y * q - B[t].y * d) * ar;
        }
    *out = Vector(fx / (4 * M_PI * 1e-7) * s.depth, fy / (4 * M_PI * 1e-7) * s.depth);
}
double impl_torque(S& s, const F& B, const Assets& a, Vector p, Vector center) { return s.computeTorqueIntegral(B, a, p, center); }
double spec_torque(S& s, const F& B, const Assets& a, Vector p, Vector center) {
    const double ox = s.mesh.center.x - center.x, oy = s.mesh.center.y - center.y;
    const F g = shell(s, B, a, [=](Vector b, Vector c) {
        const double x = c.x + ox, y = c.y + oy, q = (b.x * b.x + b.y * b.y) / 2, m = x * b.y - y * b.x;
        return Vector(-y * q - b.x * m, x * q - b.y * m); });
    double sum = 0;
    for (uint32_t t = 0; t < s.mesh.data.numberoftriangles; t++)
        if (counts(s, a, t)) {
            const Elem& e = s.mesh.data.trianglelist[t]; const Vector* P = s.mesh.data.pointlist;
            const double x = (P[e.verts[0]].x + P[e.verts[1]].x + P[e.verts[2]].x) / 3 + ox, y = (P[e.verts[0]].y + P[e.verts[1]].y + P[e.verts[2]].y) / 3 + oy;
            const double q = (B[t].x * B[t].x + B[t].y * B[t].y) / 2, d = B[t].x * g[t].x + B[t].y * g[t].y;
            sum += ((x * g[t].y - y * g[t].x) * q - (x * B[t].y - y * B[t].x) * d) * area(s, t);
        }
    return sum / (4 * M_PI * 1e-7) * s.depth;
}

// the regions: the body, the innermost of the outlines that strictly contain it, the outlines inside that one but not inside
// the body; the error of an element: a third of its field and the jumps of the field across its edges
struct Edge { uint8_t count = 0; uint32_t elems[2]; };
static uint64_t edge(uint32_t a, uint32_t b) { return a < b ? (uint64_t)a << 32 | b : (uint64_t)b << 32 | a; }
static void assets(S& s, const F& B, const Vector& p, Assets* out) {
    Polygon body = s.mesh.getInnermostPolygon(p);
    std::vector<Polygon> around, holes;
    for (auto& q : s.mesh.drawing.polygons) if (q.contains(body) && q != body) around.push_back(q);
    Polygon region;
    bool found = false;
    for (auto& q : around) {
        bool least = true;
        for (auto& o : around) if (q != o && q.contains(o)) { least = false; break; }
        if (least) { region = q; found = true; break; }
    }
    if (!found) nexit("no region");
    for (auto& q : s.mesh.drawing.polygons) if (region.contains(q) && !body.contains(q) && q != region && q != body) holes.push_back(q);
    s.mesh.drawing.getPolygonProp(body);
    auto& d = s.mesh.data;
    const Vector* P = d.pointlist;
    out->adjelems_ids = std::vector<std::vector<uint32_t>>(d.numberofpoints);
    for (uint32_t t = 0; t < d.numberoftriangles; t++)
        for (int j = 0; j < 3; j++) out->adjelems_ids[d.trianglelist[t].verts[j]].push_back(t);
    std::unordered_map<uint64_t, Edge> sides;
    for (uint32_t t = 0; t < d.numberoftriangles; t++)
        for (int j = 0; j < 3; j++) {
            Edge& e = sides[edge(d.trianglelist[t].verts[j], d.trianglelist[t].verts[(j + 1) % 3])];
            e.elems[e.count++] = t;
        }
    out->elem_field_errors = std::vector<double>(d.numberoftriangles, 0);
    for (uint32_t t = 0; t < d.numberoftriangles; t++) {
        double err = B[t].norm() / 3;
        Elem e = d.trianglelist[t];
        if (Vector::doubleOrientedArea(P[e.verts[0]], P[e.verts[1]], P[e.verts[2]]) < 0) std::swap(e.verts[0], e.verts[1]);
        for (int j = 0; j < 3; j++) {
            const uint32_t v = e.verts[j], w = e.verts[(j + 1) % 3];
            const double len = Vector::distance(P[v], P[w]);
            const Vector n = (P[w] - P[v]).normal().normalize();
            Edge& k = sides[edge(v, w)];
            const Vector o = B[k.elems[0] == t ? k.elems[1] : k.elems[0]];
            err += (n.x * (o.y - B[t].y) - n.y * (o.x - B[t].x)) * len;
        }
        out->elem_field_errors[t] = err;
    }
    double least = std::numeric_limits<double>::max(), most = std::numeric_limits<double>::min();
    for (uint32_t t = 0; t < d.numberoftriangles; t++) {
        least = std::min(least, out->elem_field_errors[t]);
        most = std::max(most, out->elem_field_errors[t]);
    }
    out->min_err = least; out->max_err = most;
    out->vertex_inside_integration_region = std::vector<bool>(d.numberofpoints);
    out->vertex_inside_integration_region_with_boundary = std::vector<bool>(d.numberofpoints);
    out->vertex_inside_boundary_region = std::vector<bool>(d.numberofpoints);
    out->vertex_inside_boundary_region_hole = std::vector<bool>(d.numberofpoints);
    for (uint32_t i = 0; i < d.numberofpoints; i++) {
        out->vertex_inside_integration_region[i] = body.contains(P[i], false, s.mesh.epsilon);
        out->vertex_inside_integration_region_with_boundary[i] = body.contains(P[i], true, s.mesh.epsilon);
        out->vertex_inside_boundary_region[i] = region.contains(P[i], true, s.mesh.epsilon);
        const Vector v = P[i];
        bool in = false;
        for (auto& h : holes) if (h.contains(v, false, s.mesh.epsilon)) { in = true; break; }
        out->vertex_inside_boundary_region_hole[i] = in;
    }
}
void impl_assets(S& s, const F& B, const Vector& p, Vector* out) { *out = s.computeForceIntegrals(B, p); }
void spec_assets(S& s, const F& B, const Vector& p, Vector* out) { Assets a; assets(s, B, p, &a); *out = s.computeForceIntegrals(B, a, p); }
void impl_moment(S& s, const F& B, const Vector& p, const Vector& center, double* out) { *out = s.computeTorqueIntegral(B, p, center); }
void spec_moment(S& s, const F& B, const Vector& p, const Vector& center, double* out) { Assets a; assets(s, B, p, &a); *out = s.computeTorqueIntegral(B, a, p, center); }
void impl_stress(S& s, const F& B, const Vector& p, const Vector& center, StressTensor* out) { *out = s.computeStressIntegral(B, p, center); }
void spec_stress(S& s, const F& B, const Vector& p, const Vector& center, StressTensor* out) {
    Assets a; assets(s, B, p, &a);
    out->Force = s.computeForceIntegrals(B, a, p);
    out->Torque = s.computeTorqueIntegral(B, a, p, center);
}
}
