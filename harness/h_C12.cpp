#include "nv.hpp"
namespace nv {
typedef Drawing<CurrentDensityProp> D;
typedef Vector V;
void impl_segment(D& d, V a, V b) { d.drawSegment(a, b); }
void spec_segment(D& d, V a, V b) {
    bool fa = false, fb = false;
    uint32_t ia = 0, ib = 0;
    for (uint32_t i = 0; i < d.points.size(); i++) {
        if (d.points[i] == a) { fa = true; ia = i; }
        if (d.points[i] == b) { fb = true; ib = i; }
    }
    if (!fa) { ia = d.points.size(); d.points.push_back(a); }
    if (!fb) { if (a == b) ib = ia; else { ib = d.points.size(); d.points.push_back(b); } }
    if (ia == ib) return;
    for (size_t k = 0; k < d.segments.size(); k++) {
        const uint32_t p = d.segments[k].p1, q = d.segments[k].p2;
        if ((p == ia && q == ib) || (p == ib && q == ia)) return;
        if (p == ia || q == ia || p == ib || q == ib) continue;
        const V u = d.points[p], v = d.points[q];
        if (std::max(a.x, b.x) < std::min(u.x, v.x) || std::max(u.x, v.x) < std::min(a.x, b.x) || std::max(a.y, b.y) < std::min(u.y, v.y) || std::max(u.y, v.y) < std::min(a.y, b.y)) continue;
        if (Segment::segmentsIntersect(a, b, u, v)) nexit("crossing");
    }
    d.segments.push_back(DrawingSegment(ia, ib));
}
void impl_segment_obj(D& d, const Segment& s) { d.drawSegment(s); }
void spec_segment_obj(D& d, const Segment& s) { d.drawSegment(s.p1, s.p2); }
void impl_point(D& d, V p) { d.drawPoint(p); }
void spec_point(D& d, V p) {
    bool there = false;
    for (uint32_t i = 0; i < d.points.size(); i++) if (d.points[i] == p) there = true;
    if (!there) d.points.push_back(p);
}
void impl_rectangle(D& d, V a, V b) { d.drawRectangle(a, b); }
void spec_rectangle(D& d, V a, V b) {
    V p(b.x, a.y), q(a.x, b.y);
    d.drawSegment(a, p); d.drawSegment(p, b); d.drawSegment(b, q); d.drawSegment(q, a);
    d.polygons.push_back(Polygon({a, p, b, q}));
}
void impl_rectangle_wh(D& d, V a, double w, double h) { d.drawRectangle(a, w, h); }
void spec_rectangle_wh(D& d, V a, double w, double h) { d.drawRectangle(a, V(a.x + w, a.y + h)); }
void impl_circle(D& d, V c, double r, uint32_t n) { d.drawCircle(c, r, n); }
void spec_circle(D& d, V c, double r, uint32_t n) {
    std::vector<V> p;
    const double step = 2 * M_PI / n;
    V a(c.x + r, c.y);
    for (uint32_t i = 0; i < n; i++) {
        V b(c.x + r * std::cos((i + 1) * step), c.y + r * std::sin((i + 1) * step));
        d.drawSegment(a, b);
        p.push_back(b);
        a = b;
    }
    d.polygons.push_back(Polygon(p));
}
void impl_circle_obj(D& d, const Circle& c, uint32_t n) { d.drawCircle(c, n); }
void spec_circle_obj(D& d, const Circle& c, uint32_t n) { d.drawCircle(c.center, c.radius, n); }
void impl_polygon(D& d, V* p, uint32_t n) { d.drawPolygon(p, n); }
void spec_polygon(D& d, V* p, uint32_t n) {
    if (n == 0) nexit("empty");
    for (uint32_t i = 0; i < n - 1; i++) d.drawSegment(p[i], p[i + 1]);
    d.drawSegment(p[n - 1], p[0]);
    d.polygons.push_back(Polygon(p, n));
}
void spec_polygon__2(D& d, V* p, uint32_t n) {
    if (n == 0) nexit("empty");
    for (uint32_t i = 0; i < n; i++) d.drawSegment(p[i], p[(i + 1) % n]);
    d.polygons.push_back(Polygon(p, n));
}
void impl_polygon_vec(D& d, const std::vector<V>& p) { d.drawPolygon(p); }
void spec_polygon_vec(D& d, const std::vector<V>& p) { d.drawPolygon((V*)p.data(), p.size()); }
void impl_polygon_obj(D& d, const Polygon& p) { d.drawPolygon(p); }
void spec_polygon_obj(D& d, const Polygon& p) { d.drawPolygon((V*)p.points.data(), p.points.size()); }
void spec_polygon_obj__2(D& d, const Polygon& p) { Polygon q(p); d.drawPolygon((V*)q.points.data(), q.points.size()); }
void impl_region(D& d, V p, CurrentDensityProp v) { d.drawRegion(p, v); }
void spec_region(D& d, V p, CurrentDensityProp v) {
    uint32_t id = d.getRegionId(v);
    d.regions.push_back(DrawingRegion(p, id));
}
uint32_t impl_id(D& d, CurrentDensityProp v) { return d.getRegionId(v); }
uint32_t spec_id(D& d, CurrentDensityProp v) {
    for (uint32_t i = 0; i < d.region_map.size(); i++) if (d.region_map[i] == v) return i;
    d.region_map.push_back(v);
    return d.region_map.size() - 1;
}
const CurrentDensityProp* impl_ptr(const D& d, uint32_t id) { return d.getRegionPtrFromId(id); }
const CurrentDensityProp* spec_ptr(const D& d, uint32_t id) {
    if (id >= d.region_map.size()) nexit("no such region");
    return &d.region_map[id];
}
void impl_translate(D& d, V v) { d.translate(v); }
void spec_translate(D& d, V v) {
    for (auto& p : d.points) { p.x += v.x; p.y += v.y; }
    for (auto& r : d.regions) { r.first.x += v.x; r.first.y += v.y; }
    for (auto& p : d.polygons) p.translate(v);
}
double impl_epsilon(D& d) { return d.getCurrentEpsilon(); }
double spec_epsilon(D& d) {
    double m = std::numeric_limits<double>::max();
    for (uint32_t i = 0; i < d.points.size(); i++)
        for (uint32_t j = 0; j < d.segments.size(); j++) {
            if (d.segments[j].p1 == i || d.segments[j].p2 == i) continue;
            m = std::min(m, Segment::pointSegmentDistance(d.points[i], d.points[d.segments[j].p1], d.points[d.segments[j].p2]));
        }
    return m;
}
double spec_epsilon__2(D& d) {
    double m = std::numeric_limits<double>::max();
    for (uint32_t j = 0; j < d.segments.size(); j++)
        for (uint32_t i = 0; i < d.points.size(); i++) {
            if (d.segments[j].p1 == i || d.segments[j].p2 == i) continue;
            m = std::min(m, Segment::pointSegmentDistance(d.points[i], d.points[d.segments[j].p1], d.points[d.segments[j].p2]));
        }
    return m;
}
}
