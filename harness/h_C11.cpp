#include "nv.hpp"
namespace nv {
#define V Vector
// ---- vector algebra
V impl_plus(V a, V b) { return a + b; }               V spec_plus(V a, V b) { return V(a.x + b.x, a.y + b.y); }
V impl_minus(V a, V b) { return a - b; }              V spec_minus(V a, V b) { return V(a.x - b.x, a.y - b.y); }
void impl_plus_eq(V& a, V b) { a += b; }              void spec_plus_eq(V& a, V b) { a.x += b.x; a.y += b.y; }
void impl_minus_eq(V& a, V b) { a -= b; }             void spec_minus_eq(V& a, V b) { a.x -= b.x; a.y -= b.y; }
V impl_plus_eq_val(V& a, V b) { return a += b; }      V spec_plus_eq_val(V& a, V b) { a.x += b.x; a.y += b.y; return V(a.x, a.y); }
V impl_times(V a, double d) { return a * d; }         V spec_times(V a, double d) { return V(a.x * d, a.y * d); }
V impl_over(V a, double d) { return a / d; }          V spec_over(V a, double d) { return V(a.x / d, a.y / d); }
void impl_times_eq(V& a, double d) { a *= d; }        void spec_times_eq(V& a, double d) { a.x *= d; a.y *= d; }
void impl_over_eq(V& a, double d) { a /= d; }         void spec_over_eq(V& a, double d) { a.x /= d; a.y /= d; }
V impl_negate(V a) { return -a; }                     V spec_negate(V a) { return V(-a.x, -a.y); }
double impl_dot(V a, V b) { return a * b; }           double spec_dot(V a, V b) { return a.x * b.x + a.y * b.y; }
double impl_cross(V a, V b) { return a ^ b; }         double spec_cross(V a, V b) { return a.x * b.y - a.y * b.x; }
double impl_norm(V a) { return a.norm(); }            double spec_norm(V a) { return std::sqrt(a.x * a.x + a.y * a.y); }
double impl_norm2(V a) { return a.normSquared(); }    double spec_norm2(V a) { return a.x * a.x + a.y * a.y; }
void impl_normalize(V& a) { a.normalize(); }
void spec_normalize(V& a) { double l = std::sqrt(a.x * a.x + a.y * a.y); if (l != 0) { a.x /= l; a.y /= l; } }
void impl_translate(V& a, V b) { a.translate(b); }    void spec_translate(V& a, V b) { a.x += b.x; a.y += b.y; }
V impl_rotate(V a, double t) { return a.rotate(t); }
V spec_rotate(V a, double t) { return V(a.x * cos(t) - a.y * sin(t), a.x * sin(t) + a.y * cos(t)); }
V impl_rotate_about(V a, double t, V c) { return a.rotate(t, c); }
V spec_rotate_about(V a, double t, V c) { double x = a.x - c.x, y = a.y - c.y; return V(c.x + x * cos(t) - y * sin(t), c.y + x * sin(t) + y * cos(t)); }
V impl_normal(V a) { return a.normal(); }             V spec_normal(V a) { return V(-a.y, a.x); }
double impl_doubleOrientedArea(V a, V b, V c) { return V::doubleOrientedArea(a, b, c); }
double spec_doubleOrientedArea(V a, V b, V c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
double impl_orientedArea(V a, V b, V c) { return V::orientedArea(a, b, c); }
double spec_orientedArea(V a, V b, V c) { return ((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)) / 2; }
double impl_area(V a, V b, V c) { return V::area(a, b, c); }
double spec_area(V a, V b, V c) { return std::fabs(((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)) / 2); }
double impl_distance(V a, V b) { return V::distance(a, b); }
double spec_distance(V a, V b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); }
double impl_distanceSquared(V a, V b) { return V::distanceSquared(a, b); }
double spec_distanceSquared(V a, V b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
V impl_lerp(V a, V b, double t) { return V::lerp(a, b, t); }
V spec_lerp(V a, V b, double t) { return V((1 - t) * a.x + t * b.x, (1 - t) * a.y + t * b.y); }
V impl_midPoint(V a, V b) { return V::midPoint(a, b); }
V spec_midPoint(V a, V b) { return V((a.x + b.x) / 2, (a.y + b.y) / 2); }
double impl_orientedAngle(V a, V b, V c) { return V::orientedAngle(a, b, c); }
double spec_orientedAngle(V a, V b, V c) { double ux = a.x - b.x, uy = a.y - b.y, vx = c.x - b.x, vy = c.y - b.y; return atan2(ux * vy - uy * vx, ux * vx + uy * vy); }
double impl_absoluteAngle(V a, V b, V c) { return V::absoluteAngle(a, b, c); }
double spec_absoluteAngle(V a, V b, V c) { double ux = a.x - b.x, uy = a.y - b.y, vx = c.x - b.x, vy = c.y - b.y; return std::fabs(atan2(ux * vy - uy * vx, ux * vx + uy * vy)); }
// ---- segments
double impl_seg_length(Segment s) { return s.length(); }
double spec_seg_length(Segment s) { return std::sqrt((s.p1.x - s.p2.x) * (s.p1.x - s.p2.x) + (s.p1.y - s.p2.y) * (s.p1.y - s.p2.y)); }
static double d2(double ax, double ay, double bx, double by) { return std::sqrt((ax - bx) * (ax - bx) + (ay - by) * (ay - by)); }
double impl_pointSegmentDistance(V p, V a, V b) { return Segment::pointSegmentDistance(p, a, b); }
static double psd(V p, V a, V b) {
    double l2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
    if (l2 == 0) return d2(p.x, p.y, a.x, a.y);
    double t = ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l2;
    if (t < 0) return d2(p.x, p.y, a.x, a.y);
    if (t > 1) return d2(p.x, p.y, b.x, b.y);
    return d2(p.x, p.y, a.x + t * (b.x - a.x), a.y + t * (b.y - a.y));
}
double spec_pointSegmentDistance(V p, V a, V b) { return psd(p, a, b); }
double impl_pointSegmentDistance_seg(V p, Segment s) { return Segment::pointSegmentDistance(p, s); }
double spec_pointSegmentDistance_seg(V p, Segment s) { return psd(p, s.p1, s.p2); }
bool impl_pointInSegmentBB(V p, V a, V b) { return Segment::pointInSegmentBB(p, a, b); }
static bool bb(V p, V a, V b) {
    double lx = a.x < b.x ? a.x : b.x, hx = a.x < b.x ? b.x : a.x, ly = a.y < b.y ? a.y : b.y, hy = a.y < b.y ? b.y : a.y;
    return lx <= p.x && p.x <= hx && ly <= p.y && p.y <= hy;
}
bool spec_pointInSegmentBB(V p, V a, V b) { return bb(p, a, b); }
bool impl_pointInSegmentBB_seg(V p, Segment s) { return Segment::pointInSegmentBB(p, s); }
bool spec_pointInSegmentBB_seg(V p, Segment s) { return bb(p, s.p1, s.p2); }
static double cr(V a, V b, V c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
// closed segments ab and cd meet (orientation test, zero meaning below 1e-100)
static bool zero(double v) { return std::fabs(v) < 1e-100; }
static bool within(double a, double b, double v) { return std::min(a, b) - 1e-100 < v && v < std::max(a, b) + 1e-100; }
static bool onseg(V a, V b, V p) { return zero(p.x - a.x) ? within(a.y, b.y, p.y) : within(a.x, b.x, p.x); }
bool impl_segmentsIntersect(V a, V b, V c, V d) { return Segment::segmentsIntersect(a, b, c, d); }
bool spec_segmentsIntersect(V a, V b, V c, V d) {
    double kc = cr(a, b, c), kd = cr(a, b, d);
    bool zc = zero(kc), zd = zero(kd);
    if (zc && onseg(a, b, c)) return true;
    if (zc && std::fabs(kd) > 1e-100) return false;
    if (zd && onseg(a, b, d)) return true;
    if (zd && std::fabs(kc) > 1e-100) return false;
    if (zd) return zero(c.x - a.x) ? (a.y < c.y) != (a.y < d.y) : (a.x < c.x) != (a.x < d.x);
    if ((kc > 0) == (kd > 0)) return false;
    double ka = cr(c, d, a), kb = cr(c, d, b);
    return zero(ka) || zero(kb) || (ka > 0) != (kb > 0);
}
// ---- polygons
static bool crossing(const std::vector<V>& q, V p) {
    bool in = false, edge = false;
    size_t n = q.size();
    for (size_t j = 0; j < n; ++j) {
        V a = q[j == 0 ? n - 1 : j - 1], b = q[j];
        if ((p.x == a.x && p.y == a.y) || (p.x == b.x && p.y == b.y)) { edge = true; break; }
        if (a.y == b.y && p.y == a.y && ((a.x <= p.x && p.x <= b.x) || (b.x <= p.x && p.x <= a.x))) { edge = true; break; }
        if (!((a.y <= p.y && p.y <= b.y) || (b.y <= p.y && p.y <= a.y))) continue;
        if ((p.y == a.y && b.y >= a.y) || (p.y == b.y && a.y >= b.y)) continue;
        double c = (a.x - p.x) * (b.y - p.y) - (b.x - p.x) * (a.y - p.y);
        if (c == 0) { edge = true; break; }
        if ((a.y < b.y) == (c > 0)) in = !in;
    }
    return edge || in;
}
bool impl_poly_contains(const Polygon& q, V p) { size(0,&q.points,16); return q.contains(p); }
bool spec_poly_contains(const Polygon& q, V p) { size(0,&q.points,16); return crossing(q.points, p); }
bool impl_poly_contains_eps(const Polygon& q, V p, bool on, double eps) { size(0,&q.points,16); return q.contains(p, on, eps); }
bool spec_poly_contains_eps(const Polygon& q, V p, bool on, double eps) { size(0,&q.points,16);
    bool in = q.contains(p), near = false;
    for (size_t i = 0; i < q.points.size(); ++i) near = near || psd(p, q.points[i], q.points[(i + 1) % q.points.size()]) <= eps;
    return on ? (in || near) : (in && !near);
}
bool impl_poly_contains_poly(const Polygon& q, const Polygon& r) { size(0,&q.points,16); size(1,&r.points,16); return q.contains(r); }
bool spec_poly_contains_poly(const Polygon& q, const Polygon& r) { size(0,&q.points,16); size(1,&r.points,16);
    bool all = true; for (size_t i = 0; i < r.points.size(); ++i) all = all && q.contains(r.points[i]); return all; }
void impl_poly_translate(Polygon& q, V v) { size(0,&q.points,16); q.translate(v); }
void spec_poly_translate(Polygon& q, V v) { size(0,&q.points,16); for (size_t i = 0; i < q.points.size(); ++i) { q.points[i].x += v.x; q.points[i].y += v.y; } }
void impl_poly_rotate(Polygon& q, double t, V c) { size(0,&q.points,16); q.rotate(t, c); }
void spec_poly_rotate(Polygon& q, double t, V c) { size(0,&q.points,16); for (size_t i = 0; i < q.points.size(); ++i) { double x = q.points[i].x - c.x, y = q.points[i].y - c.y;
    q.points[i].x = c.x + x * cos(t) - y * sin(t); q.points[i].y = c.y + x * sin(t) + y * cos(t); } }
// ---- circles
bool impl_circle_contains(Circle& c, V p) { return c.contains(p); }
bool spec_circle_contains(Circle& c, V p) { return d2(c.center.x, c.center.y, p.x, p.y) <= c.radius; }
double impl_circumference(Circle& c) { return c.circumference(); }
double spec_circumference(Circle& c) { return 2 * PI * c.radius; }
Circle impl_circle2(V a, V b) { return Circle::getCircleFromPoints(a, b); }
Circle spec_circle2(V a, V b) { V m((a.x + b.x) / 2, (a.y + b.y) / 2); return Circle(m, d2(m.x, m.y, a.x, a.y)); }
Circle impl_circle3(V a, V b, V c) { return Circle::getCircleFromPoints(a, b, c); }
Circle spec_circle3(V a, V b, V c) {
    double d = 2 * (a.x * (b.y - c.y) + b.x * (c.y - a.y) + c.x * (a.y - b.y));
    double A = a.x * a.x + a.y * a.y, B = b.x * b.x + b.y * b.y, C = c.x * c.x + c.y * c.y;
    V m((A * (b.y - c.y) + B * (c.y - a.y) + C * (a.y - b.y)) / d, (A * (c.x - b.x) + B * (a.x - c.x) + C * (b.x - a.x)) / d);
    return Circle(m, d2(m.x, m.y, a.x, a.y));
}
bool impl_containsPoints(Circle& c, std::vector<V>& v) { size(0,&v,16); return c.containsPoints(v); }
bool spec_containsPoints(Circle& c, std::vector<V>& v) { size(0,&v,16); bool all = true; for (size_t i = 0; i < v.size(); ++i) all = all && d2(c.center.x, c.center.y, v[i].x, v[i].y) <= c.radius; return all; }
Circle impl_enclosing(std::vector<V>& v) { size(0,&v,16); assume(v.size() > 0); return Circle::getEnclosingCircle(v); }
Circle spec_enclosing(std::vector<V>& v) { size(0,&v,16); assume(v.size() > 0); double x = 0, y = 0, r = 0; size_t n = v.size();
    for (size_t i = 0; i < n; ++i) { x += v[i].x; y += v[i].y; }
    x /= n; y /= n;
    for (size_t i = 0; i < n; ++i) r = std::max(r, d2(x, y, v[i].x, v[i].y));
    return Circle(V(x, y), r); }
// ---- orientation
int impl_orientation(V a, V b, V c) { return (int)geomOrientation(a, b, c); }
int spec_orientation(V a, V b, V c) { double k = cr(a, b, c); return std::fabs(k) < std::numeric_limits<double>::epsilon() ? (int)Orientation::COLLINEAR : k < 0 ? (int)Orientation::CLOCKWISE : (int)Orientation::COUNTERCLOCKWISE; }
bool impl_pointInTriangle(V p, V a, V b, V c) { return pointInTriangle(p, a, b, c); }
bool spec_pointInTriangle(V p, V a, V b, V c) { int x = spec_orientation(p, a, b), y = spec_orientation(p, b, c), z = spec_orientation(p, c, a); return x == y && y == z; }
}
