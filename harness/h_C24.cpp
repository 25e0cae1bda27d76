#include "nv.hpp"
namespace nv {
typedef MagnetostaticProp MP; typedef CurrentDensityProp CP; typedef Vector V;
static inline bool near(V a, V b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)) < 1e-9; }
bool impl_vec_eq(V a, V b) { return a == b; }
bool spec_vec_eq(V a, V b) { return near(a, b); }
bool impl_vec_ne(V a, V b) { return a != b; }
bool spec_vec_ne(V a, V b) { return !near(a, b); }
static inline bool sameseg(Segment a, Segment b) { return (near(a.p1, b.p1) && near(a.p2, b.p2)) || (near(a.p1, b.p2) && near(a.p2, b.p1)); }
bool impl_seg_eq(Segment& a, Segment& b) { return a == b; }
bool spec_seg_eq(Segment& a, Segment& b) { return sameseg(a, b); }
bool impl_seg_ne(Segment& a, Segment& b) { return a != b; }
bool spec_seg_ne(Segment& a, Segment& b) { return !sameseg(a, b); }
bool impl_circle_eq(Circle& a, Circle& b) { return a == b; }
bool spec_circle_eq(Circle& a, Circle& b) { return near(a.center, b.center) && a.radius == b.radius; }
bool impl_circle_ne(Circle& a, Circle& b) { return a != b; }
bool spec_circle_ne(Circle& a, Circle& b) { return !(near(a.center, b.center) && a.radius == b.radius); }
static inline bool samepoly(const Polygon& a, const Polygon& b) {
    if (a.points.size() != b.points.size()) return false;
    for (size_t i = 0; i < a.points.size(); i++) if (!near(a.points[i], b.points[i])) return false;
    return true;
}
bool impl_poly_eq(const Polygon& a, const Polygon& b) { size(0, &a.points, 16); size(1, &b.points, 16); return a == b; }
bool spec_poly_eq(const Polygon& a, const Polygon& b) { size(0, &a.points, 16); size(1, &b.points, 16); return samepoly(a, b); }
bool impl_poly_ne(const Polygon& a, const Polygon& b) { size(0, &a.points, 16); size(1, &b.points, 16); return a != b; }
bool spec_poly_ne(const Polygon& a, const Polygon& b) { size(0, &a.points, 16); size(1, &b.points, 16); return !samepoly(a, b); }
static inline bool sameds(DrawingSegment& a, DrawingSegment& b) { return (a.p1 == b.p1 && a.p2 == b.p2) || (a.p1 == b.p2 && a.p2 == b.p1); }
bool impl_ds_eq(DrawingSegment& a, DrawingSegment& b) { return a == b; }
bool spec_ds_eq(DrawingSegment& a, DrawingSegment& b) { return sameds(a, b); }
bool impl_ds_ne(DrawingSegment& a, DrawingSegment& b) { return a != b; }
bool spec_ds_ne(DrawingSegment& a, DrawingSegment& b) { return !sameds(a, b); }
bool impl_bh_eq(BH_Point& a, BH_Point& b) { return a == b; }
bool spec_bh_eq(BH_Point& a, BH_Point& b) { return a.B == b.B && a.H == b.H; }
bool impl_bh_ne(BH_Point& a, BH_Point& b) { return a != b; }
bool spec_bh_ne(BH_Point& a, BH_Point& b) { return !(a.B == b.B && a.H == b.H); }
// the curve is ordered by induction, and its keys are the same when the induction is
bool impl_bh_less(BH_Point& a, BH_Point& b) { return std::less<BH_Point>()(a, b); }
bool spec_bh_less(BH_Point& a, BH_Point& b) { return a.B < b.B; }
bool impl_bh_equal_to(BH_Point& a, BH_Point& b) { return std::equal_to<BH_Point>()(a, b); }
bool spec_bh_equal_to(BH_Point& a, BH_Point& b) { return a.B == b.B; }
static inline bool same(const MP& a, const MP& b) { return a.mu == b.mu && a.J == b.J && near(a.M, b.M) && a.bh_curve == b.bh_curve; }
bool impl_mp_eq(MP& a, MP& b) { return a == b; }
bool spec_mp_eq(MP& a, MP& b) { return same(a, b); }
bool impl_mp_ne(MP& a, MP& b) { return a != b; }
bool spec_mp_ne(MP& a, MP& b) { return !same(a, b); }
bool impl_mp_equal_to(MP& a, MP& b) { return std::equal_to<MP>()(a, b); }
bool spec_mp_equal_to(MP& a, MP& b) { return same(a, b); }
bool impl_cp_eq(CP& a, CP& b) { return a == b; }
bool spec_cp_eq(CP& a, CP& b) { return a.sigma == b.sigma; }
bool impl_cp_ne(CP& a, CP& b) { return a != b; }
bool spec_cp_ne(CP& a, CP& b) { return a.sigma != b.sigma; }
// hashes: a value made of the same fields hashes to the same number
size_t impl_mp_hash(MP& a, MP& b) { return std::hash<MP>()(a); }
size_t spec_mp_hash(MP& a, MP& b) { b.J = a.J; b.mu = a.mu; b.M.x = a.M.x; b.M.y = a.M.y; return std::hash<MP>()(b); }
size_t impl_cp_hash(CP& a, CP& b) { return std::hash<CP>()(a); }
size_t spec_cp_hash(CP& a, CP& b) { b.sigma = a.sigma; return std::hash<CP>()(b); }
size_t impl_vec_hash(V a) { return std::hash<V>()(a); }
size_t spec_vec_hash(V a) { V b(a.x, a.y); return std::hash<V>()(b); }
size_t impl_seg_hash(Segment& s) { return std::hash<Segment>()(s); }
size_t spec_seg_hash(Segment& s) { Segment r(s.p2, s.p1); return std::hash<Segment>()(r); }
}
