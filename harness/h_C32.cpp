#include "nv.hpp"
namespace nv {
typedef Drawing<double> D;
// the angle at the corner where two segments meet
static inline __attribute__((always_inline)) double cornerangle(const D& d, const DrawingSegment& a, const DrawingSegment& b) {
    const Vector p1 = d.points[a.p1], p2 = d.points[a.p2], p3 = d.points[b.p1], p4 = d.points[b.p2];
    double angle;
    if (p1 == p3) angle = Vector::absoluteAngle(p2, p1, p4);
    else if (p1 == p4) angle = Vector::absoluteAngle(p2, p1, p3);
    else if (p2 == p3) angle = Vector::absoluteAngle(p1, p2, p4);
    else if (p2 == p4) angle = Vector::absoluteAngle(p1, p2, p3);
    else nexit("");
    return angle;
}
// the same, in place: the compiler arranges flagged loops differently around an inlined call
#define CORNER(hit) { const Vector p1 = d.points[at[j].p1], p2 = d.points[at[j].p2], p3 = d.points[at[k].p1], p4 = d.points[at[k].p2]; \
    double angle; \
    if (p1 == p3) angle = Vector::absoluteAngle(p2, p1, p4); \
    else if (p1 == p4) angle = Vector::absoluteAngle(p2, p1, p3); \
    else if (p2 == p3) angle = Vector::absoluteAngle(p1, p2, p4); \
    else if (p2 == p4) angle = Vector::absoluteAngle(p1, p2, p3); \
    else nexit(""); \
    if (angle < PI * (120.0 / 180.0)) hit }
static inline __attribute__((always_inline)) bool small(const D& d, const DrawingSegment& a, const DrawingSegment& b) { return cornerangle(d, a, b) < PI * (120.0 / 180.0); }
// two of the segments that meet in a corner make an angle of less than 120 degrees
static bool narrow(const D& d, const std::vector<DrawingSegment>& at) {
    for (uint32_t j = 0; j < at.size(); j++)
        for (uint32_t k = j + 1; k < at.size(); k++) if (small(d, at[j], at[k])) return true;
    return false;
}
// 18 points on a small circle around the corner: those inside a body and not close to one of the corner's segments
static inline __attribute__((always_inline)) void around(D& d, uint32_t i, double r, const std::vector<DrawingSegment>& at, const Vector* c = nullptr) {
    for (uint32_t j = 0; j < 18; j++) {
        const double a = j * M_PI / 9;
        const Vector p((c ? c->x : d.points[i].x) + r * cos(a), (c ? c->y : d.points[i].y) + r * sin(a));
        bool close = false, inside = false;
        for (uint32_t k = 0; k < at.size(); k++)
            if (Segment::pointSegmentDistance(p, Segment(d.points[at[k].p1], d.points[at[k].p2])) < r / 2) { close = true; break; }
        for (const Polygon& q : d.polygons) if (q.contains(p)) { inside = true; break; }
        if (!close && inside) d.points.push_back(p);
    }
}
void impl_corners(D& d) { d.addRefiningPoints(); }
void spec_corners(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        for (uint32_t j = 0; j < at.size(); j++)
            for (uint32_t k = j + 1; k < at.size(); k++) if (small(d, at[j], at[k])) goto add;
        continue;
        add:
        around(d, i, r, at);
    }
}
void spec_corners__2(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        if (narrow(d, at)) around(d, i, r, at);
    }
}
void spec_corners__3(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        bool tight = false;
        for (uint32_t j = 0; j < at.size() && !tight; j++)
            for (uint32_t k = j + 1; k < at.size(); k++) CORNER({ tight = true; break; })
        if (tight) around(d, i, r, at);
    }
}
void spec_corners__4(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        bool tight = false;
        for (uint32_t j = 0; j < at.size(); j++)
            for (uint32_t k = j + 1; k < at.size(); k++) CORNER(tight = true;)
        if (tight) around(d, i, r, at);
    }
}
void spec_corners__5(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        bool tight = false;
        for (uint32_t j = 0; j < at.size(); j++)
            for (uint32_t k = j + 1; k < at.size(); k++) CORNER({ tight = true; break; })
        if (tight) around(d, i, r, at);
    }
}
void spec_corners__8(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        const Vector c = d.points[i];
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        for (uint32_t j = 0; j < at.size(); j++)
            for (uint32_t k = j + 1; k < at.size(); k++) if (small(d, at[j], at[k])) goto add;
        continue;
        add:
        around(d, i, r, at, &c);
    }
}
void spec_corners__9(D& d) {
    const double r = d.getCurrentEpsilon() / 100;
    const uint32_t n = d.points.size();
    for (uint32_t i = 0; i < n; i++) {
        const Vector c = d.points[i];
        std::vector<DrawingSegment> at;
        for (const DrawingSegment& s : d.segments) if (s.p1 == i || s.p2 == i) at.push_back(s);
        if (narrow(d, at)) around(d, i, r, at, &c);
    }
}
}
