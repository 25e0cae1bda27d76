// the triangulator is replaced by a recorder of everything it would read
#define triangulate nv_triangulate
#include "nv.hpp"
namespace nv { double cap(const void* p); double text(const char* s); double set(double x); int set(int x); const void* set(const void* p); }
struct nv_Rec { double calls, switches, numberofpoints, numberofsegments, numberofpointattributes, numberofholes, numberofregions, room_points, room_segments, room_regions; const void *out, *out_lists[7], *pointmarkerlist, *segmentmarkerlist; };
extern nv_Rec nv_rec; extern double nv_points[], nv_regions[]; extern int nv_segments[];
static void nv_record(const char* sw, const triangulateio* in, const triangulateio* out) {
    nv_rec.calls += 1;
    nv_rec.switches = nv::text(sw);
    nv_rec.numberofpoints = nv::set(in->numberofpoints);
    nv_rec.numberofsegments = nv::set(in->numberofsegments);
    nv_rec.numberofpointattributes = nv::set(in->numberofpointattributes);
    nv_rec.numberofholes = nv::set(in->numberofholes);
    nv_rec.numberofregions = nv::set(in->numberofregions);
    nv_rec.pointmarkerlist = nv::set(in->pointmarkerlist);
    nv_rec.segmentmarkerlist = nv::set(in->segmentmarkerlist);
    nv_rec.room_points = nv::cap(in->pointlist) >= in->numberofpoints * 2.0 * sizeof(TRI_REAL);
    nv_rec.room_segments = nv::cap(in->segmentlist) >= in->numberofsegments * 2.0 * sizeof(int);
    nv_rec.room_regions = nv::cap(in->regionlist) >= in->numberofregions * 4.0 * sizeof(TRI_REAL);
    for (int i = 0; i < in->numberofpoints; i++) { nv_points[2 * i] = in->pointlist[2 * i]; nv_points[2 * i + 1] = in->pointlist[2 * i + 1]; }
    for (int i = 0; i < in->numberofsegments; i++) { nv_segments[2 * i] = in->segmentlist[2 * i]; nv_segments[2 * i + 1] = in->segmentlist[2 * i + 1]; }
    for (int i = 0; i < in->numberofregions; i++) {
        nv_regions[4 * i] = in->regionlist[4 * i]; nv_regions[4 * i + 1] = in->regionlist[4 * i + 1]; nv_regions[4 * i + 2] = in->regionlist[4 * i + 2]; nv_regions[4 * i + 3] = in->regionlist[4 * i + 3];
    }
    nv_rec.out = out;
    nv_rec.out_lists[0] = nv::set(out->pointlist);
    nv_rec.out_lists[1] = nv::set(out->pointattributelist);
    nv_rec.out_lists[2] = nv::set(out->pointmarkerlist);
    nv_rec.out_lists[3] = nv::set(out->trianglelist);
    nv_rec.out_lists[4] = nv::set(out->triangleattributelist);
    nv_rec.out_lists[5] = nv::set(out->segmentlist);
    nv_rec.out_lists[6] = nv::set(out->segmentmarkerlist);
}
void nv_triangulate(char* sw, triangulateio* in, triangulateio* out, triangulateio*) { nv_record(sw, in, out); }
// a material of its own, so that the member functions are instantiated here and nowhere else
struct nv_Prop { double v; bool operator==(const nv_Prop& o) const { return v == o.v; } bool operator!=(const nv_Prop& o) const { return v != o.v; } };
namespace nv {
typedef Mesh<nv_Prop> M;
void impl_handoff(M& m, double area, int angle, bool keep) { m.mesh(area, angle, keep); }
void spec_handoff(M& m, double area, int angle, bool keep) {
    char sw[1000];
    snprintf(sw, sizeof sw, "pzq%dAQ%sa%.17f", angle, keep ? "Y" : "", area);
    nv_rec.calls += 1;
    nv_rec.switches = nv::text(sw);
    nv_rec.numberofpoints = m.drawing.points.size();
    nv_rec.numberofsegments = m.drawing.segments.size();
    nv_rec.numberofpointattributes = 0;
    nv_rec.numberofholes = 0;
    nv_rec.numberofregions = m.drawing.regions.size();
    nv_rec.pointmarkerlist = nullptr;
    nv_rec.segmentmarkerlist = nullptr;
    nv_rec.room_points = nv_rec.room_segments = nv_rec.room_regions = 1;
    for (size_t i = 0; i < m.drawing.points.size(); i++) { nv_points[2 * i] = m.drawing.points[i].x; nv_points[2 * i + 1] = m.drawing.points[i].y; }
    for (size_t i = 0; i < m.drawing.segments.size(); i++) { nv_segments[2 * i] = m.drawing.segments[i].p1; nv_segments[2 * i + 1] = m.drawing.segments[i].p2; }
    for (size_t i = 0; i < m.drawing.regions.size(); i++) {
        nv_regions[4 * i] = m.drawing.regions[i].first.x; nv_regions[4 * i + 1] = m.drawing.regions[i].first.y;
        nv_regions[4 * i + 2] = m.drawing.regions[i].second; nv_regions[4 * i + 3] = 0;
    }
    nv_rec.out = &m.data;
    nv_rec.out_lists[0] = nullptr;
    nv_rec.out_lists[1] = nullptr;
    nv_rec.out_lists[2] = nullptr;
    nv_rec.out_lists[3] = nullptr;
    nv_rec.out_lists[4] = nullptr;
    nv_rec.out_lists[5] = nullptr;
    nv_rec.out_lists[6] = nullptr;
}
}
