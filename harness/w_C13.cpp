// layout witness: does not build when the structure the triangulator writes through differs from the triangulator's own
#include <cstddef>
#include <type_traits>
#include <nikfemm.hpp>
#include <triangle/triangle.h>
using namespace nikfemm;
template <class P> constexpr bool isptr = std::is_pointer_v<P>;
#define PTR(f) static_assert(offsetof(MeshData, f) == offsetof(triangulateio, f), "NVLAYOUT " #f " at another offset"); \
    static_assert(isptr<decltype(MeshData::f)> && isptr<decltype(triangulateio::f)>, "NVLAYOUT " #f " not a pointer")
#define NUM(f) static_assert(offsetof(MeshData, f) == offsetof(triangulateio, f), "NVLAYOUT " #f " at another offset"); \
    static_assert(std::is_same_v<decltype(MeshData::f), decltype(triangulateio::f)>, "NVLAYOUT " #f " of another type")
#define SAME(f) PTR(f); static_assert(std::is_same_v<decltype(MeshData::f), decltype(triangulateio::f)>, "NVLAYOUT " #f " of another element type")
PTR(pointlist); SAME(pointattributelist); SAME(pointmarkerlist); NUM(numberofpoints); NUM(numberofpointattributes);
PTR(trianglelist); SAME(triangleattributelist); SAME(trianglearealist); SAME(neighborlist); NUM(numberoftriangles); NUM(numberofcorners); NUM(numberoftriangleattributes);
SAME(segmentlist); SAME(segmentmarkerlist); NUM(numberofsegments); SAME(holelist); NUM(numberofholes); SAME(regionlist); NUM(numberofregions);
SAME(edgelist); SAME(edgemarkerlist); SAME(normlist); NUM(numberofedges);
static_assert(sizeof(MeshData) >= sizeof(triangulateio), "NVLAYOUT the structure is too short");
static_assert(std::is_standard_layout_v<MeshData> && std::is_standard_layout_v<Vector>, "NVLAYOUT not a C structure");
static_assert(sizeof(*MeshData::pointlist) == 2 * sizeof(TRI_REAL) && offsetof(Vector, x) == 0 && offsetof(Vector, y) == sizeof(TRI_REAL) && std::is_same_v<decltype(Vector::x), TRI_REAL>, "NVLAYOUT a point is not two numbers");
static_assert(sizeof(*MeshData::trianglelist) == 3 * sizeof(int), "NVLAYOUT a triangle is not three node numbers");
