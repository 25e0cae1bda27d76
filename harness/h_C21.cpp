#include "nv.hpp"
#include NV_PYMODULE
namespace nv {
typedef nikfemm_MultiLayerCurrentDensitySimulation Py;
void result(PyObject* o);      // what the interpreter is given
bool tuple(PyObject* o, long n);   // o is a tuple of n items
static inline PyObject* arg(PyObject* a, long k) { return PyTuple_GetItem(a, k); }
static inline bool isnum(PyObject* o) { return PyFloat_Check(o) || PyLong_Check(o); }
static inline bool point(PyObject* o) { return PyList_Check(o) && PyList_Size(o) == 2 && isnum(PyList_GetItem(o, 0)) && isnum(PyList_GetItem(o, 1)); }
static inline bool layer(Py* s, PyObject* o) { return PyLong_Check(o) && PyLong_AsUnsignedLong(o) < s->simulation->meshes.size(); }
static inline double number(PyObject* o) { return PyFloat_AsDouble(o); }
static inline Vector vec(PyObject* o) { return Vector(number(PyList_GetItem(o, 0)), number(PyList_GetItem(o, 1))); }
static inline System<double>* sys(PyObject* o) { return ((nikfemm_System*)o)->system; }
static inline bool issys(PyObject* o) { return PyObject_TypeCheck(o, &nikfemm_SystemType) && sys(o) != NULL; }
static inline PyObject* I(uint64_t x) { return PyLong_FromUnsignedLong(x); }
static inline PyObject* D(double x) { return PyFloat_FromDouble(x); }

static inline bool ok_voltage(Py* s, PyObject* a) { return tuple(a, 4) && issys(arg(a, 0)) && point(arg(a, 1)) && isnum(arg(a, 2)) && layer(s, arg(a, 3)); }
void impl_voltage(Py* s, PyObject* a) { assume(ok_voltage(s, a)); result(nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(s, a, NULL)); }
void spec_voltage(Py* s, PyObject* a) { assume(ok_voltage(s, a));
    s->simulation->setVoltage(*sys(arg(a, 0)), vec(arg(a, 1)), number(arg(a, 2)), PyLong_AsUnsignedLong(arg(a, 3)));
    result(Py_None);
}
static inline bool ok_inter(Py* s, PyObject* a) { return tuple(a, 5) && point(arg(a, 0)) && point(arg(a, 1)) && layer(s, arg(a, 2)) && layer(s, arg(a, 3)) && isnum(arg(a, 4)); }
void impl_interconnection(Py* s, PyObject* a) { assume(ok_inter(s, a)); result(nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(s, a, NULL)); }
void spec_interconnection(Py* s, PyObject* a) { assume(ok_inter(s, a));
    CurrentDensityInterconnection c; c.p1 = vec(arg(a, 0)); c.p2 = vec(arg(a, 1)); c.layer1_id = PyLong_AsUnsignedLong(arg(a, 2)); c.layer2_id = PyLong_AsUnsignedLong(arg(a, 3)); c.R = number(arg(a, 4));
    s->simulation->interconnections.push_back(c);
    result(Py_None);
}
static inline bool ok_rect(Py* s, PyObject* a) { return tuple(a, 3) && point(arg(a, 0)) && point(arg(a, 1)) && layer(s, arg(a, 2)); }
void impl_rectangle(Py* s, PyObject* a) { assume(ok_rect(s, a)); result(nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(s, a, NULL)); }
void spec_rectangle(Py* s, PyObject* a) { assume(ok_rect(s, a));
    s->simulation->meshes[PyLong_AsUnsignedLong(arg(a, 2))].drawing.drawRectangle(vec(arg(a, 0)), vec(arg(a, 1)));
    result(Py_None);
}
static inline bool ok_region(Py* s, PyObject* a) { return tuple(a, 3) && point(arg(a, 0)) && PyFloat_Check(arg(a, 1)) && layer(s, arg(a, 2)); }
void impl_region(Py* s, PyObject* a) { assume(ok_region(s, a)); result(nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(s, a, NULL)); }
void spec_region(Py* s, PyObject* a) { assume(ok_region(s, a));
    s->simulation->meshes[PyLong_AsUnsignedLong(arg(a, 2))].drawing.drawRegion(vec(arg(a, 0)), {number(arg(a, 1))});
    result(Py_None);
}
static inline bool ok_polygon(Py* s, PyObject* a) { return tuple(a, 2) && PyList_Check(arg(a, 0)) && layer(s, arg(a, 1)); }
void impl_polygon(Py* s, PyObject* a) { assume(ok_polygon(s, a)); result(nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(s, a, NULL)); }
void spec_polygon(Py* s, PyObject* a) { assume(ok_polygon(s, a));
    std::vector<Vector> v;
    for (long k = 0; k < PyList_Size(arg(a, 0)); k++) { assume(point(PyList_GetItem(arg(a, 0), k))); v.push_back(vec(PyList_GetItem(arg(a, 0), k))); }
    s->simulation->meshes[PyLong_AsUnsignedLong(arg(a, 1))].drawing.drawPolygon(v);
    result(Py_None);
}
// generate_system with 0 to 3 arguments
template <int n> static inline bool ok_generate(PyObject* a) { return tuple(a, n) && (n < 1 || PyBool_Check(arg(a, 0))) && (n < 2 || isnum(arg(a, 1))) && (n < 3 || isnum(arg(a, 2))); }
template <int n> static inline void generated(Py* s, PyObject* a) { assume(ok_generate<n>(a));
    System<double> g = s->simulation->generateSystem(n < 1 || PyLong_AsLong(arg(a, 0)), n < 2 ? 1 : number(arg(a, 1)), n < 3 ? 33 : number(arg(a, 2)));
    nikfemm_System* o = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
    o->system = new System<double>(g);
    auto& m = s->simulation->meshes;
    PyObject* t = PyList_New(m.size());
    uint64_t nodes = 0;
    std::vector<uint64_t> first;
    for (auto& k : m) { first.push_back(nodes); nodes += k.data.numberofpoints; }
    for (uint64_t l = 0; l < m.size(); l++) {
        PyObject* x = PyList_New(m[l].data.numberoftriangles);
        for (uint64_t e = 0; e < m[l].data.numberoftriangles; e++) {
            auto& el = m[l].data.trianglelist[e];
            PyList_SetItem(x, e, Py_BuildValue("(NNN)", I(el[0] + first[l]), I(el[1] + first[l]), I(el[2] + first[l])));
        }
        PyList_SetItem(t, l, x);
    }
    PyObject* v = PyList_New(nodes);
    for (uint64_t l = 0; l < m.size(); l++)
        for (uint64_t k = 0; k < m[l].data.numberofpoints; k++) PyList_SetItem(v, first[l] + k, Py_BuildValue("(NN)", D(m[l].data.pointlist[k].x), D(m[l].data.pointlist[k].y)));
    result(Py_BuildValue("(NNN)", o, t, v));
}
#define GENERATE(n) void impl_generate##n(Py* s, PyObject* a) { assume(ok_generate<n>(a)); result(nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(s, a, NULL)); } \
    void spec_generate##n(Py* s, PyObject* a) { generated<n>(s, a); }
GENERATE(0) GENERATE(1) GENERATE(2) GENERATE(3)
static inline bool ok_solve(PyObject* a) { return tuple(a, 1) && issys(arg(a, 0)); }
void impl_solve(Py* s, PyObject* a) { assume(ok_solve(a)); result(nikfemm_MultiLayerCurrentDensitySimulation_solve(s, a, NULL)); }
void spec_solve(Py* s, PyObject* a) { assume(ok_solve(a));
    VV V = s->simulation->solve(*sys(arg(a, 0)));
    VV P = s->simulation->computePowerDensity(V);
    auto& m = s->simulation->meshes;
    std::vector<uint64_t> node, elem; uint64_t nodes = 0, elems = 0;
    for (auto& k : m) { node.push_back(nodes); nodes += k.data.numberofpoints; }
    for (auto& k : m) { elem.push_back(elems); elems += k.data.numberoftriangles; }
    PyObject* v = PyList_New(V.size()); PyObject* p = PyList_New(P.size()); PyObject* t = PyList_New(elems);
    for (uint64_t l = 0; l < m.size(); l++) {
        for (uint64_t k = 0; k < m[l].data.numberofpoints; k++)
            PyList_SetItem(v, node[l] + k, Py_BuildValue("(NNNN)", I(l), D(m[l].data.pointlist[k].x), D(m[l].data.pointlist[k].y), D(V[node[l] + k])));
        for (uint64_t e = 0; e < m[l].data.numberoftriangles; e++) {
            auto& el = m[l].data.trianglelist[e];
            PyList_SetItem(t, elem[l] + e, Py_BuildValue("(NNNN)", I(l), I(el[0] + node[l]), I(el[1] + node[l]), I(el[2] + node[l])));
            PyList_SetItem(p, elem[l] + e, Py_BuildValue("(NN)", I(l), D(P[elem[l] + e])));
        }
    }
    result(Py_BuildValue("(NNN)", v, t, p));
}

// the simulation a constructor call makes: the thickness of its k-th layer
static inline bool ok_new(PyObject* a, unsigned long k) { return tuple(a, 2) && PyLong_Check(arg(a, 0)) && PyList_Check(arg(a, 1)) && PyList_Size(arg(a, 1)) == PyLong_AsUnsignedLong(arg(a, 0)) && k < PyLong_AsUnsignedLong(arg(a, 0)) && isnum(PyList_GetItem(arg(a, 1), k)); }
void impl_new(PyTypeObject* t, PyObject* a, unsigned long k, double* out) { assume(ok_new(a, k)); *out = ((Py*)nikfemm_MultiLayerCurrentDensitySimulation_new(t, a, NULL))->simulation->meshes[k].depth; }
void spec_new(PyTypeObject* t, PyObject* a, unsigned long k, double* out) { assume(ok_new(a, k));
    const uint32_t n = PyLong_AsUnsignedLong(arg(a, 0));
    MultiLayerCurrentDensitySimulation* s = new MultiLayerCurrentDensitySimulation(n);
    for (uint32_t l = 0; l < n; l++) { PyObject* o = PyList_GetItem(arg(a, 1), l); assume(isnum(o)); s->meshes[l].depth = number(o); }
    *out = s->meshes[k].depth;
}
}
