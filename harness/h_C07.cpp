#include "nv.hpp"
namespace nv {
void impl_dirichlet(System<double>& s, uint32_t id, double value) { s.addDirichletBoundaryCondition(id, value); }
void spec_dirichlet(System<double>& s, uint32_t id, double value) {
    for (auto it = s.A.elems.begin(); it != s.A.elems.end(); ++it) {
        const uint32_t row = it->first >> 32, col = (uint32_t)it->first;
        if (row == col) continue;
        if (row == id) { s.b[col] -= it->second * value; it->second = 0; }
        else if (col == id) { s.b[row] -= it->second * value; it->second = 0; }
    }
    s.A(id, id) = 1;
    s.b[id] = value;
}
}
