#include "nv.hpp"
namespace nv {
typedef NonLinearExpression E; typedef NonLinearTerm NT;
void impl_set_const(E& e, double c) { e = c; }
void spec_set_const(E& e, double c) { e.constant = c; e.terms.clear(); }
void impl_set(E& e, const E& o) { size(0, &o.terms, 16); e = o; }
void spec_set(E& e, const E& o) { size(0, &o.terms, 16); e.constant = o.constant; e.terms = o.terms; }
void impl_add_const(E& e, double c) { e += c; }
void spec_add_const(E& e, double c) { e.constant = e.constant + c; }
void impl_sub_const(E& e, double c) { e -= c; }
void spec_sub_const(E& e, double c) { e.constant = e.constant - c; }
void impl_add_term(E& e, const NT& t) { size(0, &e.terms, 16); e += t; }
void spec_add_term(E& e, const NT& t) { size(0, &e.terms, 16); e.terms.push_back(NT{t.linear_coefficient, t.nonlinear_coefficient_element_index}); }
void impl_sub_term(E& e, const NT& t) { size(0, &e.terms, 16); e -= t; }
void spec_sub_term(E& e, const NT& t) { size(0, &e.terms, 16); e.terms.push_back(NT{-t.linear_coefficient, t.nonlinear_coefficient_element_index}); }
void impl_add(E& e, const E& o) { size(0, &e.terms, 16); size(1, &o.terms, 16); e += o; }
void spec_add(E& e, const E& o) { size(0, &e.terms, 16); size(1, &o.terms, 16); e.constant += o.constant; for (size_t k = 0; k < o.terms.size(); k++) e.terms.push_back(o.terms[k]); }
void impl_sub(E& e, const E& o) { size(0, &e.terms, 16); size(1, &o.terms, 16); e -= o; }
void spec_sub(E& e, const E& o) { size(0, &e.terms, 16); size(1, &o.terms, 16); e.constant -= o.constant; for (size_t k = 0; k < o.terms.size(); k++) e.terms.push_back(NT{-o.terms[k].linear_coefficient, o.terms[k].nonlinear_coefficient_element_index}); }
void impl_times(E& e, double c, E* out) { size(0, &e.terms, 16); *out = e * c; }
void spec_times(E& e, double c, E* out) {
    size(0, &e.terms, 16);
    E r; r.constant = c * e.constant;
    for (size_t k = 0; k < e.terms.size(); k++) r.terms.push_back(NT{c * e.terms[k].linear_coefficient, e.terms[k].nonlinear_coefficient_element_index});
    *out = r;
}
bool impl_islinear(E& e) { return e.isLinear(); }
bool spec_islinear(E& e) { return e.terms.empty(); }
double impl_evaluate(E& e, std::vector<double>& mu) { size(0, &e.terms, 16); return e.evaluate(mu); }
double spec_evaluate(E& e, std::vector<double>& mu) {
    size(0, &e.terms, 16);
    double s = 0;
    for (size_t k = 0; k < e.terms.size(); k++) s += e.terms[k].linear_coefficient / mu[e.terms[k].nonlinear_coefficient_element_index];
    return e.constant + s;
}
// every stored number of the matrix is re-evaluated from its own expression
void impl_matevaluate(NonLinearMatCSRSymmetric& A, std::vector<double>& mu) { A.evaluate(mu); }
void spec_matevaluate(NonLinearMatCSRSymmetric& A, std::vector<double>& mu) {
    for (uint32_t i = 0; i < A.m; i++) A.diag[i] = A.diag_expr[i]->evaluate(mu);
    for (uint32_t i = 0; i < A.nnz; i++) A.val[i] = A.expr[i]->evaluate(mu);
}
void impl_solve(MagnetostaticSimulation& s, System<NonLinearExpression>& sys, std::vector<double>* out) { *out = s.solve(sys); }
void spec_solve(MagnetostaticSimulation& s, System<NonLinearExpression>& sys, std::vector<double>* out) {
    const uint32_t nt = s.mesh.data.numberoftriangles;
    std::vector<double> A(s.mesh.data.numberofpoints), mu(nt, 0), b(sys.b.size());
    std::vector<const MagnetostaticProp*> props(nt);
    for (uint32_t t = 0; t < nt; t++) props[t] = s.mesh.drawing.getRegionPtrFromId(s.mesh.data.triangleattributelist[t]);
    NonLinearMatCSRSymmetric K(sys.A);
    for (uint32_t t = 0; t < nt; t++) mu[t] = props[t]->getMu(0);
    K.evaluate(mu);
    for (uint32_t i = 0; i < sys.b.size(); i++) b[i] = sys.b[i].evaluate(mu);
    bool linear = true;
    for (uint32_t t = 0; t < nt; t++) if (!props[t]->isLinear()) { linear = false; break; }
    if (linear) preconditionedSSORConjugateGradientSolver(K, b, A, 1.5, 1e-6, 100000);
    else {
        std::vector<double> r(sys.b.size());
        double residual = 1e10;
        for (uint32_t i = 0; i < 500; i++) {
            preconditionedSSORConjugateGradientSolver(K, b, A, 1.5, 1e-7, 50);
            std::vector<Vector> B = s.mesh.computeCurl(A);
            MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
            K.evaluate(mu);
            for (uint32_t k = 0; k < sys.b.size(); k++) b[k] = sys.b[k].evaluate(mu);
            mult(r, K, A);
            nikfemm::sub(r, b, r);
            residual = norm(r);
            if (residual < 1e-7) break;
        }
    }
    *out = A;
}
}
