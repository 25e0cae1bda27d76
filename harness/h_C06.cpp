#include "nv.hpp"
typedef std::vector<double> V;
typedef const std::vector<double>& CVR;
namespace nikfemm { void multSSORPreconditioner(const MatCSRSymmetric& A, std::vector<double>& result, const std::vector<double>& cv, double omega); MatCSRLowerTri incompleteCholeskyDecomposition(const MatCSRSymmetric& A); }
namespace nv {
static const double eps = 2.220446049250313e-16;
void dims(const MatCSRSymmetric& A, CVR b, CVR x) { sizeis(&A.diag, A.m, 8); sizeis(&b, A.m, 8); sizeis(&x, A.m, 8); }
void impl_cg(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) { dims(A, b, x); conjugateGradientSolver(A, b, x, e, n); }
void spec_cg(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) {
    dims(A, b, x);
    V r(b.size()), p(b.size()), q(b.size());
    mult(r, A, x);
    double rr = 0;
    for (uint32_t i = 0; i < b.size(); i++) { r[i] = b[i] - r[i]; p[i] = r[i]; rr += r[i] * r[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0;
        for (uint32_t i = 0; i < b.size(); i++) pq += p[i] * q[i];
        if (std::fabs(pq) < eps) pq = eps;
        const double alpha = rr / pq;
        double nr = 0;
        for (uint32_t i = 0; i < b.size(); i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; nr += r[i] * r[i]; }
        if (nr < e * e) return;
        const double beta = nr / rr;
        for (uint32_t i = 0; i < b.size(); i++) p[i] = r[i] + beta * p[i];
        rr = nr;
    }
}

// stopping rule shared by the preconditioned solvers: squared residual below the squared limit
void impl_jacobi(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) { dims(A, b, x); preconditionedJacobiConjugateGradientSolver(A, b, x, e, n); }
void spec_jacobi(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) {
    dims(A, b, x);
    const uint32_t m = A.m;
    V r(m), z(m), p(m), q(m);
    mult(r, A, x);
    double rz = 0;
    for (uint32_t i = 0; i < m; i++) { r[i] = b[i] - r[i]; z[i] = r[i] / A.diag[i]; p[i] = z[i]; rz += r[i] * z[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0;
        for (uint32_t i = 0; i < m; i++) pq += p[i] * q[i];
        double alpha = rz / pq;
        if (std::fabs(alpha) < eps) alpha = eps;
        double rr = 0, nz = 0;
        for (uint32_t i = 0; i < m; i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; rr += r[i] * r[i]; }
        if (rr < e * e) return;
        for (uint32_t i = 0; i < m; i++) { z[i] = r[i] / A.diag[i]; nz += r[i] * z[i]; }
        for (uint32_t i = 0; i < m; i++) p[i] = z[i] + nz / rz * p[i];
        rz = nz;
    }
}
void spec_jacobi__2(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) {
    dims(A, b, x);
    const uint32_t m = A.m;
    V r(m), z(m), p(m), q(m);
    mult(r, A, x);
    for (uint32_t i = 0; i < m; i++) { r[i] = b[i] - r[i]; z[i] = r[i] / A.diag[i]; p[i] = z[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0, rz = 0;
        for (uint32_t i = 0; i < m; i++) { pq += p[i] * q[i]; rz += r[i] * z[i]; }
        double alpha = rz / pq;
        if (std::fabs(alpha) < eps) alpha = eps;
        double rr = 0, nz = 0;
        for (uint32_t i = 0; i < m; i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; rr += r[i] * r[i]; }
        if (rr < e * e) return;
        for (uint32_t i = 0; i < m; i++) { z[i] = r[i] / A.diag[i]; nz += r[i] * z[i]; }
        for (uint32_t i = 0; i < m; i++) p[i] = z[i] + nz / rz * p[i];
    }
}
void impl_ssor(const MatCSRSymmetric& A, CVR b, V& x, double w, double e, uint32_t n) { dims(A, b, x); preconditionedSSORConjugateGradientSolver(A, b, x, w, e, n); }
void spec_ssor(const MatCSRSymmetric& A, CVR b, V& x, double w, double e, uint32_t n) {
    dims(A, b, x);
    const uint32_t m = A.m;
    V r(m), z(m), p(m), q(m);
    mult(r, A, x);
    double rz = 0, rr = 0;
    for (uint32_t i = 0; i < m; i++) { r[i] = b[i] - r[i]; rr += r[i] * r[i]; }
    if (rr < e * e) return;
    multSSORPreconditioner(A, z, r, w);
    for (uint32_t i = 0; i < m; i++) { p[i] = z[i]; rz += r[i] * z[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0;
        for (uint32_t i = 0; i < m; i++) pq += p[i] * q[i];
        double alpha = rz / pq;
        if (std::fabs(alpha) < eps) alpha = eps;
        double rr = 0, nz = 0;
        for (uint32_t i = 0; i < m; i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; rr += r[i] * r[i]; }
        if (rr < e * e) return;
        multSSORPreconditioner(A, z, r, w);
        for (uint32_t i = 0; i < m; i++) nz += r[i] * z[i];
        for (uint32_t i = 0; i < m; i++) p[i] = z[i] + nz / rz * p[i];
        rz = nz;
    }
}
void impl_ic(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) { dims(A, b, x); preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, e, n); }
void spec_ic(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) {
    dims(A, b, x);
    const uint32_t m = A.m;
    V r(m), z(m), p(m), q(m), t(m);
    mult(r, A, x);
    double rz = 0, rr = 0;
    for (uint32_t i = 0; i < m; i++) { r[i] = b[i] - r[i]; rr += r[i] * r[i]; }
    if (rr < e * e) return;
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    mult(t, (MatCSRLowerTri)L, r);
    mult(z, (MatCSRUpperTri)L, t);
    for (uint32_t i = 0; i < m; i++) { p[i] = z[i]; rz += r[i] * z[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0;
        for (uint32_t i = 0; i < m; i++) pq += p[i] * q[i];
        double alpha = rz / pq;
        if (std::fabs(alpha) < eps) alpha = eps;
        double rr = 0, nz = 0;
        for (uint32_t i = 0; i < m; i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; rr += r[i] * r[i]; }
        if (rr < e * e) return;
        mult(t, (MatCSRLowerTri)L, r);
        mult(z, (MatCSRUpperTri)L, t);
        for (uint32_t i = 0; i < m; i++) nz += r[i] * z[i];
        for (uint32_t i = 0; i < m; i++) p[i] = z[i] + nz / rz * p[i];
        rz = nz;
    }
}
void spec_ic__2(const MatCSRSymmetric& A, CVR b, V& x, double e, uint32_t n) {
    dims(A, b, x);
    const uint32_t m = A.m;
    V r(m), z(m), p(m), q(m), t(m);
    mult(r, A, x);
    double rr = 0;
    for (uint32_t i = 0; i < m; i++) { r[i] = b[i] - r[i]; rr += r[i] * r[i]; }
    if (rr < e * e) return;
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    mult(t, (MatCSRLowerTri)L, r);
    mult(z, (MatCSRUpperTri)L, t);
    for (uint32_t i = 0; i < m; i++) { p[i] = z[i]; }
    for (uint32_t k = 0; k < n; k++) {
        mult(q, A, p);
        double pq = 0, rz = 0;
        for (uint32_t i = 0; i < m; i++) { pq += p[i] * q[i]; rz += r[i] * z[i]; }
        double alpha = rz / pq;
        if (std::fabs(alpha) < eps) alpha = eps;
        double rr = 0, nz = 0;
        for (uint32_t i = 0; i < m; i++) { x[i] += alpha * p[i]; r[i] -= alpha * q[i]; rr += r[i] * r[i]; }
        if (rr < e * e) return;
        mult(t, (MatCSRLowerTri)L, r);
        mult(z, (MatCSRUpperTri)L, t);
        for (uint32_t i = 0; i < m; i++) nz += r[i] * z[i];
        for (uint32_t i = 0; i < m; i++) p[i] = z[i] + nz / rz * p[i];
    }
}
// z = (D/w' + L)^-1 D (D/w' + U)^-1 form of the SSOR preconditioner, by substitution in place
void spec_precond(const MatCSRSymmetric& A, V& y, CVR x, double w) {
    for (uint32_t i = 0; i < A.m; i++) y[i] = x[i] * w * (2 - w);
    for (uint32_t i = 0; i < A.m; i++) {
        y[i] = y[i] / A.diag[i];
        for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) y[A.col_ind[k]] -= w * A.val[k] * y[i];
    }
    for (uint32_t i = 0; i < A.m; i++) y[i] *= A.diag[i];
    for (int64_t i = A.m - 1; i >= 0; i--) {
        double s = y[i];
        for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) s -= w * A.val[k] * y[A.col_ind[k]];
        y[i] = s / A.diag[i];
    }
}
void spec_precond__2(const MatCSRSymmetric& A, V& y, CVR x, double w) {
    for (uint32_t i = 0; i < A.m; i++) y[i] = x[i] * w * (2 - w);
    for (uint32_t i = 0; i < A.m; i++) {
        y[i] /= A.diag[i];
        for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) y[A.col_ind[k]] -= w * A.val[k] * y[i];
    }
    for (uint32_t i = 0; i < A.m; i++) y[i] *= A.diag[i];
    for (int64_t i = A.m - 1; i >= 0; i--) {
        for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) y[i] -= w * A.val[k] * y[A.col_ind[k]];
        y[i] /= A.diag[i];
    }
}
}
