#include "nv.hpp"
namespace nv {
using Coo = MatCOOSymmetric<double>; using CooN = MatCOOSymmetric<NonLinearExpression>;
double& impl_cell(Coo& m, uint32_t i, uint32_t j) { return m(i, j); }
double& spec_cell(Coo& m, uint32_t i, uint32_t j) { if (i > j) nexit(""); return m.elems[(uint64_t)i << 32 | j]; }
void impl_coo_new(uint32_t n, Coo* o) { Coo m(n); *o = m; }
void spec_coo_new(uint32_t n, Coo* o) { o->elems = std::unordered_map<uint64_t, double>(); o->m = n; }
// linear matrices
void impl_csr(Coo& coo, BaseCSR* o) { *o = BaseCSR(coo); }
void spec_csr(Coo& coo, BaseCSR* o) {
    std::vector<std::pair<uint64_t, double>> e(coo.elems.begin(), coo.elems.end());
    std::sort(e.begin(), e.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
    const uint32_t n = coo.m, nnz = e.size() - n;
    BaseCSR c;
    c.m = n; c.nnz = nnz;
    c.row_ptr = std::vector<uint32_t>(n + 1, 0); c.col_ind = std::vector<uint32_t>(nnz); c.val = std::vector<double>(nnz); c.diag = std::vector<double>(n);
    uint32_t k = 0;
    for (size_t q = 0; q < e.size(); q++) {
        const uint32_t row = e[q].first >> 32, col = (uint32_t)e[q].first;
        if (row == col) c.diag[row] = e[q].second;
        else { c.col_ind[k] = col; c.val[k] = e[q].second; c.row_ptr[row + 1] += 1; k++; }
    }
    for (uint32_t r = 0; r < n; r++) c.row_ptr[r + 1] += c.row_ptr[r];
    *o = c;
}
void spec_csr__2(Coo& coo, BaseCSR* o) {
    std::vector<std::pair<uint64_t, double>> e(coo.elems.begin(), coo.elems.end());
    std::sort(e.begin(), e.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
    const uint32_t n = coo.m, nnz = e.size() - n;
    BaseCSR c;
    c.m = n; c.nnz = nnz;
    c.row_ptr = std::vector<uint32_t>(n + 1, 0); c.col_ind = std::vector<uint32_t>(nnz); c.val = std::vector<double>(nnz); c.diag = std::vector<double>(n);
    uint32_t k = 0;
    for (size_t q = 0; q < e.size(); q++) {
        const uint32_t row = e[q].first >> 32, col = (uint32_t)e[q].first;
        if (row == col) c.diag[row] = e[q].second;
        else { c.col_ind[k] = col; c.val[k] = e[q].second; c.row_ptr[row + 1] += 1; k++; }
    }
    uint32_t t = 0;
    for (uint32_t r = 0; r < n; r++) { t += c.row_ptr[r + 1]; c.row_ptr[r + 1] = t; }
    *o = c;
}
// nonlinear matrices
struct Out { uint32_t m, nnz; std::vector<uint32_t> row_ptr, col_ind; std::vector<double> val, diag; std::vector<NonLinearExpression*> expr, diag_expr; };
void impl_csr_nonlinear(CooN& coo, Out* o) { NonLinearMatCSRSymmetric m(coo);
    o->m = m.m; o->nnz = m.nnz; o->row_ptr = m.row_ptr; o->col_ind = m.col_ind; o->val = m.val; o->diag = m.diag; o->expr = m.expr; o->diag_expr = m.diag_expr; }
void spec_csr_nonlinear(CooN& coo, Out* o) {
    std::vector<uint64_t> keys(coo.elems.size());
    size_t p = 0;
    for (auto& e : coo.elems) keys[p++] = e.first;
    std::sort(keys.begin(), keys.end());
    const uint32_t n = coo.m, nnz = coo.elems.size() - n;
    Out c;
    c.m = n; c.nnz = nnz;
    c.row_ptr = std::vector<uint32_t>(n + 1, 0); c.col_ind = std::vector<uint32_t>(nnz); c.val = std::vector<double>(nnz); c.diag = std::vector<double>(n);
    c.expr = std::vector<NonLinearExpression*>(nnz); c.diag_expr = std::vector<NonLinearExpression*>(n);
    uint32_t k = 0;
    for (auto key : keys) {
        const uint32_t row = key >> 32, col = (uint32_t)key;
        if (row == col) c.diag_expr[row] = &coo.elems[key];
        else { c.col_ind[k] = col; c.expr[k] = &coo.elems[key]; c.row_ptr[row + 1] += 1; k++; }
    }
    for (uint32_t r = 0; r < n; r++) c.row_ptr[r + 1] += c.row_ptr[r];
    *o = c;
}
void spec_csr_nonlinear__2(CooN& coo, Out* o) {
    std::vector<uint64_t> keys(coo.elems.size());
    size_t p = 0;
    for (auto& e : coo.elems) keys[p++] = e.first;
    std::sort(keys.begin(), keys.end());
    const uint32_t n = coo.m, nnz = coo.elems.size() - n;
    Out c;
    c.m = n; c.nnz = nnz;
    c.row_ptr = std::vector<uint32_t>(n + 1, 0); c.col_ind = std::vector<uint32_t>(nnz); c.val = std::vector<double>(nnz); c.diag = std::vector<double>(n);
    c.expr = std::vector<NonLinearExpression*>(nnz); c.diag_expr = std::vector<NonLinearExpression*>(n);
    uint32_t k = 0;
    for (auto key : keys) {
        const uint32_t row = key >> 32, col = (uint32_t)key;
        if (row == col) c.diag_expr[row] = &coo.elems[key];
        else { c.col_ind[k] = col; c.expr[k] = &coo.elems[key]; c.row_ptr[row + 1] += 1; k++; }
    }
    uint32_t tot = 0;
    for (uint32_t r = 0; r < n; r++) { tot += c.row_ptr[r + 1]; c.row_ptr[r + 1] = tot; }
    *o = c;
}
static void sized(const NonLinearMatCSRSymmetric& m) { sizeis(&m.diag, m.m, 8); sizeis(&m.diag_expr, m.m, 8); sizeis(&m.val, m.nnz, 8); sizeis(&m.expr, m.nnz, 8); }
void impl_csr_evaluate(NonLinearMatCSRSymmetric& m, std::vector<double>& mu) { sized(m); m.evaluate(mu); }
void spec_csr_evaluate(NonLinearMatCSRSymmetric& m, std::vector<double>& mu) {
    sized(m);
    for (uint32_t i = 0; i < m.m; i++) m.diag[i] = m.diag_expr[i]->evaluate(mu);
    for (uint32_t i = 0; i < m.nnz; i++) m.val[i] = m.expr[i]->evaluate(mu);
}
// copies and element access
void impl_csr_copy(const BaseCSR& a, BaseCSR* o) { BaseCSR c(a); *o = c; }
void spec_csr_copy(const BaseCSR& a, BaseCSR* o) { o->m = a.m; o->nnz = a.nnz; o->row_ptr = a.row_ptr; o->col_ind = a.col_ind; o->val = a.val; o->diag = a.diag; }
double spec_csr_at(const BaseCSR& a, uint32_t i, uint32_t j) {
    if (i == j) return a.diag[i];
    if (i > j) return a(j, i);
    for (uint32_t k = a.row_ptr[i]; k < a.row_ptr[i + 1]; k++) if (a.col_ind[k] == j) return a.val[k];
    return 0;
}
double spec_csr_at__2(const BaseCSR& a, uint32_t i, uint32_t j) {
    if (i == j) return a.diag[i];
    const uint32_t r = std::min(i, j), c = std::max(i, j);
    for (uint32_t k = a.row_ptr[r]; k < a.row_ptr[r + 1]; k++) if (a.col_ind[k] == c) return a.val[k];
    return 0;
}
}
