#include "nv.hpp"
namespace nv {
#define SZ sizeis(&b.row_ptr, b.m + 1ul, 4); sizeis(&b.diag, b.m, 8); sizeis(&b.col_ind, b.nnz, 4); sizeis(&b.val, b.nnz, 8); sizeis(&r, b.m, 8); sizeis(&x, b.m, 8)
#define DIAG for (uint32_t i = 0; i < b.m; ++i) r[i] = b.diag[i] * x[i]
#define UPPER for (uint32_t i = 0; i < b.m; ++i) for (uint32_t k = b.row_ptr[i]; k < b.row_ptr[i + 1]; ++k) r[i] += b.val[k] * x[b.col_ind[k]]
#define LOWER for (uint32_t i = 0; i < b.m; ++i) for (uint32_t k = b.row_ptr[i]; k < b.row_ptr[i + 1]; ++k) r[b.col_ind[k]] += b.val[k] * x[i]
void impl_symmetric(VV& r, const BaseCSR& b, CV& x) { SZ; MatCSRSymmetric m(b); mult(r, m, x); }
void spec_symmetric(VV& r, const BaseCSR& b, CV& x) { SZ; DIAG; UPPER; LOWER; }
void impl_lower(VV& r, const BaseCSR& b, CV& x) { SZ; MatCSRLowerTri m(b); mult(r, m, x); }
void spec_lower(VV& r, const BaseCSR& b, CV& x) { SZ; DIAG; LOWER; }
void impl_upper(VV& r, const BaseCSR& b, CV& x) { SZ; MatCSRUpperTri m(b); mult(r, m, x); }
void spec_upper(VV& r, const BaseCSR& b, CV& x) { SZ; DIAG; UPPER; }
}
