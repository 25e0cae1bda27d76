#include "nv.hpp"
namespace nv {
#define SZ3 size(0,&r,8); size(0,&a,8); size(0,&b,8)
#define SZ2 size(0,&r,8); size(0,&a,8)
#define FOR for (size_t i = 0; i < r.size(); ++i)
// vector (op) vector, distinct operands and both aliasings, and fully aliased
#define VEC(NAME, CALL, EXPR) \
void impl_##NAME(VV& r, CV& a, CV& b) { SZ3; CALL(r, a, b); } \
void spec_##NAME(VV& r, CV& a, CV& b) { SZ3; FOR { double x = a[i], y = b[i]; r[i] = EXPR; } } \
void impl_##NAME##_left(VV& r, CV& b) { CV& a = r; SZ3; CALL(r, r, b); } \
void spec_##NAME##_left(VV& r, CV& b) { CV& a = r; SZ3; FOR { double x = r[i], y = b[i]; r[i] = EXPR; } } \
void impl_##NAME##_right(VV& r, CV& a) { CV& b = r; SZ3; CALL(r, a, r); } \
void spec_##NAME##_right(VV& r, CV& a) { CV& b = r; SZ3; FOR { double x = a[i], y = r[i]; r[i] = EXPR; } } \
void impl_##NAME##_both(VV& r) { size(0,&r,8); CALL(r, r, r); } \
void spec_##NAME##_both(VV& r) { size(0,&r,8); FOR { double x = r[i], y = x; r[i] = EXPR; } }
VEC(add, add, x + y)
VEC(sub, sub, x - y)
VEC(mul, mult, x * y)
VEC(div, div, x / y)
// vector (op) scalar
#define SCA(NAME, CALL, EXPR) \
void impl_##NAME(VV& r, CV& a, double d) { SZ2; CALL; } \
void spec_##NAME(VV& r, CV& a, double d) { SZ2; FOR { double x = a[i]; r[i] = EXPR; } } \
void impl_##NAME##_alias(VV& r, double d) { CV& a = r; SZ2; CALL; } \
void spec_##NAME##_alias(VV& r, double d) { CV& a = r; SZ2; FOR { double x = r[i]; r[i] = EXPR; } }
SCA(add_scalar, add(r, a, d), x + d)
SCA(sub_scalar, sub(r, a, d), x - d)
SCA(mul_scalar, mult(r, d, a), x * d)
SCA(div_scalar, div(r, a, d), x / d)
void impl_copy(VV& r, CV& a) { SZ2; copy(r, a); }
void spec_copy(VV& r, CV& a) { SZ2; FOR r[i] = a[i]; }
void impl_copy_alias(VV& r) { size(0,&r,8); copy(r, r); }
void spec_copy_alias(VV& r) { }
#define AS(NAME, R, A, B, SIG, SZ) \
void impl_addScaled##NAME SIG { SZ; addScaled(R, A, d, B); } \
void spec_addScaled##NAME SIG { SZ; FOR { double x = A[i], y = B[i]; R[i] = x + d * y; } }
AS(, r, a, b, (VV& r, CV& a, double d, CV& b), SZ3)
AS(_left, r, r, b, (VV& r, double d, CV& b), size(0,&r,8); size(0,&b,8))
AS(_right, r, a, r, (VV& r, CV& a, double d), SZ2)
AS(_both, r, r, r, (VV& r, double d), size(0,&r,8))
// reductions
double impl_dot(CV& a, CV& b) { size(0,&a,8); size(0,&b,8); return dot(a, b); }
double spec_dot(CV& a, CV& b) { size(0,&a,8); size(0,&b,8); double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double impl_dot_self(CV& a) { size(0,&a,8); return dot(a, a); }
double spec_dot_self(CV& a) { size(0,&a,8); double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * a[i]; return s; }
double impl_squareSum(CV& a) { size(0,&a,8); return squareSum(a); }
double spec_squareSum(CV& a) { size(0,&a,8); double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * a[i]; return s; }
double impl_norm(CV& a) { size(0,&a,8); return norm(a); }
double spec_norm(CV& a) { size(0,&a,8); double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * a[i]; return std::sqrt(s); }
void impl_element_wise_norm(VV* out, std::vector<Vector>& a) { size(0,&a,16); VV r = element_wise_norm(a); for (size_t i = 0; i < r.size(); ++i) (*out)[i] = r[i]; }
void spec_element_wise_norm(VV* out, std::vector<Vector>& a) { size(0,&a,16); for (size_t i = 0; i < a.size(); ++i) (*out)[i] = std::sqrt(a[i].x * a[i].x + a[i].y * a[i].y); }
size_t impl_element_wise_norm_size(std::vector<Vector>& a) { size(0,&a,16); return element_wise_norm(a).size(); }
size_t spec_element_wise_norm_size(std::vector<Vector>& a) { size(0,&a,16); return a.size(); }
bool impl_isnan_vec(CV& a) { size(0,&a,8); return nikfemm::isnan(a); }
bool spec_isnan_vec(CV& a) { size(0,&a,8); bool f = false; for (size_t i = 0; i < a.size(); ++i) f = f || std::isnan(a[i]); return f; }
bool impl_isnan_mat(const MatCSRSymmetric& m) { size(0,&m.val,8); size(1,&m.diag,8); return nikfemm::isnan(m); }
bool spec_isnan_mat(const MatCSRSymmetric& m) { size(0,&m.val,8); size(1,&m.diag,8); bool f = false, g = false;
    for (size_t i = 0; i < m.val.size(); ++i) f = f || std::isnan(m.val[i]);
    for (size_t i = 0; i < m.diag.size(); ++i) g = g || std::isnan(m.diag[i]);
    return f || g; }
bool impl_isnan(double a) { return nikfemm::isnan(a); }
bool spec_isnan(double a) { return std::isnan(a); }
}
