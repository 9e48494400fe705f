#include "ceres/jet.h"
using namespace ceres;
typedef Jet<double, 3> J;
extern "C" {
#define UN(F) void w_##F(const J* x, J* r) { *r = F(*x); }
UN(abs) UN(log) UN(log10) UN(log1p) UN(exp) UN(expm1) UN(sqrt) UN(cos) UN(acos) UN(sin) UN(asin) UN(tan) UN(atan)
UN(sinh) UN(cosh) UN(tanh) UN(floor) UN(ceil) UN(cbrt) UN(exp2) UN(log2) UN(erf) UN(erfc) UN(norm)
UN(BesselJ0) UN(BesselJ1)
void w_BesselJn(int n, const J* x, J* r) { *r = BesselJn(n, *x); }
void w_cylj(double v, const J* x, J* r) { *r = cyl_bessel_j(v, *x); }
#define BI(F) void w_##F(const J* x, const J* y, J* r) { *r = F(*x, *y); }
BI(hypot) BI(atan2) BI(pow) BI(fmax) BI(fmin) BI(fdim) BI(copysign)
void w_fmax_s(const J* x, double y, J* r) { *r = fmax(*x, y); }
void w_fmin_s(double x, const J* y, J* r) { *r = fmin(x, *y); }
void w_fdim_s(const J* x, double y, J* r) { *r = fdim(*x, y); }
void w_fdim_t(double x, const J* y, J* r) { *r = fdim(x, *y); }
void w_hypot3(const J* x, const J* y, const J* z, J* r) { *r = hypot(*x, *y, *z); }
void w_fma(const J* x, const J* y, const J* z, J* r) { *r = fma(*x, *y, *z); }
void w_pow_s(const J* x, double y, J* r) { *r = pow(*x, y); }
void w_pow_t(double x, const J* y, J* r) { *r = pow(x, *y); }
#define OP(N, O)                                                          \
  void w_##N(const J* x, const J* y, J* r) { *r = *x O *y; }              \
  void w_##N##_s(const J* x, double y, J* r) { *r = *x O y; }             \
  void w_##N##_t(double x, const J* y, J* r) { *r = x O *y; }             \
  void w_##N##_c(const J* x, const J* y, J* r) { J t = *x; t O##= *y; *r = t; }   \
  void w_##N##_cs(const J* x, double y, J* r) { J t = *x; t O##= y; *r = t; }     \
  void w_##N##_a(J* x) { *x O##= *x; }
OP(add, +) OP(sub, -) OP(mul, *) OP(div, /)
void w_neg(const J* x, J* r) { *r = -*x; }
void w_pos(const J* x, J* r) { *r = +*x; }
void w_ctor(double a, J* r) { *r = J(a); }
void w_ctor0(J* r) { *r = J(); }
void w_ctor_k(double a, int k, J* r) { *r = J(a, k); }
#define CMP(N, O) int w_##N(const J* x, const J* y) { return *x O *y; } int w_##N##_s(const J* x, double y) { return *x O y; } \
  int w_##N##_t(double x, const J* y) { return x O *y; }
CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=) CMP(eq, ==) CMP(ne, !=)
#define FC(F) int w_##F(const J* x, const J* y) { return F(*x, *y); }
FC(isless) FC(isgreater) FC(islessequal) FC(isgreaterequal) FC(islessgreater)
int w_signbit(const J* x) { return signbit(*x); }
#if __cplusplus > 201703L
void w_lerp(const J* x, const J* y, const J* z, J* r) { *r = lerp(*x, *y, *z); }
void w_midpoint(const J* x, const J* y, J* r) { *r = midpoint(*x, *y); }
#endif
int w_limits() {
  using L = std::numeric_limits<J>; using D = std::numeric_limits<double>;
  return (L::is_specialized == D::is_specialized) + (L::is_signed == D::is_signed) + (L::is_integer == D::is_integer) +
    (L::is_exact == D::is_exact) + (L::has_infinity == D::has_infinity) + (L::has_quiet_NaN == D::has_quiet_NaN) +
    (L::has_signaling_NaN == D::has_signaling_NaN) + (L::is_iec559 == D::is_iec559) + (L::is_bounded == D::is_bounded) +
    (L::is_modulo == D::is_modulo) + (L::has_denorm == D::has_denorm) + (L::round_style == D::round_style) +
    (L::digits == D::digits) + (L::digits10 == D::digits10) + (L::max_digits10 == D::max_digits10) + (L::radix == D::radix) +
    (L::min_exponent == D::min_exponent) + (L::min_exponent10 == D::min_exponent10) + (L::max_exponent == D::max_exponent) +
    (L::max_exponent10 == D::max_exponent10) + (L::traps == D::traps) + (L::tinyness_before == D::tinyness_before) +
    (L::min().a == D::min()) + (L::lowest().a == D::lowest()) + (L::epsilon().a == D::epsilon()) +
    (L::round_error().a == D::round_error()) + (L::infinity().a == D::infinity()) + (L::denorm_min().a == D::denorm_min()) +
    (L::max().a == D::max()) + (L::quiet_NaN().a != L::quiet_NaN().a);
}
}
