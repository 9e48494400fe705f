// Run-time contract checks: Jet arithmetic.
#include "rac.h"
#include "ceres/jet.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::note; using rac::ok;
// numerically exact reference: complex-step free, Richardson extrapolated central difference in long double
typedef long double LD;
static LD deriv(const std::function<LD(LD)>& f, LD x) {
  LD h = 1e-4L * (1 + fabsl(x)), t[4];
  for (int k = 0; k < 4; ++k, h /= 2) t[k] = (f(x + h) - f(x - h)) / (2 * h);
  for (int m = 1; m < 4; ++m) for (int k = 3; k >= m; --k) t[k] = t[k] + (t[k] - t[k-1]) / (powl(4, m) - 1);
  return t[3];
}
template <int N> Jet<double, N> jet(double a, const char* n) {
  Jet<double, N> j(a); note(n, a);
  for (int i = 0; i < N; ++i) j.v[i] = rac::tame();
  note("v", j.v.data(), N);
  return j;
}
template <int N> void is(const char* c, const Jet<double, N>& r, double val, const std::vector<std::pair<double, Jet<double, N>>>& t, double tol = 1e-7) {
  close(c, r.a, val, 1e-12);
  for (int i = 0; i < N; ++i) { double w = 0, sc = 0; for (auto& p : t) { w += p.first * p.second.v[i]; sc += std::fabs(p.first * p.second.v[i]); } close((std::string(c) + " derivative").c_str(), r.v[i], w, tol, sc); }
}
template <int N> void dim(const char* nm, long cases) {
  typedef Jet<double, N> J;
  rac::group(nm, cases, [] {
    double a = rac::real(), b = rac::real();
    if (std::fabs(a) > 15) a = std::fmod(a, 15); if (std::fabs(b) > 15) b = std::fmod(b, 15);
    if (std::fabs(a) < 0.02) a = 0.3; if (std::fabs(b) < 0.02) b = -0.7;
    J x = jet<N>(a, "x"), y = jet<N>(b, "y"); double s = b;
    double pa = std::fabs(a), ua = a / (std::fabs(a) + 1.0); J px(pa, x.v), ux(ua, x.v);
#define U1(F, X, Ff) is<N>(#F, F(X), Ff((double)X.a), {{(double)deriv([](LD t) { return (LD)Ff(t); }, X.a), X}});
    U1(sin, x, std::sin) U1(cos, x, std::cos) U1(exp, x, std::exp) U1(expm1, x, std::expm1) U1(atan, x, std::atan) U1(sinh, x, std::sinh)
    U1(cosh, x, std::cosh) U1(tanh, x, std::tanh) U1(exp2, x, std::exp2) U1(erf, x, std::erf) U1(erfc, x, std::erfc) U1(cbrt, px, std::cbrt)
    U1(log, px, std::log) U1(log2, px, std::log2) U1(log10, px, std::log10) U1(log1p, px, std::log1p) U1(sqrt, px, std::sqrt)
    U1(asin, ux, std::asin) U1(acos, ux, std::acos) U1(tan, ux, std::tan) U1(abs, x, std::fabs)
    { J nx(-pa, x.v); is<N>("cbrt of a negative", cbrt(nx), std::cbrt(-pa), {{1 / (3 * std::cbrt(pa * pa)), x}}); is<N>("abs of a negative", abs(nx), pa, {{-1.0, x}}); }
    is<N>("floor", floor(x), std::floor(a), {}); is<N>("ceil", ceil(x), std::ceil(a), {}); is<N>("norm", norm(x), a*a, {{2*a, x}});
    is<N>("BesselJ0", BesselJ0(px), j0(pa), {{-j1(pa), x}}); is<N>("BesselJ1", BesselJ1(px), j1(pa), {{0.5*(j0(pa)-jn(2,pa)), x}});
    { int n = rac::integer(1, 6); is<N>("BesselJn", BesselJn(n, px), jn(n, pa), {{0.5*(jn(n-1,pa)-jn(n+1,pa)), x}}); is<N>("BesselJn(0)", BesselJn(0, px), j0(pa), {{-j1(pa), x}}); is<N>("cyl_bessel_j", cyl_bessel_j((double)n, px), jn(n, pa), {{0.5*(jn(n-1,pa)-jn(n+1,pa)), x}}); }
    is<N>("+", x + y, a + b, {{1, x}, {1, y}}); is<N>("-", x - y, a - b, {{1, x}, {-1, y}}); is<N>("*", x * y, a * b, {{b, x}, {a, y}});
    is<N>("/", x / y, a / b, {{1/b, x}, {-a/b/b, y}}); is<N>("x+s", x + s, a + s, {{1, x}}); is<N>("s+x", s + x, a + s, {{1, x}});
    is<N>("x-s", x - s, a - s, {{1, x}}); is<N>("s-x", s - x, s - a, {{-1, x}}); is<N>("x*s", x * s, a * s, {{s, x}}); is<N>("s*x", s * x, a * s, {{s, x}});
    is<N>("x/s", x / s, a / s, {{1/s, x}}); is<N>("s/x", s / x, s / a, {{-s/a/a, x}}); is<N>("-x", -x, -a, {{-1, x}}); is<N>("+x", +x, a, {{1, x}});
    { J t = x; t += y; is<N>("+=", t, a + b, {{1, x}, {1, y}}); t = x; t -= y; is<N>("-=", t, a - b, {{1, x}, {-1, y}}); t = x; t *= y; is<N>("*=", t, a*b, {{b, x}, {a, y}}); t = x; t /= y; is<N>("/=", t, a/b, {{1/b, x}, {-a/b/b, y}});
      t = x; t *= t; is<N>("x*=x", t, a*a, {{2*a, x}}); t = x; t /= t; is<N>("x/=x", t, 1, {{0, x}}); t = x; t += t; is<N>("x+=x", t, 2*a, {{2, x}}); t = x; t -= t; is<N>("x-=x", t, 0, {});
      t = x; t += s; is<N>("+=s", t, a + s, {{1, x}}); t = x; t -= s; is<N>("-=s", t, a - s, {{1, x}}); t = x; t *= s; is<N>("*=s", t, a*s, {{s, x}}); t = x; t /= s; is<N>("/=s", t, a/s, {{1/s, x}}); }
    double h = std::hypot(a, b); is<N>("hypot", hypot(x, y), h, {{a/h, x}, {b/h, y}});
    J z = jet<N>(rac::tame(), "z"); double h3 = std::sqrt(a*a + b*b + z.a*z.a); is<N>("hypot3", hypot(x, y, z), h3, {{a/h3, x}, {b/h3, y}, {z.a/h3, z}});
    is<N>("fma", fma(x, y, z), std::fma(a, b, z.a), {{b, x}, {a, y}, {1, z}}); is<N>("atan2", atan2(x, y), std::atan2(a, b), {{b/(a*a+b*b), x}, {-a/(a*a+b*b), y}});
    if (std::fabs(b) < 6 && pa < 10) { double p = std::pow(pa, b); is<N>("pow(jet,s)", pow(px, b), p, {{b*std::pow(pa, b-1), x}}); is<N>("pow(s,jet)", pow(pa, y), p, {{p*std::log(pa), y}}); is<N>("pow(jet,jet)", pow(px, y), p, {{b*std::pow(pa, b-1), x}, {p*std::log(pa), y}});
      J zb(0.0); zb.v = x.v; is<N>("pow(0,y>1)", pow(zb, J(1.0 + std::fabs(b), y.v)), 0, {}); is<N>("pow(0,1)", pow(zb, J(1.0, y.v)), 0, {{1, x}}); is<N>("pow(s=0,y>0)", pow(0.0, J(std::fabs(b), y.v)), 0, {});
      double n = std::round(b); J nb(-pa, x.v), ni(n); is<N>("pow(neg,int)", pow(nb, ni), std::pow(-pa, n), {{n*std::pow(-pa, n-1), x}}); is<N>("pow(neg scalar,int)", pow(-pa, ni), std::pow(-pa, n), {});
      J nv(n, y.v); J r = pow(nb, nv); for (int i = 0; i < N; ++i) ok("pow(neg, int with derivative) is nan exactly where the exponent varies", std::isnan(r.v[i]) == (nv.v[i] != 0)); J rs = pow(-pa, nv); for (int i = 0; i < N; ++i) ok("pow(neg scalar, varying) is nan exactly where the exponent varies", std::isnan(rs.v[i]) == (nv.v[i] != 0)); }
    J m = jet<N>(rac::coin() ? a : b, "m");
    for (int k = 0; k < 2; ++k) { bool fst = k ? x.a < m.a : x.a > m.a, tie = x.a == m.a; J r = k ? fmin(x, m) : fmax(x, m);
      is<N>(k ? "fmin" : "fmax", r, tie || fst ? x.a : m.a, {{tie ? 0.5 : fst ? 1 : 0, x}, {tie ? 0.5 : fst ? 0 : 1, m}});
      J rs = k ? fmin(x, m.a) : fmax(x, m.a); is<N>("fmin/fmax with scalar", rs, tie || fst ? x.a : m.a, {{tie ? 0.5 : fst ? 1 : 0, x}}); J rt = k ? fmin(m.a, x) : fmax(m.a, x); is<N>("fmin/fmax scalar first", rt, rs.a, {{tie ? 0.5 : fst ? 1 : 0, x}});
      J nan(std::nan("")); is<N>("nan is missing data", k ? fmin(nan, x) : fmax(nan, x), a, {{1, x}}); is<N>("nan is missing data", k ? fmin(x, nan) : fmax(x, nan), a, {{1, x}}); }
    is<N>("fdim", fdim(x, m), std::fdim(x.a, m.a), {{x.a > m.a ? 1 : 0, x}, {x.a > m.a ? -1 : 0, m}}); is<N>("fdim s", fdim(x, m.a), std::fdim(x.a, m.a), {{x.a > m.a ? 1 : 0, x}}); is<N>("fdim t", fdim(x.a, m), std::fdim(x.a, m.a), {{x.a > m.a ? -1 : 0, m}});
    ok("fdim nan", isnan(fdim(J(std::nan("")), x)) && isnan(fdim(x, J(std::nan("")))));
    is<N>("copysign", copysign(x, y), std::copysign(a, b), {{(a < 0) == (b < 0) ? 1 : -1, x}});
#define C(O) ok("comparison " #O, (x O m) == (x.a O m.a) && (x O m.a) == (x.a O m.a) && (x.a O m) == (x.a O m.a));
    C(<) C(<=) C(>) C(>=) C(==) C(!=)
    ok("quiet comparisons", isless(x, m) == (x.a < m.a) && isgreater(x, m) == (x.a > m.a) && islessequal(x, m) == (x.a <= m.a) && isgreaterequal(x, m) == (x.a >= m.a) && islessgreater(x, m) == (x.a != m.a) && !isunordered(x, m) && isunordered(x, J(std::nan(""))) && signbit(x) == std::signbit(x.a));
    double inf = INFINITY; ok("classification", isfinite(x) && !isinf(x) && !isnan(x) && isinf(J(inf)) && !isfinite(J(inf)) && isnan(J(std::nan(""))) && isnormal(J(1.0)) && !isnormal(J(0.0)) && fpclassify(J(0.0)) == FP_ZERO);
    int k = rac::integer(0, N - 1); J kx(a, k); for (int i = 0; i < N; ++i) ok("Jet(a, k)", kx.v[i] == (i == k) && J(a).v[i] == 0 && J().v[i] == 0 && J().a == 0);
    // nested: second derivatives through Jet<Jet>
    typedef Jet<J, 1> JJ; JJ q(px); q.v[0] = J(1.0); JJ lg = log(q) * sin(q); J d = lg.v[0];
    is<N>("nested Jet first derivative", d, std::sin(pa)/pa + std::log(pa)*std::cos(pa), {{-std::sin(pa)/pa/pa + 2*std::cos(pa)/pa - std::log(pa)*std::sin(pa), x}});
  });
}
int main(int argc, char** argv) {
  rac::init(argc, argv);
  dim<1>("jet1", 1500); dim<2>("jet2", 1500); dim<3>("jet3", 2500); dim<4>("jet4", 1500); dim<7>("jet7", 800); dim<8>("jet8", 800); dim<13>("jet13", 500);
  rac::group("limits", 1, [] {
    using L = std::numeric_limits<Jet<double, 2>>; using D = std::numeric_limits<double>;
    ok("numeric_limits", L::digits == D::digits && L::digits10 == D::digits10 && L::max_digits10 == D::max_digits10 && L::min_exponent == D::min_exponent && L::min_exponent10 == D::min_exponent10 && L::max_exponent == D::max_exponent && L::max_exponent10 == D::max_exponent10 && L::radix == D::radix &&
      L::min().a == D::min() && L::max().a == D::max() && L::lowest().a == D::lowest() && L::epsilon().a == D::epsilon() && L::round_error().a == D::round_error() && L::infinity().a == D::infinity() && L::denorm_min().a == D::denorm_min() && std::isnan(L::quiet_NaN().a) && L::is_iec559 == D::is_iec559 && L::is_integer == D::is_integer && L::is_signed == D::is_signed && L::is_exact == D::is_exact && L::has_infinity == D::has_infinity);
    ok("float Jets", (std::numeric_limits<Jet<float, 2>>::digits == std::numeric_limits<float>::digits && std::numeric_limits<Jet<float, 2>>::min_exponent10 == std::numeric_limits<float>::min_exponent10));
  });
  return rac::finish();
}
