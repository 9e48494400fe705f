// Run-time contract checks: rotation conversions.
#include "rac.h"
#include "ceres/rotation.h"
#include "ceres/internal/euler_angles.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using rac::close; using rac::note;
typedef double M3[3][3];
static const double kPi = 3.14159265358979323846;
template <typename O> struct Q4 { static void put(const double* w, double* q) { q[O::kW] = w[0]; q[O::kX] = w[1]; q[O::kY] = w[2]; q[O::kZ] = w[3]; }
  static void get(const double* q, double* w) { w[0] = q[O::kW]; w[1] = q[O::kX]; w[2] = q[O::kY]; w[3] = q[O::kZ]; } };
static void quat2mat(const double* q, M3 R) {   // q p q* written out by definition
  double n = q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3];
  for (int c = 0; c < 3; ++c) {
    double p[4] = {0, c == 0, c == 1, c == 2}, t[4], r[4], k[4] = {q[0], -q[1], -q[2], -q[3]};
    auto mul = [](const double* a, const double* b, double* o) {
      o[0] = a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3]; o[1] = a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2];
      o[2] = a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1]; o[3] = a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]; };
    mul(q, p, t); mul(t, k, r);
    for (int i = 0; i < 3; ++i) R[i][c] = r[i+1] / n;
  }
}
static void rod(const double* a, M3 R) {
  double th = std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]);
  double h = th / 2, s = th > 1e-300 ? std::sin(h) / th : 0.5;
  double q[4] = {std::cos(h), s*a[0], s*a[1], s*a[2]};
  quat2mat(q, R);
}
static void closeM(const char* c, M3 A, M3 B, double tol) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(c, A[i][j], B[i][j], tol); }
static void unitq(double* q) {
  int kind = rac::integer(0, 9);
  double n = 0;
  do {
    n = 0;
    for (int i = 0; i < 4; ++i) { q[i] = rac::gauss(); if (kind == 0 && i != (int)(rac::u64() % 4)) q[i] = 0; if (kind == 1) q[i] *= i ? 1 : 1e-3; if (kind == 2) q[i] *= i ? 1e-6 : 1; if (kind == 3) q[i] = rac::integer(-1, 1);
      if (kind == 4) q[i] *= i == 3 ? 1 : 0.05; if (kind == 5) q[i] *= i == 2 ? 1 : 0.05; if (kind == 6) q[i] *= i == 1 ? 1 : 0.05; n += q[i]*q[i]; }
  } while (n < 1e-20);
  for (int i = 0; i < 4; ++i) q[i] /= std::sqrt(n);
  note("q", q, 4);
}
static void angax(double* a) {
  double sc = rac::coin(0.2) ? std::pow(10.0, -rac::integer(1, 200)) : rac::coin(0.2) ? kPi * (1 - std::pow(10.0, -rac::integer(1, 12))) : 4 * rac::unit();
  double n = 0; for (int i = 0; i < 3; ++i) { a[i] = rac::gauss(); n += a[i]*a[i]; }
  if (rac::coin(0.1)) { a[1] = a[2] = 0; n = a[0]*a[0]; }
  for (int i = 0; i < 3; ++i) a[i] *= sc / std::sqrt(n);
  if (rac::coin(0.05)) a[0] = a[1] = a[2] = 0;
  note("a", a, 3);
}
template <typename O> void quats(const char* nm) {
  rac::group(nm, 4000, [] {
    double w[4], q[4], z[4], zq[4], o[4], ow[4]; M3 R, W;
    unitq(w); Q4<O>::put(w, q); quat2mat(w, W);
    double s = rac::coin() ? 1 : std::exp(rac::gauss()); for (int i = 0; i < 4; ++i) { z[i] = w[i] * s; zq[i] = q[i] * s; }
    QuaternionToRotation<O>(zq, &R[0][0]); closeM("QuaternionToRotation: matrix of q p q*/|q|^2", R, W, 1e-12);
    double C[9]; QuaternionToRotation<O>(zq, ColumnMajorAdapter3x3(C));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close("column-major adapter", C[j*3+i], W[i][j], 1e-12);
    QuaternionToScaledRotation<O>(zq, &R[0][0]); for (auto& r : R) for (auto& x : r) x /= s*s; closeM("QuaternionToScaledRotation", R, W, 1e-11);
    double p[3], r[3], want[3]; for (auto& x : p) x = rac::tame("p");
    for (int i = 0; i < 3; ++i) want[i] = W[i][0]*p[0]+W[i][1]*p[1]+W[i][2]*p[2];
    UnitQuaternionRotatePoint<O>(q, p, r); for (int i = 0; i < 3; ++i) close("UnitQuaternionRotatePoint", r[i], want[i], 1e-11);
    QuaternionRotatePoint<O>(zq, p, r); for (int i = 0; i < 3; ++i) close("QuaternionRotatePoint", r[i], want[i], 1e-11);
    double u[4], uq[4], k[4]; unitq(u); Q4<O>::put(u, uq);
    QuaternionProduct<O>(q, uq, o); Q4<O>::get(o, ow);
    M3 U, P, G; quat2mat(u, U); quat2mat(ow, G);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { P[i][j] = 0; for (int l = 0; l < 3; ++l) P[i][j] += W[i][l]*U[l][j]; }
    closeM("R(q1 q2) = R(q1) R(q2)", G, P, 1e-11);
    close("product of unit quaternions: first component", ow[0], w[0]*u[0]-w[1]*u[1]-w[2]*u[2]-w[3]*u[3], 1e-12);
    QuaternionConjugate<O>(q, o); Q4<O>::get(o, k); for (int i = 0; i < 4; ++i) close("conjugate", k[i], i ? -w[i] : w[i], 0);
    // conversions back from the matrix
    for (int cm = 0; cm < 2; ++cm) {
      double buf[9], guard[6] = {7, 7, 7, 7, 7, 7};
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) buf[cm ? j*3+i : i*3+j] = W[i][j];
      if (cm) RotationMatrixToQuaternion<O>(buf, guard + 1); else RotationMatrixToQuaternion<O>(RowMajorAdapter3x3<const double>(buf), guard + 1);
      rac::ok("only the four output components are written", guard[0] == 7 && guard[5] == 7);
      Q4<O>::get(guard + 1, k); double d = 0; for (int i = 0; i < 4; ++i) d += k[i]*w[i];
      close("RotationMatrixToQuaternion gives +-q", std::fabs(d), 1, 1e-9);
      double n = 0; for (double x : k) n += x*x; close("unit norm", n, 1, 1e-9);
      double a[3]; M3 A;
      if (cm) RotationMatrixToAngleAxis(buf, a); else RotationMatrixToAngleAxis(RowMajorAdapter3x3<const double>(buf), a);
      rod(a, A); closeM("RotationMatrixToAngleAxis", A, W, 1e-7);
      rac::ok("angle within [0, pi]", std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]) <= kPi + 1e-7);
    }
    double a[3]; M3 A; QuaternionToAngleAxis<O>(q, a); rod(a, A); closeM("QuaternionToAngleAxis: same rotation", A, W, 1e-9);
    rac::ok("QuaternionToAngleAxis: angle within [0, pi]", std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]) <= kPi + 1e-9);
    angax(a); AngleAxisToQuaternion<O>(a, o); Q4<O>::get(o, k);
    double th = std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]), sf = th > 1e-150 ? std::sin(th/2)/th : 0.5;
    if (th > 1e-150) { close("w = cos(theta/2)", k[0], std::cos(th/2), 1e-12); for (int i = 0; i < 3; ++i) close("xyz = sin(theta/2) axis", k[i+1]/th, sf*a[i]/th, 1e-9); }
    else for (int i = 0; i < 3; ++i) rac::ok("tiny angle: xyz = a/2", std::fabs(k[i+1] - 0.5*a[i]) <= 1e-12*std::fabs(a[i]) + 1e-300);
  });
}
template <typename S> void euler(const char* nm, const char* ax, bool ext) {
  rac::group(nm, 600, [&] {
    double e[3]; for (int i = 0; i < 3; ++i) e[i] = rac::coin(0.25) ? kPi / 2 * rac::integer(-4, 4) : (2*rac::unit()-1) * 6.5;
    note("e", e, 3);
    M3 E[3], W, R, T;
    for (int k = 0; k < 3; ++k) { double a[3] = {0, 0, 0}; a[ax[k]-'X'] = e[k]; rod(a, E[k]); }
    auto mul = [](M3 a, M3 b, M3 o) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { o[i][j] = 0; for (int l = 0; l < 3; ++l) o[i][j] += a[i][l]*b[l][j]; } };
    if (ext) { mul(E[2], E[1], T); mul(T, E[0], W); } else { mul(E[0], E[1], T); mul(T, E[2], W); }
    EulerAnglesToRotation<S>(e, &R[0][0]); closeM("EulerAnglesToRotation: product of elemental rotations", R, W, 1e-12);
    double C[9]; EulerAnglesToRotation<S>(e, ColumnMajorAdapter3x3(C)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close("column-major adapter", C[j*3+i], W[i][j], 1e-12);
    double f[3]; RotationMatrixToEulerAngles<S>(&R[0][0], f); for (double x : f) rac::ok("finite angles within [-pi, pi]", std::fabs(x) <= kPi + 1e-9);
    note("f", f, 3);
    EulerAnglesToRotation<S>(f, &T[0][0]);
    closeM("RotationMatrixToEulerAngles reproduces the matrix", T, R, 1e-7);
    RotationMatrixToEulerAngles<S>(ColumnMajorAdapter3x3<const double>(C), f); EulerAnglesToRotation<S>(f, &T[0][0]);
    closeM("column-major RotationMatrixToEulerAngles", T, R, 1e-7);
  });
}
int main(int argc, char** argv) {
  rac::init(argc, argv);
  quats<CeresQuaternionOrder>("quaternion_w_first");
  quats<EigenQuaternionOrder>("quaternion_w_last");
  rac::group("angle_axis", 6000, [] {
    double a[3], p[3], r[3]; M3 R, W; angax(a); rod(a, W);
    double C[9]; AngleAxisToRotationMatrix(a, C); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close("AngleAxisToRotationMatrix is column-major", C[j*3+i], W[i][j], 1e-10);
    AngleAxisToRotationMatrix(a, RowMajorAdapter3x3(&R[0][0])); closeM("AngleAxisToRotationMatrix row-major", R, W, 1e-10);
    for (auto& x : p) x = rac::tame("p");
    AngleAxisRotatePoint(a, p, r); for (int i = 0; i < 3; ++i) close("AngleAxisRotatePoint", r[i], W[i][0]*p[0]+W[i][1]*p[1]+W[i][2]*p[2], 1e-10);
    double th = std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]);
    if (th < 1e-9 && th > 1e-200) for (int i = 0; i < 3; ++i) { double cr = a[(i+1)%3]*p[(i+2)%3]-a[(i+2)%3]*p[(i+1)%3]; if (p[i] == 0) rac::ok("tiny angle keeps the first order term", std::fabs(r[i]-cr) <= 1e-9*std::fabs(cr)+1e-300); }
    double in[3] = {p[0], p[1], p[2]}; AngleAxisRotatePoint(a, in, in); for (int i = 0; i < 3; ++i) close("AngleAxisRotatePoint in place", in[i], r[i], 1e-10);
    double b[3], c[3], cr[3]; for (auto& x : b) x = rac::tame("b"); for (auto& x : c) x = rac::tame("c"); CrossProduct(b, c, cr);
    for (int i = 0; i < 3; ++i) close("CrossProduct", cr[i], b[(i+1)%3]*c[(i+2)%3]-b[(i+2)%3]*c[(i+1)%3], 1e-13);
    close("DotProduct", DotProduct(b, c), b[0]*c[0]+b[1]*c[1]+b[2]*c[2], 1e-13);
    double e[3]; for (auto& x : e) { x = 360*(2*rac::unit()-1); } note("deg", e, 3);
    EulerAnglesToRotationMatrix(e, 3, &R[0][0]); M3 E[3], T; for (int k = 0; k < 3; ++k) { double v[3] = {0, 0, 0}; v[k] = e[k]*kPi/180; rod(v, E[k]); }
    auto mul = [](M3 a, M3 b, M3 o) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { o[i][j] = 0; for (int l = 0; l < 3; ++l) o[i][j] += a[i][l]*b[l][j]; } };
    mul(E[2], E[1], T); mul(T, E[0], W); closeM("EulerAnglesToRotationMatrix (degrees) = Rz Ry Rx", R, W, 1e-11);
  });
#define EU(S) euler<Extrinsic##S>("Extrinsic" #S, #S, true); euler<Intrinsic##S>("Intrinsic" #S, #S, false);
  EU(XYZ) EU(XYX) EU(XZY) EU(XZX) EU(YZX) EU(YZY) EU(YXZ) EU(YXY) EU(ZXY) EU(ZXZ) EU(ZYX) EU(ZYZ)
  return rac::finish();
}
