#include "manifold.cc"
#include "ceres/sphere_manifold.h"
#include "ceres/line_manifold.h"
#include "ceres/product_manifold.h"
using namespace ceres;
namespace {
inline const Manifold& up(const Manifold& m) { return m; }
struct Opaque final : public Manifold {   // an arbitrary user manifold: undefined functions with contracts
  Opaque(int i, int a, int t) : i(i), a(a), t(t) {}
  int i, a, t;
  int AmbientSize() const override { return a; }
  int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* r) const override;
  bool PlusJacobian(const double* x, double* j) const override;
  bool Minus(const double* y, const double* x, double* r) const override;
  bool MinusJacobian(const double* x, double* j) const override;
};
}
extern "C" {
int u_plus(int i, int a, int t, const double* x, const double* d, double* r);
int u_pj(int i, int a, int t, const double* x, double* j);
int u_minus(int i, int a, int t, const double* y, const double* x, double* r);
int u_mj(int i, int a, int t, const double* x, double* j);
}
namespace {
bool Opaque::Plus(const double* x, const double* d, double* r) const { return u_plus(i, a, t, x, d, r) != 0; }
bool Opaque::PlusJacobian(const double* x, double* j) const { return u_pj(i, a, t, x, j) != 0; }
bool Opaque::Minus(const double* y, const double* x, double* r) const { return u_minus(i, a, t, y, x, r) != 0; }
bool Opaque::MinusJacobian(const double* x, double* j) const { return u_mj(i, a, t, x, j) != 0; }
}
#define M5(N, DECL)                                                                                                   \
  extern "C" int w_##N##_sizes(int* s) { DECL; const Manifold& m = up(mm); s[0] = m.AmbientSize(); s[1] = m.TangentSize(); return 1; }     \
  extern "C" int w_##N##_plus(const double* x, const double* d, double* r) { DECL; return up(mm).Plus(x, d, r); }       \
  extern "C" int w_##N##_pj(const double* x, double* j) { DECL; return up(mm).PlusJacobian(x, j); }                     \
  extern "C" int w_##N##_minus(const double* y, const double* x, double* r) { DECL; return up(mm).Minus(y, x, r); }     \
  extern "C" int w_##N##_mj(const double* x, double* j) { DECL; return up(mm).MinusJacobian(x, j); }                    \
  extern "C" int w_##N##_rm(const double* x, int n, const double* a, double* t) { DECL; return up(mm).RightMultiplyByPlusJacobian(x, n, a, t); }
M5(quat, QuaternionManifold mm)
M5(equat, EigenQuaternionManifold mm)
M5(euc, EuclideanManifold<3> mm)
M5(eucd, EuclideanManifold<DYNAMIC> mm(2))
M5(sub4, std::vector<int> cc({2, 0}); SubsetManifold mm(4, cc))
M5(sub3, std::vector<int> cc({1}); SubsetManifold mm(3, cc))
M5(sub0, std::vector<int> cc; SubsetManifold mm(2, cc))
M5(suball, std::vector<int> cc({0, 1}); SubsetManifold mm(2, cc))
M5(sph2, SphereManifold<2> mm)
M5(sph3, SphereManifold<3> mm)
M5(sph4, SphereManifold<4> mm)
M5(sphd, SphereManifold<DYNAMIC> mm(3))
M5(line2, LineManifold<2> mm)
M5(line3, LineManifold<3> mm)
M5(lined, LineManifold<DYNAMIC> mm(2))
typedef ProductManifold<Opaque, Opaque, Opaque> PM;
M5(prod, PM mm(Opaque(0, 3, 2), Opaque(1, 2, 2), Opaque(2, 4, 1)))
