#include "loss_function.cc"
#include "cost_function.cc"
#include "manifold.cc"
#include "array_utils.cc"
#include "corrector.cc"
#include "residual_block_utils.cc"
#include "residual_block.cc"
#include "ceres/sized_cost_function.h"
#include "ceres/loss_function.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
int u_cost(const double* x, const double* y, double* r, double* a, double* b);
void u_loss(double s, double* rho);
int u_plus(const double* x, const double* d, double* y);
int u_plusj(const double* x, double* j);
}
namespace {
struct Cost : SizedCostFunction<2, 2, 1> {
  bool Evaluate(double const* const* p, double* r, double** J) const override { return u_cost(p[0], p[1], r, J ? J[0] : nullptr, J ? J[1] : nullptr); }
};
struct Loss : LossFunction { void Evaluate(double s, double* rho) const override { u_loss(s, rho); } };
template <int N> struct Man : Manifold {
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return N; }
  bool Plus(const double* x, const double* d, double* y) const override { return u_plus(x, d, y); }
  bool PlusJacobian(const double* x, double* j) const override { return u_plusj(x, j); }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
template <int N> inline int go(Manifold* m, int loss, int apply, double* x, double* y, double* cost, double* r, double** J, double* scratch, int* need) {
  Cost c; Loss l;
  ParameterBlock a(x, 2, 0, m), b(y, 1, 1);
  std::vector<ParameterBlock*> v(2);
  v[0] = &a; v[1] = &b;
  ResidualBlock q(&c, loss ? &l : nullptr, v, 5);
  *need = q.NumScratchDoublesForEvaluate();
  return q.Evaluate(apply, cost, r, J, scratch) + 2 * q.NumResiduals() + 10 * q.NumParameterBlocks() + 100 * q.index();
}
}
extern "C" {
int w_rb_plain(int loss, int apply, double* x, double* y, double* cost, double* r, double** J, double* scratch, int* need) { return go<0>(nullptr, loss, apply, x, y, cost, r, J, scratch, need); }
int w_rb_manifold(int loss, int apply, double* x, double* y, double* cost, double* r, double** J, double* scratch, int* need) { Man<1> m; return go<1>(&m, loss, apply, x, y, cost, r, J, scratch, need); }
// parameter block without and with a manifold; bounds: bit 0 lower on 0, bit 1 upper on 0, bit 2 lower on 1, bit 3 upper on 1
int w_pb_plus(int manifold, int bounds, const double* lo, const double* hi, double* x, const double* at, const double* d, double* y, double* out) {
  Man<1> m;
  ParameterBlock p(x, 2, 0, manifold ? &m : nullptr);
  for (int i = 0; i < 2; ++i) { if (bounds >> (2 * i) & 1) p.SetLowerBound(i, lo[i]); if (bounds >> (2 * i + 1) & 1) p.SetUpperBound(i, hi[i]); }
  for (int i = 0; i < 2; ++i) { out[4 * i] = p.LowerBound(i); out[4 * i + 1] = p.UpperBound(i); out[4 * i + 2] = p.LowerBoundForParameter(i); out[4 * i + 3] = p.UpperBoundForParameter(i); }
  return p.Plus(at, d, y);
}
// state handling: jac receives the plus Jacobian after construction, after SetState and after the manifold is replaced
int w_pb_state(double* x, const double* z, double* out, double* jac, double* jac2, double* jac3) {
  Man<1> m; Man<2> m2;
  ParameterBlock p(x, 2, 3, &m);
  int v = p.TangentSize() + 10 * p.Size();
  for (int i = 0; i < 2; ++i) jac[i] = p.PlusJacobian()[i];
  p.GetState(out);
  if (!p.SetState(z)) return -1;
  for (int i = 0; i < 2; ++i) jac2[i] = p.PlusJacobian()[i];
  p.GetState(out + 2);
  p.SetManifold(&m2);
  v += 100 * p.TangentSize();
  for (int i = 0; i < 4; ++i) jac3[i] = p.PlusJacobian()[i];
  p.SetManifold(nullptr);
  v += 1000 * p.TangentSize() + 10000 * (p.PlusJacobian() == nullptr) + 20000 * (p.manifold() == nullptr) + 40000 * (p.state() == z) + 80000 * (p.user_state() == x);
  return v;
}
int w_pb_constant(double* x) {
  Man<0> z;
  ParameterBlock p(x, 2, 0), q(x, 2, 0, &z);
  int v = p.IsConstant() + 2 * q.IsConstant();
  p.SetConstant(); v += 4 * p.IsConstant();
  p.SetVarying(); v += 8 * p.IsConstant();
  q.SetVarying(); v += 16 * q.IsConstant();
  return v;
}
int w_array_valid(int n, const double* x) { return IsArrayValid(n, x); }
int w_array_find(int n, const double* x) { return int(FindInvalidValue(n, x)); }
void w_array_invalidate(int n, double* x) { InvalidateArray(n, x); }
}
