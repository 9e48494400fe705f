#include "loss_function.cc"
using namespace ceres;
namespace {
template <class L> inline void Ev(const L& l, double s, double* rho) {
  const LossFunction* p = &l;   // through the virtual interface, as the solver does
  p->Evaluate(s, rho);
}
}
extern "C" {
void u_eval(int id, double s, double* rho);
void w_trivial(double s, double* rho) { TrivialLoss l; Ev(l, s, rho); }
void w_huber(double a, double s, double* rho) { HuberLoss l(a); Ev(l, s, rho); }
void w_softl1(double a, double s, double* rho) { SoftLOneLoss l(a); Ev(l, s, rho); }
void w_cauchy(double a, double s, double* rho) { CauchyLoss l(a); Ev(l, s, rho); }
void w_arctan(double a, double s, double* rho) { ArctanLoss l(a); Ev(l, s, rho); }
void w_tolerant(double a, double b, double s, double* rho) { TolerantLoss l(a, b); Ev(l, s, rho); }
void w_tukey(double a, double s, double* rho) { TukeyLoss l(a); Ev(l, s, rho); }
}
// An arbitrary user loss: its Evaluate is an undefined function with a contract.
class UserLoss final : public LossFunction {
 public:
  explicit UserLoss(int id) : id_(id) {}
  void Evaluate(double s, double rho[3]) const override { u_eval(id_, s, rho); }
  int id_;
};
extern "C" {
void w_composed(double s, double* rho) {
  UserLoss f(0), g(1);
  ComposedLoss l(&f, DO_NOT_TAKE_OWNERSHIP, &g, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
void w_scaled(double a, double s, double* rho) {
  UserLoss f(0);
  ScaledLoss l(&f, a, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
void w_scaled_null(double a, double s, double* rho) {
  ScaledLoss l(nullptr, a, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
void w_wrapper(double s, double* rho) {
  UserLoss f(0);
  LossFunctionWrapper l(&f, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
void w_wrapper_null(double s, double* rho) {
  LossFunctionWrapper l(nullptr, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
void w_wrapper_reset(double s, double* rho) {
  UserLoss f(0), g(1);
  LossFunctionWrapper l(&f, DO_NOT_TAKE_OWNERSHIP);
  l.Reset(&g, DO_NOT_TAKE_OWNERSHIP);
  Ev(l, s, rho);
}
}
