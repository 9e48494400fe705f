#include "line_search.cc"
#include "line_search_direction.cc"
#include "low_rank_inverse_hessian.cc"
#include "function_sample.cc"
#include "linear_operator.cc"
#include "ceres/evaluator.h"
#include "ceres/polynomial.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
int u_eval(const double* x, double* cost, double* g);
int u_plus(const double* x, const double* d, double* y);
double u_minpoly(int n, double a, double b);
}
namespace ceres { namespace internal {
Evaluator::~Evaluator() = default;
void MinimizeInterpolatingPolynomial(const std::vector<FunctionSample>& s, double a, double b, double* x, double* v) { *x = u_minpoly(int(s.size()), a, b); *v = 0; }
} }
namespace {
struct Ev final : public Evaluator {
  int p, e;
  Ev(int p, int e) : p(p), e(e) {}
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions&, const double* x, double* cost, double*, double* g, SparseMatrix*) override { return u_eval(x, cost, g); }
  bool Plus(const double* x, const double* d, double* y) const override { return u_plus(x, d, y); }
  int NumParameters() const override { return p; }
  int NumEffectiveParameters() const override { return e; }
  int NumResiduals() const override { return 1; }
};
void put(const FunctionSample& s, double* out, int* st) {
  st[0] = s.vector_x_is_valid + 2 * s.value_is_valid + 4 * s.gradient_is_valid + 8 * s.vector_gradient_is_valid;
  out[0] = s.x;
  if (s.value_is_valid) out[1] = s.value;
  if (s.gradient_is_valid) out[2] = s.gradient;
  st[1] = int(s.vector_x.size()); st[2] = int(s.vector_gradient.size());
  if (s.vector_x_is_valid) for (int i = 0; i < s.vector_x.size(); ++i) out[3 + i] = s.vector_x(i);
  if (s.vector_gradient_is_valid) for (int i = 0; i < s.vector_gradient.size(); ++i) out[6 + i] = s.vector_gradient(i);
}
LineSearchFunction* make(Ev* ev, const double* x, const double* d) {
  auto* f = new LineSearchFunction(ev);
  f->Init(ConstVectorRef(x, ev->p), ConstVectorRef(d, ev->e));
  return f;
}
}
extern "C" {
void w_lsf(int p, int e, const double* x, const double* d, double t, int gradient, double* out, int* st) {
  Ev ev(p, e);
  LineSearchFunction* f = make(&ev, x, d);
  FunctionSample s;
  f->Evaluate(t, gradient, &s);
  put(s, out, st);
  out[9] = f->DirectionInfinityNorm();
}
// o: sufficient decrease, max contraction, min contraction, min step, curvature decrease, max expansion
// a: first step, initial cost, initial gradient
int w_search(int wolfe, int interpolation, int iterations, int p, int e, const double* o, const double* a, const double* x, const double* d, double* out, int* st) {
  Ev ev(p, e);
  LineSearch::Options q;
  q.interpolation_type = static_cast<LineSearchInterpolationType>(interpolation);
  q.max_num_iterations = iterations;
  q.sufficient_decrease = o[0]; q.max_step_contraction = o[1]; q.min_step_contraction = o[2]; q.min_step_size = o[3];
  q.sufficient_curvature_decrease = o[4]; q.max_step_expansion = o[5];
  q.is_silent = true;
  q.function = make(&ev, x, d);
  LineSearch::Summary s;
  if (wolfe) WolfeLineSearch(q).Search(a[0], a[1], a[2], &s);
  else ArmijoLineSearch(q).Search(a[0], a[1], a[2], &s);
  st[3] = s.num_function_evaluations; st[4] = s.num_gradient_evaluations; st[5] = s.num_iterations;
  if (s.success) put(s.optimal_point, out, st);
  return s.success + 2 * !s.error.empty();
}
// k states (gradient, direction, step, norms): direction after each, via the interface of the minimizer
int w_dir(int type, int nonlinear, int n, int rank, int scale, int k, const double* g, const double* t, double* out) {
  LineSearchDirection::Options q;
  q.num_parameters = n; q.type = static_cast<LineSearchDirectionType>(type);
  q.nonlinear_conjugate_gradient_type = static_cast<NonlinearConjugateGradientType>(nonlinear);
  q.max_lbfgs_rank = rank; q.use_approximate_eigenvalue_bfgs_scaling = scale;
  auto d = LineSearchDirection::Create(q);
  LineSearchMinimizer::State cur(n, n), prev(n, n);
  int good = 0;
  for (int i = 0; i < k; ++i) {
    prev = cur;
    for (int j = 0; j < n; ++j) cur.gradient(j) = g[i * n + j];
    cur.gradient_squared_norm = cur.gradient.squaredNorm();
    bool ok = true;
    if (i == 0) cur.search_direction = -cur.gradient;
    else ok = d->NextDirection(prev, cur, &cur.search_direction);
    for (int j = 0; j < n; ++j) out[i * n + j] = cur.search_direction(j);
    good += ok << i;
    if (!ok) break;
    cur.step_size = t[i];
  }
  return good;
}
// the inverse Hessian approximation after k updates, applied to x; returns which updates were accepted
int w_lrh(int n, int rank, int scale, int k, const double* s, const double* y, const double* x, double* out) {
  LowRankInverseHessian h(n, rank, scale);
  int good = 0;
  for (int i = 0; i < k; ++i) good += h.Update(ConstVectorRef(s + i * n, n), ConstVectorRef(y + i * n, n)) << i;
  h.RightMultiplyAndAccumulate(x, out);
  return good;
}
}
