#include "trust_region_minimizer.cc"
#include "minimizer.cc"
#include "trust_region_step_evaluator.cc"
#include "parallel_vector_ops.cc"
#include "iteration_callback.cc"
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/trust_region_strategy.h"
#include "ceres/sparse_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/line_search_minimizer.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
int u_eval(int apply, int fresh, const double* x, double* cost, double* r, double* g, int jac);
int u_plus(const double* x, const double* d, double* y);
void u_sqnorm(double* x);
void u_scale(const double* s);
void u_rm(const double* x, double* y);
int u_step(double eta, const double* r, double* step, int* iterations);
void u_action(int kind, double quality);
double u_radius();
int u_callback(int which, int iteration, int flags, double cost, double radius);
void u_inner(double* x);
}
namespace ceres { namespace internal {
Evaluator::~Evaluator() = default;
LinearOperator::~LinearOperator() = default;
SparseMatrix::~SparseMatrix() = default;
TrustRegionStrategy::~TrustRegionStrategy() = default;
void LinearOperator::RightMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { RightMultiplyAndAccumulate(x, y); }
void LinearOperator::LeftMultiplyAndAccumulate(const double* x, double* y, ContextImpl*, int) const { LeftMultiplyAndAccumulate(x, y); }
void SparseMatrix::SquaredColumnNorm(double* x, ContextImpl*, int) const { SquaredColumnNorm(x); }
void SparseMatrix::ScaleColumns(const double* s, ContextImpl*, int) { ScaleColumns(s); }
CoordinateDescentMinimizer::CoordinateDescentMinimizer(ContextImpl* c) : context_(c) {}
CoordinateDescentMinimizer::~CoordinateDescentMinimizer() = default;
void CoordinateDescentMinimizer::Minimize(const Minimizer::Options&, double* x, Solver::Summary*) { u_inner(x); }
void LineSearchMinimizer::Minimize(const Minimizer::Options&, double*, Solver::Summary*) {}
} }
namespace {
// Arbitrary problem, strategy, callbacks and inner minimizer: undefined functions with contracts.
struct Jac final : public SparseMatrix {
  int r, c;
  Jac(int r, int c) : r(r), c(c) {}
  void RightMultiplyAndAccumulate(const double* x, double* y) const override { u_rm(x, y); }
  void LeftMultiplyAndAccumulate(const double*, double*) const override {}
  void SquaredColumnNorm(double* x) const override { u_sqnorm(x); }
  void ScaleColumns(const double* s) override { u_scale(s); }
  void SetZero() override {}
  void ToDenseMatrix(Matrix*) const override {}
  void ToTextFile(FILE*) const override {}
  double* mutable_values() override { return nullptr; }
  const double* values() const override { return nullptr; }
  int num_rows() const override { return r; }
  int num_cols() const override { return c; }
  int num_nonzeros() const override { return r * c; }
};
struct Ev final : public Evaluator {
  int p, e, r;
  Ev(int p, int e, int r) : p(p), e(e), r(r) {}
  std::unique_ptr<SparseMatrix> CreateJacobian() const override { return nullptr; }
  bool Evaluate(const EvaluateOptions& o, const double* x, double* cost, double* res, double* g, SparseMatrix* j) override { return u_eval(o.apply_loss_function, o.new_evaluation_point, x, cost, res, g, j != nullptr); }
  bool Plus(const double* x, const double* d, double* y) const override { return u_plus(x, d, y); }
  int NumParameters() const override { return p; }
  int NumEffectiveParameters() const override { return e; }
  int NumResiduals() const override { return r; }
};
struct Str final : public TrustRegionStrategy {
  Summary ComputeStep(const PerSolveOptions& o, SparseMatrix*, const double* r, double* step) override {
    Summary s;
    s.termination_type = static_cast<LinearSolverTerminationType>(u_step(o.eta, r, step, &s.num_iterations));
    return s;
  }
  void StepAccepted(double q) override { u_action(1, q); }
  void StepRejected(double q) override { u_action(2, q); }
  void StepIsInvalid() override { u_action(3, 0); }
  double Radius() const override { return u_radius(); }
};
struct Cb final : public IterationCallback {
  int which;
  explicit Cb(int w) : which(w) {}
  CallbackReturnType operator()(const IterationSummary& s) override {
    return static_cast<CallbackReturnType>(u_callback(which, s.iteration, s.step_is_valid + 2 * s.step_is_successful + 4 * s.step_is_nonmonotonic, s.cost, s.trust_region_radius));
  }
};
template <class T, class U> std::shared_ptr<T> borrow(U* p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
}
extern "C" {
// io: max iterations, Jacobi scaling, max invalid steps, constrained, nonmonotonic steps, inner iterations, callbacks
// it: 10 reals and 3 integers per iteration
int w_trm(int p, int e, int r, const double* o, const int* io, double* x, double* out, int* st, double* it, int* iti) {
  Jac jac(r, e);
  Ev ev(p, e, r);
  Str str;
  Cb cb(0), cb2(1);
  CoordinateDescentMinimizer inner(nullptr);
  Minimizer::Options m;
  m.gradient_tolerance = o[0]; m.parameter_tolerance = o[1]; m.function_tolerance = o[2]; m.min_relative_decrease = o[3];
  m.eta = o[4]; m.min_trust_region_radius = o[5]; m.max_solver_time_in_seconds = o[6]; m.inner_iteration_tolerance = o[7];
  m.max_num_iterations = io[0]; m.jacobi_scaling = io[1]; m.max_num_consecutive_invalid_steps = io[2]; m.is_constrained = io[3];
  m.use_nonmonotonic_steps = io[4] > 0; m.max_consecutive_nonmonotonic_steps = io[4];
  m.max_num_line_search_step_size_iterations = 0;
  m.is_silent = true;
  m.num_threads = 1; m.context = nullptr;
  m.evaluator = borrow<Evaluator>(&ev);
  m.jacobian = borrow<SparseMatrix>(&jac);
  m.trust_region_strategy = borrow<TrustRegionStrategy>(&str);
  if (io[5]) m.inner_iteration_minimizer = borrow<CoordinateDescentMinimizer>(&inner);
  if (io[6]) { m.callbacks.push_back(&cb); m.callbacks.push_back(&cb2); }
  Solver::Summary s;
  s.num_inner_iteration_steps = 0;
  s.fixed_cost = o[9]; s.preprocessor_time_in_seconds = o[8];
  TrustRegionMinimizer t;
  t.Minimize(m, x, &s);
  out[0] = s.initial_cost; out[1] = s.final_cost;
  st[0] = int(s.termination_type); st[1] = s.num_successful_steps; st[2] = s.num_unsuccessful_steps; st[3] = s.num_inner_iteration_steps;
  for (size_t i = 0; i < s.iterations.size(); ++i) {
    const IterationSummary& q = s.iterations[i];
    double* w = it + 10 * i;
    w[0] = q.cost; w[1] = q.cost_change; w[2] = q.gradient_max_norm; w[3] = q.gradient_norm; w[4] = q.step_norm; w[5] = q.relative_decrease;
    w[6] = q.trust_region_radius; w[7] = q.eta; w[8] = q.iteration_time_in_seconds; w[9] = q.cumulative_time_in_seconds;
    iti[3 * i] = q.iteration; iti[3 * i + 1] = q.step_is_valid + 2 * q.step_is_successful + 4 * q.step_is_nonmonotonic; iti[3 * i + 2] = q.linear_solver_iterations;
  }
  return int(s.iterations.size());
}
}
