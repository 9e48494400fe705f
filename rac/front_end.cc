// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
// The front end: option validity, refusals, what every configuration has in common, gradient checking, enum names.
#include <map>
#include <set>
#include "nls.h"
#include "ceres/gradient_checker.h"
#include "ceres/ordered_groups.h"
RAC_MAIN_SUPPORT
using namespace nls;
using rac::close; using rac::coin; using rac::integer; using rac::ok;
static std::vector<std::vector<double>> values(const Prob& P) { std::vector<std::vector<double>> v; for (auto& b : P.b) v.push_back(b.x); return v; }
static void scatter(Prob& P, const std::vector<std::vector<double>>& v) { for (size_t j = 0; j < v.size(); ++j) std::copy(v[j].begin(), v[j].end(), P.b[j].x.begin()); }

// ---- options
static double boundary() {
  static const double k[] = {0, 1, 0.5, 0.5, 0.25, 1e-3, 1e-3, 1e-9, 2, 10, 1e4, -1, -0.0, NAN, INFINITY, -INFINITY};
  return k[integer(0, 15)];
}
static void mess(Solver::Options& o, int times) {
  double* d[] = {&o.max_solver_time_in_seconds, &o.function_tolerance, &o.gradient_tolerance, &o.parameter_tolerance, &o.gradient_check_relative_precision,
                 &o.gradient_check_numeric_derivative_relative_step_size, &o.initial_trust_region_radius, &o.min_trust_region_radius, &o.max_trust_region_radius,
                 &o.min_relative_decrease, &o.min_lm_diagonal, &o.max_lm_diagonal, &o.eta, &o.inner_iteration_tolerance, &o.spse_tolerance,
                 &o.min_line_search_step_size, &o.max_line_search_step_contraction, &o.min_line_search_step_contraction,
                 &o.line_search_sufficient_function_decrease, &o.line_search_sufficient_curvature_decrease, &o.max_line_search_step_expansion};
  int* n[] = {&o.max_num_iterations, &o.num_threads, &o.max_num_consecutive_invalid_steps, &o.min_linear_solver_iterations, &o.max_linear_solver_iterations,
              &o.max_consecutive_nonmonotonic_steps, &o.max_num_spse_iterations, &o.max_lbfgs_rank, &o.max_num_line_search_step_size_iterations};
  for (int t = 0; t < times; ++t) {
    if (coin()) { int i = integer(0, 20); *d[i] = coin(0.15) ? *d[integer(0, 20)] : boundary(); rac::note("d" + std::to_string(i), *d[i]); }
    else { int i = integer(0, 8); *n[i] = integer(-1, 2); rac::note("n" + std::to_string(i), *n[i]); }
  }
}
static void choose(Solver::Options& o) {
  o.minimizer_type = MinimizerType(coin(0.8));
  o.linear_solver_type = LinearSolverType(integer(0, 6));
  o.preconditioner_type = PreconditionerType(integer(0, 6));
  o.sparse_linear_algebra_library_type = coin(0.6) ? EIGEN_SPARSE : SparseLinearAlgebraLibraryType(integer(0, 4));
  o.dense_linear_algebra_library_type = coin(0.8) ? EIGEN : DenseLinearAlgebraLibraryType(integer(0, 2));
  o.linear_solver_ordering_type = LinearSolverOrderingType(coin(0.2));
  o.trust_region_strategy_type = TrustRegionStrategyType(coin(0.3));
  o.line_search_direction_type = LineSearchDirectionType(integer(0, 3));
  o.line_search_type = LineSearchType(coin(0.8));
  o.line_search_interpolation_type = LineSearchInterpolationType(integer(0, 2));
  o.trust_region_problem_dump_format_type = DumpFormatType(integer(0, 1));
  o.check_gradients = coin(0.3); o.use_inner_iterations = coin(0.3); o.use_nonmonotonic_steps = coin(0.3); o.dynamic_sparsity = coin(0.15);
  o.use_mixed_precision_solves = coin(0.2); o.use_explicit_schur_complement = coin(0.2); o.use_spse_initialization = coin(0.2);
  if (coin(0.3)) o.residual_blocks_for_subset_preconditioner.insert(nullptr);
  if (coin(0.2)) o.trust_region_minimizer_iterations_to_dump.push_back(0);
  if (coin(0.5)) o.trust_region_problem_dump_directory.clear();
  rac::note("minimizer", o.minimizer_type); rac::note("solver", o.linear_solver_type); rac::note("preconditioner", o.preconditioner_type); rac::note("sparse", o.sparse_linear_algebra_library_type);
  rac::note("dense", o.dense_linear_algebra_library_type); rac::note("ordering", o.linear_solver_ordering_type); rac::note("strategy", o.trust_region_strategy_type);
  rac::note("direction", o.line_search_direction_type); rac::note("search", o.line_search_type); rac::note("dump format", o.trust_region_problem_dump_format_type);
  rac::note("check_gradients", o.check_gradients); rac::note("inner", o.use_inner_iterations); rac::note("nonmonotonic", o.use_nonmonotonic_steps); rac::note("dynamic", o.dynamic_sparsity);
  rac::note("mixed", o.use_mixed_precision_solves); rac::note("explicit", o.use_explicit_schur_complement); rac::note("spse", o.use_spse_initialization);
  rac::note("subset", o.residual_blocks_for_subset_preconditioner.size()); rac::note("dumps", o.trust_region_minimizer_iterations_to_dump.size()); rac::note("directory", o.trust_region_problem_dump_directory.size());
}
static bool valid(const Solver::Options& o) {
  bool common = o.max_num_iterations >= 0 && o.max_solver_time_in_seconds >= 0 && o.function_tolerance >= 0 && o.gradient_tolerance >= 0 && o.parameter_tolerance >= 0 && o.num_threads > 0 &&
                (!o.check_gradients || (o.gradient_check_relative_precision > 0 && o.gradient_check_numeric_derivative_relative_step_size > 0));
  bool ls = o.max_lbfgs_rank > 0 && o.min_line_search_step_size > 0 && o.max_line_search_step_contraction > 0 && o.max_line_search_step_contraction < 1 &&
            o.max_line_search_step_contraction < o.min_line_search_step_contraction && o.min_line_search_step_contraction <= 1 &&
            o.max_num_line_search_step_size_iterations >= (o.minimizer_type == TRUST_REGION ? 0 : 1) && o.line_search_sufficient_function_decrease > 0 &&
            o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease && o.line_search_sufficient_curvature_decrease < 1 && o.max_line_search_step_expansion > 1 &&
            !((o.line_search_direction_type == BFGS || o.line_search_direction_type == LBFGS) && o.line_search_type != WOLFE);
  if (!common || !ls || o.minimizer_type != TRUST_REGION) return common && ls;
  bool iterative = o.linear_solver_type == CGNR || o.linear_solver_type == ITERATIVE_SCHUR;
  if (!(o.initial_trust_region_radius > 0 && o.min_trust_region_radius > 0 && o.max_trust_region_radius > 0 && o.min_trust_region_radius <= o.initial_trust_region_radius &&
        o.initial_trust_region_radius <= o.max_trust_region_radius && o.min_relative_decrease >= 0 && o.min_lm_diagonal >= 0 && o.max_lm_diagonal >= o.min_lm_diagonal &&
        o.max_num_consecutive_invalid_steps >= 0 && o.eta > 0 && o.min_linear_solver_iterations >= 0 && o.max_linear_solver_iterations >= o.min_linear_solver_iterations))
    return false;
  if (o.use_inner_iterations && !(o.inner_iteration_tolerance >= 0)) return false;
  if (o.use_nonmonotonic_steps && o.max_consecutive_nonmonotonic_steps <= 0) return false;
  if (o.trust_region_strategy_type == DOGLEG && iterative) return false;
  if (!o.trust_region_minimizer_iterations_to_dump.empty() && o.trust_region_problem_dump_format_type != CONSOLE && o.trust_region_problem_dump_directory.empty()) return false;
  bool dense = o.dense_linear_algebra_library_type == EIGEN;
  bool sparse = o.sparse_linear_algebra_library_type == EIGEN_SPARSE && o.linear_solver_ordering_type == AMD;
  PreconditionerType p = o.preconditioner_type;
  switch (o.linear_solver_type) {
    case DENSE_NORMAL_CHOLESKY: return dense;
    case DENSE_QR: return dense && !o.use_mixed_precision_solves;
    case SPARSE_NORMAL_CHOLESKY: return sparse;
    case DENSE_SCHUR: return dense && !o.dynamic_sparsity;
    case SPARSE_SCHUR: return sparse && !o.dynamic_sparsity;
    case ITERATIVE_SCHUR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves || p == SUBSET) return false;
      if (o.use_explicit_schur_complement && (p != SCHUR_JACOBI || o.use_spse_initialization)) return false;
      if ((o.use_spse_initialization || p == SCHUR_POWER_SERIES_EXPANSION) && !(o.max_num_spse_iterations >= 1 && o.spse_tolerance >= 0)) return false;
      return sparse || (p != CLUSTER_JACOBI && p != CLUSTER_TRIDIAGONAL);
    default:
      if (o.use_mixed_precision_solves || o.dynamic_sparsity || o.sparse_linear_algebra_library_type == CUDA_SPARSE) return false;
      if (p == SUBSET) return sparse && !o.residual_blocks_for_subset_preconditioner.empty();
      return p == IDENTITY || p == JACOBI;
  }
}
static void validity() {
  Solver::Options o;
  if (coin(0.8)) choose(o);
  mess(o, coin(0.3) ? 0 : coin(0.7) ? 1 : integer(2, 4));
  std::string e;
  bool want = valid(o), got = o.IsValid(&e);
  ok("valid exactly when every documented constraint holds", got == want, want ? "every constraint holds, refused: " + e : "a constraint is violated, accepted");
  ok("a refusal says why", got || !e.empty());
  if (want || !coin(0.1)) return;
  double x = 3;
  Problem p;
  Fn* f = new Fn(1, {1}, 0);
  p.AddResidualBlock(f, nullptr, &x);
  Solver::Summary s;
  Solve(o, &p, &s);
  ok("invalid options end in failure with a message", s.termination_type == FAILURE && !s.message.empty() && !s.IsSolutionUsable());
  ok("invalid options touch nothing", x == 3 && f->calls == 0);
}

// ---- whole solves
static bool active(const Block& b) { return !b.constant && b.tangent() > 0; }
static bool used(const Prob& P, size_t j) { for (auto& m : P.t) for (int k : m.blocks) if (size_t(k) == j) return true; return false; }
static Spec linear() {
  Spec s;
  s.blocks = integer(1, 6); s.terms = integer(1, 9); s.eps = 0; s.loss = 0; s.manifold = 0.3; s.constant = 0.25;
  rac::note("blocks", s.blocks); rac::note("terms", s.terms);
  return s;
}
static Prob make(Problem::Options po = Problem::Options()) {
  Prob P(linear(), po);
  // only linear manifolds here: the optimum is that of a linear problem
  for (auto& b : P.b) if (b.kind == 1 || b.kind == 2) { P.p->SetManifold(b.x.data(), nullptr); b.man = nullptr; b.kind = 0; }
  P.priors(1.0);
  return P;
}
// minimum over the variables of the (linear) problem
static double optimum(Prob& P) {
  Eval e = reference(P, all(P.b.size()), all(P.t.size()), true);
  DM H = e.J.transpose() * e.J;
  int o = 0;
  for (auto& b : P.b) for (int i = 0; i < b.tangent(); ++i, ++o) if (b.constant) H(o, o) = 1;
  DV d = -H.ldlt().solve(e.g);
  return e.cost + 0.5 * d.dot(e.J.transpose() * (e.J * d)) + d.dot(e.g);
}
static std::vector<int> independent(const Prob& P) {
  std::vector<int> e;
  std::set<int> taken;
  for (int j : subset(P.b.size(), 0.9)) {
    bool free = true;
    for (auto& m : P.t) { bool has = false, hit = false; for (int k : m.blocks) { has |= k == j; hit |= k != j && std::count(e.begin(), e.end(), k); } free &= !(has && hit); }
    if (free) e.push_back(j);
  }
  return e;
}
static std::shared_ptr<ParameterBlockOrdering> ordering(const Prob& P) {
  auto g = std::make_shared<ParameterBlockOrdering>();
  std::vector<int> e = independent(P);
  int base = integer(0, 3), more = integer(1, 3);
  for (size_t j = 0; j < P.b.size(); ++j) g->AddElementToGroup(const_cast<double*>(P.b[j].x.data()), std::count(e.begin(), e.end(), int(j)) ? base : base + integer(1, more));
  return g;
}
static Solver::Options configuration(Prob& P) {
  Solver::Options o;
  o.logging_type = SILENT;
  o.max_num_iterations = 100;
  o.function_tolerance = 0; o.parameter_tolerance = 0; o.gradient_tolerance = 1e-9;
  o.num_threads = coin(0.3) ? integer(2, 4) : 1;
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.minimizer_type = coin(0.75) ? TRUST_REGION : LINE_SEARCH;
  o.linear_solver_type = LinearSolverType(integer(0, 6));
  o.preconditioner_type = PreconditionerType(o.linear_solver_type == CGNR ? integer(0, 1) : integer(0, 5));
  if (o.linear_solver_type == CGNR && coin(0.4)) { o.preconditioner_type = SUBSET; for (auto& m : P.t) if (coin(0.6) || m.blocks.size() == 1) o.residual_blocks_for_subset_preconditioner.insert(m.id); }
  if (o.linear_solver_type <= SPARSE_SCHUR && coin(0.3)) o.trust_region_strategy_type = DOGLEG;
  if (coin()) o.dogleg_type = SUBSPACE_DOGLEG;
  o.dynamic_sparsity = o.linear_solver_type == SPARSE_NORMAL_CHOLESKY && coin(0.3);
  o.use_mixed_precision_solves = o.linear_solver_type != DENSE_QR && o.linear_solver_type < ITERATIVE_SCHUR && coin(0.2);
  o.max_num_refinement_iterations = integer(0, 3);
  if (o.linear_solver_type == ITERATIVE_SCHUR) { o.use_explicit_schur_complement = o.preconditioner_type == SCHUR_JACOBI && coin(0.3); o.use_spse_initialization = !o.use_explicit_schur_complement && coin(0.3); }
  o.jacobi_scaling = coin(0.7);
  o.use_inner_iterations = coin(0.2);
  o.use_nonmonotonic_steps = coin(0.2);
  o.eta = 1e-3;
  o.line_search_direction_type = LineSearchDirectionType(integer(0, 3));
  o.line_search_interpolation_type = LineSearchInterpolationType(integer(0, 2));
  o.nonlinear_conjugate_gradient_type = NonlinearConjugateGradientType(integer(0, 2));
  if (o.minimizer_type == LINE_SEARCH) { o.max_num_iterations = 3000; o.use_inner_iterations = false; }
  if (coin(0.4)) o.linear_solver_ordering = ordering(P);
  if (o.use_inner_iterations && coin()) {
    o.inner_iteration_ordering = std::make_shared<ParameterBlockOrdering>();
    for (size_t j = 0; j < P.b.size(); ++j) if (coin(0.8)) o.inner_iteration_ordering->AddElementToGroup(P.b[j].x.data(), int(P.b.size() - j));
  }
  rac::note("minimizer", o.minimizer_type); rac::note("solver", o.linear_solver_type); rac::note("preconditioner", o.preconditioner_type); rac::note("strategy", o.trust_region_strategy_type);
  rac::note("threads", o.num_threads); rac::note("dynamic", o.dynamic_sparsity); rac::note("mixed", o.use_mixed_precision_solves); rac::note("inner", o.use_inner_iterations);
  rac::note("ordering", o.linear_solver_ordering != nullptr); rac::note("direction", o.line_search_direction_type); rac::note("explicit", o.use_explicit_schur_complement); rac::note("spse", o.use_spse_initialization);
  return o;
}
static std::map<int, std::set<double*>> groups(const std::shared_ptr<ParameterBlockOrdering>& g) { return g ? g->group_to_elements() : std::map<int, std::set<double*>>(); }
static void whole() {
  Prob P = make();
  Solver::Options o = configuration(P);
  o.check_gradients = coin(0.1);
  o.gradient_check_relative_precision = 1e-4;
  rac::note("check", o.check_gradients);
  auto given = groups(o.linear_solver_ordering), inner = groups(o.inner_iteration_ordering);
  auto start = values(P);
  double c0 = P.cost(), best = optimum(P), fixed = 0;
  int rb = 0, rp = 0, rt = 0, nr = 0, nres = 0, np = 0, nt = 0, all_res = 0;
  for (size_t j = 0; j < P.b.size(); ++j) { np += P.b[j].size(); nt += P.b[j].tangent(); if (active(P.b[j]) && used(P, j)) ++rb, rp += P.b[j].size(), rt += P.b[j].tangent(); }
  for (auto& m : P.t) {
    bool live = false;
    for (int j : m.blocks) live |= active(P.b[j]);
    all_res += m.f->num_residuals();
    if (live) ++nr, nres += m.f->num_residuals(); else fixed += 0.5 * m.f->value(P.at(m)).squaredNorm();
  }
  Solver::Summary s;
  for (int round = 0; round < 2; ++round) {
    scatter(P, start);
    Solve(o, P.p.get(), &s);
    bool tight = !(o.use_mixed_precision_solves) && o.minimizer_type == TRUST_REGION;
    // An inexact step from an approximate starting point need not decrease the
    // model once the gradient is at rounding level; ending there is not a fault.
    if (!s.IsSolutionUsable() && o.use_spse_initialization && s.message.find("consecutive invalid steps") != std::string::npos &&
        !s.iterations.empty() && s.iterations.back().gradient_max_norm <= 1e-5 * (1 + s.initial_cost)) return;
    ok("the solution is usable", s.IsSolutionUsable(), s.message + (round ? " (second time)" : ""));
    if (!s.IsSolutionUsable()) return;
    // searches along directions of little descent may stop early
    if (o.minimizer_type == TRUST_REGION || s.message.find("Gradient tolerance") == 0) close("the optimum is reached", P.cost(), best, tight ? 1e-8 : 1e-4);
    else ok("no increase", P.cost() <= c0);
    close("final cost", s.final_cost, P.cost(), 1e-9);
    if (rb) close("initial cost", s.initial_cost, c0, 1e-9);
    close("fixed cost", s.fixed_cost, fixed, 1e-10);
    for (size_t j = 0; j < P.b.size(); ++j) {
      if (!active(P.b[j])) ok("constant blocks do not move", P.b[j].x == start[j]);
      if (P.b[j].kind == 3) { DM J(P.b[j].size(), P.b[j].tangent()); Eigen::Matrix<double, -1, -1, Eigen::RowMajor> pj(P.b[j].size(), P.b[j].tangent()); if (pj.size()) P.b[j].man->PlusJacobian(P.b[j].x.data(), pj.data()); for (int i = 0; i < P.b[j].size(); ++i) if (pj.row(i).isZero(0)) ok("constant coordinates do not move", P.b[j].x[i] == start[j][i]); }
    }
    ok("sizes given", s.num_parameter_blocks == int(P.b.size()) && s.num_parameters == np && s.num_effective_parameters == nt && s.num_residual_blocks == int(P.t.size()) && s.num_residuals == all_res);
    ok("sizes reduced", s.num_parameter_blocks_reduced == rb && s.num_parameters_reduced == rp && s.num_effective_parameters_reduced == rt && s.num_residual_blocks_reduced == nr && s.num_residuals_reduced == nres);
    ok("options given", s.linear_solver_type_given == o.linear_solver_type && s.preconditioner_type_given == o.preconditioner_type && s.minimizer_type == o.minimizer_type && s.num_threads_given == o.num_threads &&
       s.trust_region_strategy_type == o.trust_region_strategy_type && s.inner_iterations_given == o.use_inner_iterations && s.line_search_direction_type == o.line_search_direction_type && s.dogleg_type == o.dogleg_type);
    ok("the options belong to the user", groups(o.linear_solver_ordering) == given && groups(o.inner_iteration_ordering) == inner);
    if (o.linear_solver_ordering) {
      std::vector<int> sizes;
      for (auto& g : given) sizes.push_back(int(g.second.size()));
      ok("ordering given", s.linear_solver_ordering_given == sizes);
    }
    if (o.minimizer_type == TRUST_REGION && rb) {
      int n = 0;
      for (int k : s.linear_solver_ordering_used) n += k;
      ok("the ordering used covers the variables", n == rb, std::to_string(n) + " of " + std::to_string(rb));
      ok("threads used", s.num_threads_used == o.num_threads);
    }
    ok("reports mention the outcome", s.BriefReport().find(TerminationTypeToString(s.termination_type)) != std::string::npos && s.FullReport().find("Termination") != std::string::npos);
    if (o.use_inner_iterations && s.inner_iterations_used) ok("inner iterations have an ordering", !s.inner_iteration_ordering_used.empty());
  }
}
// the same options serve for another problem state: blocks set constant, then variable again
static void histories() {
  Prob P = make();
  Solver::Options o = configuration(P);
  o.max_num_iterations = std::max(o.max_num_iterations, 100);
  auto given = groups(o.linear_solver_ordering), inner = groups(o.inner_iteration_ordering);
  auto start = values(P);
  for (int round = 0; round < 3; ++round) {
    for (auto& b : P.b) {
      b.constant = coin(0.4);
      if (b.constant) P.p->SetParameterBlockConstant(b.x.data()); else P.p->SetParameterBlockVariable(b.x.data());
    }
    if (coin()) scatter(P, start);
    double best = optimum(P);
    Solver::Summary s;
    Solve(o, P.p.get(), &s);
    // An inexact step from an approximate starting point need not decrease the
    // model once the gradient is at rounding level; ending there is not a fault.
    if (!s.IsSolutionUsable() && o.use_spse_initialization && s.message.find("consecutive invalid steps") != std::string::npos &&
        !s.iterations.empty() && s.iterations.back().gradient_max_norm <= 1e-5 * (1 + s.initial_cost)) return;
    ok("the options serve again", s.IsSolutionUsable(), s.message);
    if (!s.IsSolutionUsable()) return;
    if (o.minimizer_type == TRUST_REGION || s.message.find("Gradient tolerance") == 0) close("the optimum of this state", P.cost(), best, o.use_mixed_precision_solves || o.minimizer_type == LINE_SEARCH ? 1e-4 : 1e-8);
  }
  ok("the options belong to the user", groups(o.linear_solver_ordering) == given && groups(o.inner_iteration_ordering) == inner);
}
// ---- ended by the user
static void ended() {
  Prob P = make();
  Solver::Options o = configuration(P);
  if (coin()) o.max_num_iterations = integer(0, 3);
  struct Cb : IterationCallback {
    int stop = 0, calls = 0; CallbackReturnType with = SOLVER_ABORT; Prob* P = nullptr; std::vector<std::vector<std::vector<double>>> seen; std::vector<double> cost; std::vector<bool> good;
    CallbackReturnType operator()(const IterationSummary& s) override { ++calls; seen.push_back(values(*P)); cost.push_back(s.cost); good.push_back(s.step_is_successful); return s.iteration >= stop ? with : SOLVER_CONTINUE; }
  } cb;
  cb.P = &P; cb.stop = integer(0, 4); cb.with = coin(0.6) ? SOLVER_ABORT : SOLVER_TERMINATE_SUCCESSFULLY;
  o.update_state_every_iteration = coin(0.4);
  o.callbacks.push_back(&cb);
  rac::note("stop", cb.stop); rac::note("abort", cb.with == SOLVER_ABORT); rac::note("every", o.update_state_every_iteration);
  auto start = values(P);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  bool any = false;
  for (size_t j = 0; j < P.b.size(); ++j) any |= active(P.b[j]) && used(P, j);
  auto end = values(P);
  if (!cb.calls) { ok("the callback is called unless there is nothing to do", !any); return; }
  bool stopped = cb.calls > cb.stop;
  // the line search minimizer may end within an iteration, before its callbacks
  ok("once per iteration", o.minimizer_type == TRUST_REGION ? cb.calls == int(s.iterations.size()) : cb.calls <= int(s.iterations.size()), std::to_string(cb.calls));
  ok("not called again once it stopped the solve", cb.calls <= cb.stop + 1);
  if (!o.update_state_every_iteration) for (auto& v : cb.seen) ok("the parameters are not touched during the solve", v == start);
  else for (size_t k = 0; k < cb.seen.size(); ++k) if (cb.good[k]) { scatter(P, cb.seen[k]); close("the state follows the iterations", P.cost(), cb.cost[k], 1e-9); scatter(P, end); }
  if (stopped && s.termination_type != FAILURE) {
    bool by_user = s.termination_type == (cb.with == SOLVER_ABORT ? USER_FAILURE : USER_SUCCESS);
    ok("the user ended it", by_user, TerminationTypeToString(s.termination_type));
    ok("an aborted solution is not usable, a terminated one is", s.IsSolutionUsable() == (cb.with != SOLVER_ABORT));
    if (cb.with == SOLVER_ABORT && !o.update_state_every_iteration) ok("an abort leaves the parameters alone", end == start);
    if (cb.with != SOLVER_ABORT) close("the solution is written", s.final_cost, P.cost(), 1e-9);
  }
  for (size_t j = 0; j < P.b.size(); ++j) if (!active(P.b[j])) ok("constant blocks do not move", end[j] == start[j]);
}
// ---- refusals
static void refused() {
  Prob P = make();
  Solver::Options o = configuration(P);
  std::vector<int> live;
  for (size_t j = 0; j < P.b.size(); ++j) if (active(P.b[j]) && used(P, j)) live.push_back(int(j));
  if (live.empty()) {
    Solver::Summary s;
    double c = P.cost();
    Solve(o, P.p.get(), &s);
    ok("nothing to do is convergence", s.termination_type == CONVERGENCE && s.IsSolutionUsable());
    close("cost of a constant problem", s.final_cost, c, 1e-10); close("initial cost of a constant problem", s.initial_cost, c, 1e-10);
    return;
  }
  int how = integer(0, 6), j = integer(0, int(P.b.size()) - 1), i = integer(0, P.b[j].size() - 1);
  Block& b = P.b[j];
  Term& t = P.t[integer(0, int(P.t.size()) - 1)];
  bool in = used(P, j);
  rac::note("how", how); rac::note("block", j);
  switch (how) {
    case 0: b.x[i] = coin() ? NAN : INFINITY; if (coin(0.3)) b.x[i] = -INFINITY; break;
    case 1: if (b.man || o.minimizer_type == LINE_SEARCH) return; P.p->SetParameterLowerBound(b.x.data(), i, b.x[i] + 1); if (!b.constant) P.p->SetParameterUpperBound(b.x.data(), i, b.x[i] + 0.5); break;
    case 2: if (b.man || o.minimizer_type == LINE_SEARCH || !b.constant) return; P.p->SetParameterUpperBound(b.x.data(), i, b.x[i] - 0.25); break;
    case 3: t.f->fail = true; break;
    case 4: t.f->nan_residual = 0; break;
    case 5: t.f->unwritten = 0; break;
    case 6: if (b.man || b.constant || o.minimizer_type != LINE_SEARCH || !in) return; P.p->SetParameterLowerBound(b.x.data(), i, b.x[i] - 1); break;
  }
  auto start = values(P);
  Solver::Summary s;
  Solve(o, P.p.get(), &s);
  ok("refused with a message", s.termination_type == FAILURE && !s.message.empty() && !s.IsSolutionUsable(), s.message + " " + TerminationTypeToString(s.termination_type));
  auto end = values(P);
  bool same = true;
  for (size_t k = 0; k < start.size(); ++k) for (size_t m = 0; m < start[k].size(); ++m) same &= std::memcmp(&start[k][m], &end[k][m], 8) == 0;
  ok("a refusal leaves the parameters alone", same);
}
// ---- gradient checking
struct Wrong : CostFunction {
  const Fn* f; int block, row, col; double by;
  Wrong(const Fn* f) : f(f), block(-1) { set_num_residuals(f->num_residuals()); *mutable_parameter_block_sizes() = f->parameter_block_sizes(); }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    if (!f->Evaluate(p, r, J)) return false;
    if (block >= 0 && J && J[block]) { double& v = J[block][row * parameter_block_sizes()[block] + col]; v += by * (1 + std::fabs(v)); }
    return true;
  }
};
static void gradients() {
  int nb = coin(0.25) ? integer(4, 7) : integer(1, 3), nr = integer(1, 4);
  std::vector<int> sizes;
  std::vector<std::vector<double>> x(nb);
  std::vector<const Manifold*> man(nb, nullptr);
  std::vector<std::unique_ptr<Manifold>> keep;
  std::vector<const double*> p;
  for (int k = 0; k < nb; ++k) {
    int n = coin(0.3) ? 4 : integer(1, 4);
    sizes.push_back(n); x[k].resize(n);
    for (auto& v : x[k]) v = rac::gauss();
    rac::note("x", x[k].data(), n);
    if (coin(0.3) && n > 1) { std::vector<int> c; for (int q = 0; q < n; ++q) if (coin(0.4)) c.push_back(q); if (int(c.size()) == n) c.pop_back(); keep.push_back(std::make_unique<SubsetManifold>(n, c)); man[k] = keep.back().get(); }
    else if (n == 4 && coin()) { double s = 0; for (double v : x[k]) s += v * v; for (auto& v : x[k]) v /= std::sqrt(s); keep.push_back(std::make_unique<QuaternionManifold>()); man[k] = keep.back().get(); }
    p.push_back(x[k].data());
  }
  Fn f(nr, sizes, coin() ? 0.3 : 0);
  Wrong w(&f);
  bool wrong = coin();
  if (wrong) { w.block = integer(0, nb - 1); w.row = integer(0, nr - 1); w.col = integer(0, sizes[w.block] - 1); w.by = (coin() ? 1 : -1) * std::pow(10.0, -integer(0, 2)); rac::note("block", w.block); rac::note("row", w.row); rac::note("col", w.col); rac::note("by", w.by); }
  f.fail = coin(0.1); 
  NumericDiffOptions nd;
  bool no_man = coin(0.2);
  if (no_man) for (auto& m : man) m = nullptr;
  GradientChecker checker(&w, no_man ? nullptr : &man, nd);
  GradientChecker::ProbeResults r;
  double eps = 1e-5;
  bool good = checker.Probe(p.data(), eps, coin(0.1) ? nullptr : &r);
  if (r.residuals.size() == 0 && !f.fail) { GradientChecker::ProbeResults again; checker.Probe(p.data(), eps, &again); r = again; }
  if (f.fail) { ok("a failing cost function does not pass", !good); return; }
  // expected tangent Jacobians
  DV v = f.value(f.gather(p.data()));
  DM J = f.jac(f.gather(p.data())), W = J;
  if (wrong) { int o = 0; for (int k = 0; k < w.block; ++k) o += sizes[k]; W(w.row, o + w.col) += w.by * (1 + std::fabs(W(w.row, o + w.col))); }
  ok("evaluation succeeded", r.return_value);
  for (int k = 0; k < nr; ++k) close("residuals", r.residuals(k), v(k), 1e-12);
  int o = 0;
  double worst = 0;
  bool bad = false;
  for (int k = 0; k < nb; ++k) {
    DM A = DM::Identity(sizes[k], sizes[k]);
    if (man[k]) { Eigen::Matrix<double, -1, -1, Eigen::RowMajor> pj(sizes[k], man[k]->TangentSize()); man[k]->PlusJacobian(p[k], pj.data()); A = pj; }
    close_m("user Jacobian", r.jacobians[k], W.middleCols(o, sizes[k]), 1e-12);
    close_m("numeric Jacobian", r.numeric_jacobians[k], J.middleCols(o, sizes[k]), 1e-7);
    DM lu = W.middleCols(o, sizes[k]) * A, ln = r.numeric_jacobians[k] * A;
    close_m("user tangent Jacobian", r.local_jacobians[k], lu, 1e-12);
    close_m("numeric tangent Jacobian", r.local_numeric_jacobians[k], ln, 1e-10);
    for (int a = 0; a < lu.rows(); ++a) for (int b = 0; b < lu.cols(); ++b) {
      double x0 = r.local_jacobians[k](a, b), y0 = r.local_numeric_jacobians[k](a, b), d = std::fabs(x0 - y0), m = std::max(std::fabs(x0), std::fabs(y0));
      double rel = x0 == 0 || y0 == 0 ? d : d / m;
      worst = std::max(worst, rel);
      bad |= rel > eps;
    }
    o += sizes[k];
  }
  close("worst relative error", r.maximum_relative_error, worst, 1e-12);
  ok("passes exactly when every entry agrees", good == !bad);
  ok("an error is logged", good == r.error_log.empty());
}
static void checked_solve() {
  Problem::Options po;
  Prob P = make(po);
  if (!P.t.size()) return;
  // wrap one active term with a wrong Jacobian
  std::vector<int> live;
  for (size_t i = 0; i < P.t.size(); ++i) for (int j : P.t[i].blocks) if (active(P.b[j]) && P.b[j].tangent() == P.b[j].size()) { live.push_back(int(i)); break; }
  if (live.empty()) return;
  Term& m = P.t[live[integer(0, int(live.size()) - 1)]];
  auto* w = new Wrong(m.f);
  std::vector<double*> ptr;
  for (int j : m.blocks) ptr.push_back(P.b[j].x.data());
  do { w->block = integer(0, int(m.blocks.size()) - 1); } while (!active(P.b[m.blocks[w->block]]) || P.b[m.blocks[w->block]].tangent() != P.b[m.blocks[w->block]].size());
  w->row = integer(0, m.f->num_residuals() - 1); w->col = integer(0, m.f->parameter_block_sizes()[w->block] - 1); w->by = coin() ? 0.5 : -0.4;
  P.p->AddResidualBlock(w, nullptr, ptr);
  Solver::Options o = configuration(P);
  if (o.preconditioner_type == SUBSET) o.residual_blocks_for_subset_preconditioner.insert(P.t[0].id);
  o.check_gradients = true;
  o.gradient_check_relative_precision = 1e-4;
  Solver::Summary s;
  auto start = values(P);
  Solve(o, P.p.get(), &s);
  ok("a wrong Jacobian ends in failure with a message", s.termination_type == FAILURE && !s.message.empty(), s.message + TerminationTypeToString(s.termination_type));
  ok("a wrong Jacobian leaves the parameters alone", values(P) == start);
}
// gradient checking correct Jacobians changes nothing: bounds, manifolds, losses, constant blocks and subsets survive the wrapping
static void check_is_transparent() {
  Spec sp = linear();
  sp.eps = coin() ? 0.2 : 0; sp.loss = 0.3;
  Prob P(sp);
  P.priors(1.0);
  std::map<double*, std::pair<double, double>> box;
  for (auto& b : P.b) if ((!b.man || b.kind >= 3) && coin(0.5)) for (int i = 0; i < b.size(); ++i) {
    if (coin()) P.p->SetParameterLowerBound(b.x.data(), i, b.x[i] - 0.3 * rac::unit());
    if (coin()) P.p->SetParameterUpperBound(b.x.data(), i, b.x[i] + 0.3 * rac::unit());
  }
  Solver::Options o = configuration(P);
  o.minimizer_type = TRUST_REGION; o.num_threads = 1; o.max_num_iterations = 20;
  o.use_inner_iterations = false;      // automatic inner orderings depend on addresses
  auto start = values(P);
  Solver::Summary s, t;
  Solve(o, P.p.get(), &s);
  auto end = values(P);
  scatter(P, start);
  o.check_gradients = true;
  o.gradient_check_relative_precision = 1e-2;
  Solve(o, P.p.get(), &t);
  if (t.termination_type == FAILURE && t.message.find("radient") != std::string::npos) return;     // tiny entries: not decided here
  if (o.preconditioner_type == SUBSET) return;
  ok("checking gradients changes no outcome", s.termination_type == t.termination_type && s.iterations.size() == t.iterations.size(), t.message);
  close("checking gradients changes no cost", t.final_cost, s.final_cost, 1e-12);
  for (size_t j = 0; j < P.b.size(); ++j) for (int i = 0; i < P.b[j].size(); ++i) close("checking gradients changes no result", P.b[j].x[i], end[j][i], 1e-10);
  for (auto& b : P.b) if ((!b.man || b.kind >= 3) && !b.constant) for (int i = 0; i < b.size(); ++i) ok("bounds hold", b.x[i] >= P.p->GetParameterLowerBound(b.x.data(), i) && b.x[i] <= P.p->GetParameterUpperBound(b.x.data(), i));
}
// ---- names
template <class T> static void names(const char* what, int n, const char* (*str)(T), bool (*parse)(std::string, T*)) {
  std::set<std::string> seen;
  for (int i = 0; i < n; ++i) {
    std::string s = str(T(i)), low = s;
    for (auto& c : low) c = char(std::tolower(c));
    T t = T(-1), u = T(-1);
    ok("names are distinct", seen.insert(s).second, what);
    if (!parse) continue;
    ok("names read back", parse(s, &t) && t == T(i), what + s);
    ok("names read back in lower case", parse(low, &u) && u == T(i), what + s);
    ok("other names do not", !parse(s + "_", &t) && !parse("", &t), what + s);
  }
}
static void strings() {
  names<LinearSolverType>("linear solver ", 7, LinearSolverTypeToString, StringToLinearSolverType);
  names<PreconditionerType>("preconditioner ", 7, PreconditionerTypeToString, StringToPreconditionerType);
  names<VisibilityClusteringType>("clustering ", 2, VisibilityClusteringTypeToString, StringToVisibilityClusteringType);
  names<SparseLinearAlgebraLibraryType>("sparse ", 5, SparseLinearAlgebraLibraryTypeToString, StringToSparseLinearAlgebraLibraryType);
  names<LinearSolverOrderingType>("ordering ", 2, LinearSolverOrderingTypeToString, StringToLinearSolverOrderingType);
  names<DenseLinearAlgebraLibraryType>("dense ", 3, DenseLinearAlgebraLibraryTypeToString, StringToDenseLinearAlgebraLibraryType);
  names<LoggingType>("logging ", 2, LoggingTypeToString, StringToLoggingType);
  names<MinimizerType>("minimizer ", 2, MinimizerTypeToString, StringToMinimizerType);
  names<LineSearchDirectionType>("direction ", 4, LineSearchDirectionTypeToString, StringToLineSearchDirectionType);
  names<LineSearchType>("search ", 2, LineSearchTypeToString, StringToLineSearchType);
  names<NonlinearConjugateGradientType>("cg ", 3, NonlinearConjugateGradientTypeToString, StringToNonlinearConjugateGradientType);
  names<LineSearchInterpolationType>("interpolation ", 3, LineSearchInterpolationTypeToString, StringToLineSearchInterpolationType);
  names<TrustRegionStrategyType>("strategy ", 2, TrustRegionStrategyTypeToString, StringToTrustRegionStrategyType);
  names<DoglegType>("dogleg ", 2, DoglegTypeToString, StringToDoglegType);
  names<CovarianceAlgorithmType>("covariance ", 2, CovarianceAlgorithmTypeToString, StringToCovarianceAlgorithmType);
  names<NumericDiffMethodType>("difference ", 3, NumericDiffMethodTypeToString, StringToNumericDiffMethodType);
  names<DumpFormatType>("dump ", 2, DumpFormatTypeToString, StringToDumpFormatType);
  names<TerminationType>("termination ", 5, TerminationTypeToString, nullptr);
  ok("availability", IsSparseLinearAlgebraLibraryTypeAvailable(EIGEN_SPARSE) && IsDenseLinearAlgebraLibraryTypeAvailable(EIGEN) && !IsDenseLinearAlgebraLibraryTypeAvailable(LAPACK) &&
     !IsDenseLinearAlgebraLibraryTypeAvailable(CUDA) && !IsSparseLinearAlgebraLibraryTypeAvailable(SUITE_SPARSE) && !IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE) && !IsSparseLinearAlgebraLibraryTypeAvailable(ACCELERATE_SPARSE));
}
int main(int argc, char** argv) {
  rac::init(argc, argv);
  rac::group("valid options", 30000, validity);
  rac::group("whole solves", 2500, whole);
  rac::group("options serve again", 1200, histories);
  rac::group("ended by the user", 1500, ended);
  rac::group("refusals", 2000, refused);
  rac::group("gradient checker", 2000, gradients);
  rac::group("checked solves", 600, checked_solve);
  rac::group("checking is transparent", 500, check_is_transparent);
  rac::group("names", 1, strings);
  return rac::finish();
}
