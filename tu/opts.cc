// Solver options: the whole validity check, and what a summary says about its solution.
#include <sstream>
#include "ceres/solver.h"
#include "absl/log/check.h"
#include "absl/log/log.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "ceres/casts.h"
#include "ceres/context.h"
#include "ceres/context_impl.h"
#include "ceres/cuda_sparse_cholesky.h"
#include "ceres/detect_structure.h"
#include "ceres/eigensparse.h"
#include "ceres/gradient_checking_cost_function.h"
#include "ceres/internal/export.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/preprocessor.h"
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/schur_templates.h"
#include "ceres/solver_utils.h"
#include "ceres/suitesparse.h"
#include "ceres/types.h"
#include <string>
// Messages are opaque: their formatting is dropped.
namespace verif {
struct Message {
  template <typename T> Message& operator<<(const T&) { return *this; }
  std::string str() const { return std::string(); }
};
}
namespace std { using verif_message = verif::Message; }
#define stringstream verif_message
#include "solver.cc"
#undef stringstream
#include "types.cc"
using namespace ceres;
extern "C" {
bool w_options(const double* d, const int* n, const int* e, const bool* b, int subset, int dump, int directory) {
  Solver::Options o;
  o.max_solver_time_in_seconds = d[0];
  o.function_tolerance = d[1];
  o.gradient_tolerance = d[2];
  o.parameter_tolerance = d[3];
  o.gradient_check_relative_precision = d[4];
  o.gradient_check_numeric_derivative_relative_step_size = d[5];
  o.initial_trust_region_radius = d[6];
  o.min_trust_region_radius = d[7];
  o.max_trust_region_radius = d[8];
  o.min_relative_decrease = d[9];
  o.min_lm_diagonal = d[10];
  o.max_lm_diagonal = d[11];
  o.eta = d[12];
  o.inner_iteration_tolerance = d[13];
  o.spse_tolerance = d[14];
  o.min_line_search_step_size = d[15];
  o.max_line_search_step_contraction = d[16];
  o.min_line_search_step_contraction = d[17];
  o.line_search_sufficient_function_decrease = d[18];
  o.line_search_sufficient_curvature_decrease = d[19];
  o.max_line_search_step_expansion = d[20];
  o.max_num_iterations = n[0];
  o.num_threads = n[1];
  o.max_num_consecutive_invalid_steps = n[2];
  o.min_linear_solver_iterations = n[3];
  o.max_linear_solver_iterations = n[4];
  o.max_consecutive_nonmonotonic_steps = n[5];
  o.max_num_spse_iterations = n[6];
  o.max_lbfgs_rank = n[7];
  o.max_num_line_search_step_size_iterations = n[8];
  o.minimizer_type = MinimizerType(e[0]);
  o.linear_solver_type = LinearSolverType(e[1]);
  o.preconditioner_type = PreconditionerType(e[2]);
  o.sparse_linear_algebra_library_type = SparseLinearAlgebraLibraryType(e[3]);
  o.dense_linear_algebra_library_type = DenseLinearAlgebraLibraryType(e[4]);
  o.linear_solver_ordering_type = LinearSolverOrderingType(e[5]);
  o.trust_region_strategy_type = TrustRegionStrategyType(e[6]);
  o.line_search_direction_type = LineSearchDirectionType(e[7]);
  o.line_search_type = LineSearchType(e[8]);
  o.line_search_interpolation_type = LineSearchInterpolationType(e[9]);
  o.trust_region_problem_dump_format_type = DumpFormatType(e[10]);
  o.check_gradients = b[0];
  o.use_inner_iterations = b[1];
  o.use_nonmonotonic_steps = b[2];
  o.dynamic_sparsity = b[3];
  o.use_mixed_precision_solves = b[4];
  o.use_explicit_schur_complement = b[5];
  o.use_spse_initialization = b[6];
  if (subset) o.residual_blocks_for_subset_preconditioner.insert(nullptr);
  if (dump) o.trust_region_minimizer_iterations_to_dump.push_back(0);
  if (!directory) o.trust_region_problem_dump_directory.clear();
  std::string error;
  return o.IsValid(&error);
}
bool w_usable(int termination) {
  Solver::Summary s;
  s.termination_type = TerminationType(termination);
  return s.IsSolutionUsable();
}
}
