From 40687cb6be345738898f18ebc56cdbd152ae1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 01/25] fix: RotationMatrixToQuaternion for quaternion orders
 other than w-first

The trace < 0 branch used Order::kW/kX/kY as row/column indices of the
rotation matrix and i + 1 as quaternion location, which is only right
when the storage order is w, x, y, z.  With EigenQuaternionOrder it read
and wrote out of bounds and produced the wrong rotation.
---
 include/ceres/rotation.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..e3a1f2d 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,26 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    // i, j, k are row/column indices of R; kImaginary maps them to the location
+    // of the corresponding imaginary component for the given quaternion order.
+    constexpr int kImaginary[3] = {Order::kX, Order::kY, Order::kZ};
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[kImaginary[i]] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[kImaginary[j]] = (R(j, i) + R(i, j)) * t;
+    quaternion[kImaginary[k]] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From b292b908e07bc6e9a3eef948c1894c98f004aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 02/25] fix: numeric_limits<Jet>::min_exponent10 returned
 max_exponent10

---
 include/ceres/jet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index 3672011..f53c922 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -1373,7 +1373,7 @@ struct numeric_limits<ceres::Jet<T, N>> {
   static constexpr int max_digits10 = std::numeric_limits<T>::max_digits10;
   static constexpr int radix = std::numeric_limits<T>::radix;
   static constexpr int min_exponent = std::numeric_limits<T>::min_exponent;
-  static constexpr int min_exponent10 = std::numeric_limits<T>::max_exponent10;
+  static constexpr int min_exponent10 = std::numeric_limits<T>::min_exponent10;
   static constexpr int max_exponent = std::numeric_limits<T>::max_exponent;
   static constexpr int max_exponent10 = std::numeric_limits<T>::max_exponent10;
   static constexpr bool traps = std::numeric_limits<T>::traps;
-- 
2.43.0


From e03db1313845508ef15a5668ebac43d57947cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 03/25] fix: LineManifold Jacobians for directions that are not
 unit vectors

---
 include/ceres/line_manifold.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..6917214 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -225,15 +225,16 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<AmbientSpaceDimension, TangentSpaceDimension>(
               size_, size_ - 1);
-  auto jacobian_o = jacobian.template bottomRightCorner<AmbientSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<AmbientSpaceDimension,
                                                         TangentSpaceDimension>(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // Plus moves the origin orthogonally to d without scaling by the norm of d.
+  jacobian_o = jacobian_d / d.norm();
   return true;
 }
 
@@ -279,15 +280,16 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<TangentSpaceDimension, AmbientSpaceDimension>(
               size_ - 1, size_);
-  auto jacobian_o = jacobian.template bottomRightCorner<TangentSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<TangentSpaceDimension,
                                                         AmbientSpaceDimension>(
       size_ - 1, size_);
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // Minus for the origin does not depend on the norm of d.
+  jacobian_o = jacobian_d * d.norm();
 
   return true;
 }
-- 
2.43.0


From 93696f60ebcd40646999baf64cedeaecd31b82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 04/25] fix: ComputeHouseholderVector must not treat small
 vectors as axis aligned

---
 include/ceres/internal/householder_vector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ceres/internal/householder_vector.h b/include/ceres/internal/householder_vector.h
index 3398d00..6d7c236 100644
--- a/include/ceres/internal/householder_vector.h
+++ b/include/ceres/internal/householder_vector.h
@@ -60,7 +60,11 @@ void ComputeHouseholderVector(const XVectorType& x,
   *beta = Scalar(0.0);
   const Scalar& x_pivot = x(x.rows() - 1);
 
-  if (sigma <= Scalar(std::numeric_limits<double>::epsilon())) {
+  // The test is relative to the pivot, so that it does not depend on the scale
+  // of x: x counts as a multiple of the last unit vector only if its other
+  // elements are below the rounding error of the pivot.
+  const Scalar epsilon(std::numeric_limits<double>::epsilon());
+  if (sigma <= epsilon * epsilon * x_pivot * x_pivot) {
     if (x_pivot < Scalar(0.0)) {
       *beta = Scalar(2.0);
     }
-- 
2.43.0


From bb658e7b84bb69c259070cf3d14cdfb9b8f1d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 05/25] fix: FindPolynomialRoots returned NaN for the double
 root of a*x^2

With b = c = 0 both divisors of the stable quadratic formula are zero and
the second root was computed as 0 / 0.
---
 internal/ceres/polynomial.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..75f3fed 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -158,6 +158,11 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
 
   // Real roots.
   if (D >= 0) {
+    // A double root at zero makes the divisors below vanish. The roots are
+    // already set to zero.
+    if (b == 0.0 && D == 0.0) {
+      return;
+    }
     if (real != nullptr) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
-- 
2.43.0


From 48a1f66bc8c50c394966f78eccc08ff48f872faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 06/25] fix: DoglegStrategy let the trust region radius grow
 beyond max_radius

max_trust_region_radius is documented as an upper bound; only
LevenbergMarquardtStrategy enforced it.
---
 internal/ceres/dogleg_strategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..666a00f 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,7 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ = std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 1489c9575b5bd843de7b4295485d2a672c4077cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 07/25] fix: NumericDiffCostFunction::Evaluate reported success
 when a perturbed evaluation failed

---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From b132d15316db256ad06881e9ddbb10dd16616747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 08/25] fix: refine dense mixed precision solves with the
 symmetric matrix

DENSE_NORMAL_CHOLESKY and DENSE_SCHUR only fill one triangle of the normal
equations/Schur complement, but DenseIterativeRefiner computed its residuals
with the full matrix, so that with max_num_refinement_iterations > 0 the
refined solution was that of a different linear system.
---
 internal/ceres/iterative_refiner.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..d3efba4 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -91,7 +91,10 @@ void DenseIterativeRefiner::Refine(const int num_cols,
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    // Only one triangle of lhs is guaranteed to be filled: the lower triangle in
+    // column-major order (which is what DenseCholesky uses), i.e., the upper
+    // triangle of the row-major lhs.
+    residual_ = rhs - lhs.selfadjointView<Eigen::Upper>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
-- 
2.43.0


From 7f18b914248332513acca3736d39aa987e4edc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 09/25] fix: keep the original matrix when refining a dense
 Cholesky solution

The double precision DenseCholesky implementations factorize lhs in place, so
with max_num_refinement_iterations > 0 and use_mixed_precision_solves = false
the refinement computed its residuals with the Cholesky factor.
---
 internal/ceres/dense_cholesky.cc | 8 +++++---
 internal/ceres/dense_cholesky.h  | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..ccfc3c6 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,7 +329,9 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
+  // dense_cholesky_ may overwrite lhs with its factorization, and the residuals
+  // of the refinement are those of the original matrix.
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols);
   num_cols_ = num_cols;
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
@@ -337,14 +339,14 @@ LinearSolverTerminationType RefinedDenseCholesky::Factorize(
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
+  CHECK_EQ(lhs_.cols(), num_cols_);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      num_cols_, lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..a7629da 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,8 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  Matrix lhs_;
+  int num_cols_ = -1;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From 2c51376c2550f1ebbd9eeefb431829c56aa2b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 10/25] fix: start num_inner_iteration_steps at zero

It was initialized to -1 and only ever incremented, so that the summary
reported one inner iteration step too few.
---
 internal/ceres/solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..cdbf1bb 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -555,6 +555,7 @@ void PreSolveSummarize(const Solver::Options& options,
   // clang-format off
   summary->dense_linear_algebra_library_type  = options.dense_linear_algebra_library_type;
   summary->dogleg_type                        = options.dogleg_type;
+  summary->num_inner_iteration_steps          = 0;
   summary->inner_iteration_time_in_seconds    = 0.0;
   summary->num_line_search_steps              = 0;
   summary->line_search_cost_evaluation_time_in_seconds = 0.0;
-- 
2.43.0


From 1a366479d8006fc9ee8b4bc3f305c7927f3a26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 11/25] fix: a failed Plus is not convergence

If Plus(x, delta) fails, candidate_x_ is not a new point. After a successful
step it still equals x_, so that the parameter tolerance test succeeded and
the solver reported CONVERGENCE without having taken a step.
---
 internal/ceres/trust_region_minimizer.cc | 15 +++++++++++----
 internal/ceres/trust_region_minimizer.h  |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..9cd3ab6 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -107,10 +107,14 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
       DoLineSearch(x_, gradient_, x_cost_, &delta_);
     }
 
-    ComputeCandidatePointAndEvaluateCost();
+    const bool candidate_point_computed =
+        ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    // If Plus(x_, delta_) failed, candidate_x_ is not a new point (typically it
+    // still equals x_), so its distance to x_ says nothing about convergence.
+    if (atleast_one_successful_step && candidate_point_computed &&
+        ParameterToleranceReached()) {
       return;
     }
 
@@ -778,14 +782,16 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // a candidate point, and if for some reason we are unable to evaluate it, we
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
-void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
+//
+// Returns false if candidate_x_ could not be computed.
+bool TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
   if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
     }
     candidate_cost_ = std::numeric_limits<double>::max();
-    return;
+    return false;
   }
 
   if (!evaluator_->Evaluate(
@@ -796,6 +802,7 @@ void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
     }
     candidate_cost_ = std::numeric_limits<double>::max();
   }
+  return true;
 }
 
 bool TrustRegionMinimizer::IsStepSuccessful() {
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..b754926 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -65,7 +65,7 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   bool ComputeTrustRegionStep();
 
   bool EvaluateGradientAndJacobian(bool new_evaluation_point);
-  void ComputeCandidatePointAndEvaluateCost();
+  bool ComputeCandidatePointAndEvaluateCost();
 
   void DoLineSearch(const Vector& x,
                     const Vector& gradient,
-- 
2.43.0


From 621d86a4c90745cfc39bc2224b3ab4c4830e322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 12/25] fix: an exactly zero residual is convergence of
 conjugate gradients

When the conjugate gradients iteration solves the system exactly, and only the
quadratic model tolerance is in use (r_tolerance = -1), the next iteration
reported the failure rho = r'z = 0, which the trust region minimizer treats as
an invalid step. Five of these in a row end the solve with FAILURE.
---
 internal/ceres/conjugate_gradients_solver.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..03381a4 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -144,7 +144,9 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (options.min_num_iterations == 0 && norm_r <= tol_r) {
+  // If the residual is exactly zero there is nothing left to do, irrespective of
+  // the tolerances, and the iteration below would fail because r'z = 0.
+  if (norm_r == 0.0 || (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
         absl::StrFormat("Convergence. |r| = %e <= %e.", norm_r, tol_r);
@@ -286,8 +288,9 @@ LinearSolver::Summary ConjugateGradientsSolver(
 
     // Residual based termination.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r <= tol_r &&
-        summary.num_iterations >= options.min_num_iterations) {
+    if (norm_r == 0.0 ||
+        (norm_r <= tol_r &&
+         summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
           absl::StrFormat("Iteration: %d Convergence. |r| = %e <= %e.",
-- 
2.43.0


From cb65bc6080c99493edc4706aa2966d61e6e8c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 13/25] fix: rejected steps do not count towards the final cost

Solver::Summary::final_cost was the minimum over all iterations, including the
unsuccessful ones, so it could be the cost of a point that was rejected instead
of that of the parameters returned to the user.
---
 internal/ceres/solver_utils.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..b9a340b 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -55,6 +55,12 @@ void SetSummaryFinalCost(SummaryType* summary) {
   // iteration because the minimizer maybe making non-monotonic steps.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
+    // The cost of an unsuccessful step is that of a point which was rejected.
+    // It can be lower than that of the solution, e.g., if the decrease in the
+    // cost is not sufficient relative to the one predicted by the model.
+    if (!iteration_summary.step_is_successful) {
+      continue;
+    }
     summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
   }
 }
-- 
2.43.0


From 6f5559161da3ded56a3d6ec84bcb35279f7cec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 14/25] fix: the Wolfe line search may return a point other
 than the last evaluated

If the Wolfe line search returns its initial point, the gradient is evaluated
there again with new_evaluation_point = false, although the last point that was
evaluated is another one. With an EvaluationCallback, the cost functions then
see the state prepared for that other point.
---
 internal/ceres/line_search_minimizer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..f474adb 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -356,7 +356,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.gradient = optimal_point.vector_gradient;
     } else {
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      // The Armijo line search returns the last point it evaluated. The Wolfe
+      // line search always evaluates the gradient, so optimal_point can only be
+      // the initial point, and not the last one to be evaluated.
+      evaluate_options.new_evaluation_point =
+          options.line_search_type == WOLFE;
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 0cdca4bb6070f34b5b344b9f75ac69947a2e03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 15/25] fix: keep the best point when the Wolfe bracketing
 phase runs out of iterations

If the last step tried could not be evaluated, bracket_low remained the initial
position, although previous may be a better point satisfying the Armijo
condition. The line search then succeeded with a step of size zero.
---
 internal/ceres/line_search.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..4972ee0 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -616,10 +616,11 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
+      // If current is valid, then its value is at most that of previous, which
+      // is the last valid point (or the initial position).
       *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+          current.value_is_valid && current.value < previous.value ? current
+                                                                   : previous;
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From bbe8f3cf579dc39773b4b686c3ec9286b055ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 16/25] fix: iteration 0 of the line search minimizer is valid
 and successful, as documented

---
 internal/ceres/line_search_minimizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index f474adb..628b68a 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -107,8 +107,8 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
 
   IterationSummary iteration_summary;
   iteration_summary.iteration = 0;
-  iteration_summary.step_is_valid = false;
-  iteration_summary.step_is_successful = false;
+  iteration_summary.step_is_valid = true;
+  iteration_summary.step_is_successful = true;
   iteration_summary.cost_change = 0.0;
   iteration_summary.gradient_max_norm = 0.0;
   iteration_summary.gradient_norm = 0.0;
-- 
2.43.0


From 325d1257fdad2f992f0fca8f49fff8470fbd1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 17/25] fix: the Wolfe line search does not use points whose
 gradient is not finite

---
 internal/ceres/line_search.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 4972ee0..975492c 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -472,7 +472,8 @@ void WolfeLineSearch::DoSearch(const double step_size_estimate,
   // amongst those found thus far, which minimizes f() and satisfies the Armijo
   // condition.
 
-  if (!solution.value_is_valid || solution.value > bracket_low.value) {
+  if (!solution.value_is_valid || !solution.gradient_is_valid ||
+      solution.value > bracket_low.value) {
     summary->optimal_point = bracket_low;
   } else {
     summary->optimal_point = solution;
@@ -548,6 +549,10 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       break;
     }
 
+    // The remaining tests, and the use of current as the lower end of a bracket,
+    // require the gradient. A point without one is treated as an invalid point.
+    current.value_is_valid &= current.gradient_is_valid;
+
     if (current.value_is_valid &&
         fabs(current.gradient) <= -options().sufficient_curvature_decrease *
                                       initial_position.gradient) {
-- 
2.43.0


From e1257acd9cc933c195527bd3c9e2eafeb2494079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 18/25] fix: first order functions that evaluate to non-finite
 values are failures

---
 internal/ceres/gradient_problem_evaluator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_problem_evaluator.h b/internal/ceres/gradient_problem_evaluator.h
index d272f04..fc39355 100644
--- a/internal/ceres/gradient_problem_evaluator.h
+++ b/internal/ceres/gradient_problem_evaluator.h
@@ -31,6 +31,7 @@
 #ifndef CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 #define CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 
+#include <cmath>
 #include <map>
 #include <memory>
 #include <string>
@@ -40,6 +41,7 @@
 #include "ceres/execution_summary.h"
 #include "ceres/gradient_problem.h"
 #include "ceres/internal/disable_warnings.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/internal/export.h"
 #include "ceres/sparse_matrix.h"
 
@@ -70,7 +72,13 @@ class CERES_NO_EXPORT GradientProblemEvaluator final : public Evaluator {
     ScopedExecutionTimer call_type_timer(
         gradient == nullptr ? "Evaluator::Residual" : "Evaluator::Jacobian",
         &execution_summary_);
-    return problem_.Evaluate(state, cost, gradient);
+    if (!problem_.Evaluate(state, cost, gradient)) {
+      return false;
+    }
+    // As for residual blocks, values that are not finite are failures.
+    return std::isfinite(*cost) &&
+           (gradient == nullptr ||
+            ConstVectorRef(gradient, NumEffectiveParameters()).allFinite());
   }
 
   bool Plus(const double* state,
-- 
2.43.0


From 396af599a17d30c84452c15628dcd3947247bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 19/25] fix: do not modify the orderings in the user's
 Solver::Options

---
 internal/ceres/trust_region_preprocessor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..258a0d5 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -381,6 +381,18 @@ bool TrustRegionPreprocessor::Preprocess(const Solver::Options& options,
   EventLogger event_logger("TrustRegionPreprocessor::Preprocess");
   CHECK(pp != nullptr);
   pp->options = options;
+  // The orderings are modified below, but they belong to the user, who may use
+  // the same options again.
+  if (options.linear_solver_ordering != nullptr) {
+    pp->options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.linear_solver_ordering);
+  }
+  if (options.inner_iteration_ordering != nullptr) {
+    pp->options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.inner_iteration_ordering);
+  }
   ChangeNumThreadsIfNeeded(&pp->options);
 
   pp->problem = problem;
-- 
2.43.0


From f241fb3d87606aa0b6309ad05da1b83c50c69b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 20/25] fix: replace the power series preconditioner when there
 are no E blocks

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 7548edc5d666856d8368d7938ca9b6cb58fa2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:09 +0000
Subject: [PATCH 21/25] fix: the relative-Q test of conjugate gradients needs a
 negative Q

When conjugate gradients starts from a non-zero initial guess (SPSE
initialization in ITERATIVE_SCHUR) which is worse than zero, Q(x_i) is
positive in the first iterations, the ratio i * (Q(x_i) - Q(x_i-1)) / Q(x_i)
is negative, and the solver reported convergence after one iteration with
a point that increases the model. The trust region minimizer then ends in
FAILURE after a series of invalid steps.
---
 internal/ceres/conjugate_gradients_solver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index 03381a4..9520c67 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -272,8 +272,11 @@ LinearSolver::Summary ConjugateGradientsSolver(
     //   Journal of Computational and Applied Mathematics,
     //   124(1-2), 45-59, 2000.
     //
+    // The ratio measures the relative decrease of Q only once Q(x_i) is
+    // negative. When starting from a non-zero initial guess which is worse
+    // than zero, Q(x_i) is positive at first and the ratio is then negative.
     const double zeta = summary.num_iterations * (Q1 - Q0) / Q1;
-    if (zeta < options.q_tolerance &&
+    if (Q1 < 0.0 && zeta < options.q_tolerance &&
         summary.num_iterations >= options.min_num_iterations) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
-- 
2.43.0


From ed800da3273804ec9e741d6fc07c43d2d72103c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 22/25] fix: Covariance::Compute ignored a failed evaluation of
 the Jacobian

When a cost function fails, Problem::Evaluate returns false and leaves an
empty Jacobian behind. DENSE_SVD then read the first singular value of an
empty matrix; SPARSE_QR factorized an empty matrix.
---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..474c082 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -547,7 +547,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -714,7 +718,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -810,7 +818,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From a7609d9e0dedee55b36978a3e6f7f4fb15e9ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 23/25] fix: GetCovarianceBlock for a block which was not
 computed

The documentation promises false. The code dereferenced a null pointer if all
the requested blocks were zero, and otherwise read one past the
end of the column indices in the last rows.
---
 internal/ceres/covariance_impl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 474c082..0f4ef94 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -171,6 +171,13 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     std::swap(parameter_block1, parameter_block2);
   }
 
+  // None of the blocks requested from Compute() was non-zero.
+  if (covariance_matrix_ == nullptr) {
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   // Find where in the covariance matrix the block is located.
   const int row_begin =
       FindOrDie(parameter_block_to_row_index_, parameter_block1);
@@ -185,7 +192,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From 6f94475ab271ed4e9e087c5add269dfbddd86d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 24/25] fix: rank deficient Jacobians in Covariance with
 DENSE_SVD

A Jacobian with fewer rows than columns, or one that is zero, is rank deficient,
but Compute succeeded with null_space_rank = 0 and returned a pseudo-inverse
(or NaNs) instead of false, and dropped too many eigenvalues for
a positive null_space_rank.
---
 internal/ceres/covariance_impl.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 0f4ef94..b625f98 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -762,8 +762,25 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
-  const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+  // J'J has as many eigenvalues as the Jacobian has columns. If there are fewer
+  // singular values than that, the remaining eigenvalues are zero and
+  // are the first ones to be dropped.
+  const int num_cols = jacobian.num_cols;
+  if (!automatic_truncation &&
+      num_singular_values < num_cols - options_.null_space_rank) {
+    LOG(ERROR) << "Error: Covariance matrix is rank deficient and the user did "
+               << "not specify a large enough "
+               << "Covariance::Options::null_space_rank "
+               << "to enable the computation of a Pseudo-Inverse. "
+               << "Number of columns of the Jacobian: " << num_cols << " "
+               << "number of singular values: " << num_singular_values << " "
+               << "null_space_rank: " << options_.null_space_rank;
+    return false;
+  }
+  const int max_rank =
+      automatic_truncation
+          ? num_singular_values
+          : std::min(num_singular_values, num_cols - options_.null_space_rank);
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
@@ -772,7 +789,8 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
     const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    // The ratio is NaN if all singular values are zero.
+    if (!(singular_value_ratio >= min_singular_value_ratio)) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
-- 
2.43.0


From 85622ba5b04cedee3caeac29ecb8dd423459ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:48 +0000
Subject: [PATCH 25/25] fix: use the documented JacobiSVD in Covariance with
 DENSE_SVD

The BDCSVD of Eigen 3.4.0 returns a wrong decomposition (errors of order one)
for some matrices with 16 or more columns and repeated singular values, e.g.
when all parameter blocks have a prior of the same weight. covariance.h
documents that JacobiSVD is used.
---
 internal/ceres/covariance_impl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b625f98..14c971e 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -743,11 +743,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   event_logger.AddEvent("ConvertToDenseMatrix");
 
 #if EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
+  Eigen::JacobiSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
       dense_jacobian);
 #else   // !EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix> svd(dense_jacobian,
-                            Eigen::ComputeThinU | Eigen::ComputeThinV);
+  Eigen::JacobiSVD<Matrix> svd(dense_jacobian,
+                               Eigen::ComputeThinU | Eigen::ComputeThinV);
 #endif  // EIGEN_VERSION_AT_LEAST(5, 0, 0)
 
   event_logger.AddEvent("SingularValueDecomposition");
-- 
2.43.0

