"""The property table: generates properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NOT_APPLICABLE = []


def prop(id, module, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    PROPS.append(dict(id=id, module=module, note=note, p=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None))))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(id=id, reason=reason, p=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=[],
                     hook_needed=None))))


COMMON = (' Deductive: obligations generated from the LLVM IR of the current sources, every run; doubles as reals, '
          'integers as mathematical integers. Seeded run-time contract checks on the real code replay failures and are '
          'bounded, not counted as proved.')

prop('C02', 'jets',
     'Jet arithmetic is exact first-order differentiation',
     'For every value and every derivative part, each operation and function on ceres::Jet (the arithmetic operators in all their '
     'Jet/scalar and compound-assignment forms including aliasing operands, and every overloaded elementary function: sqrt, '
     'exp/log families, trigonometric, hyperbolic and inverse functions, hypot, atan2, pow, fma, fmin/fmax/fdim, erf, cbrt, Bessel, '
     'lerp, midpoint, ...) returns the function value of the scalar part and exactly the chain-rule combination of the derivative '
     'parts; comparisons look at the scalar part only; a Jet built from a constant has a zero derivative part and a seeded Jet a unit one; '
     'numeric_limits of a Jet are those of its scalar.',
     ['inputs'], 'every scalar part inside the function domain and every derivative vector, both operand orders, aliased operands',
     'jet_test compares with finite differences or identities at a few fixed numbers; it is outside the set that builds here',
     ['include/ceres/jet.h', 'include/ceres/jet_fwd.h'],
     [('operators and function overloads', 'include/ceres/jet.h')],
     ['a and v of the returned Jet'],
     'Symbolic differentiation of the specified function is compared with the returned derivative part, for dimension 3.')

prop('C03', 'rotations',
     'Rotation conversions all denote the same rotation',
     'For every input, each conversion between angle-axis, quaternion (w-first and w-last storage), rotation matrix (row- and '
     'column-major) and all 24 Euler-angle conventions denotes the same rotation: quaternion to matrix is the matrix of '
     'p -> q p q*/|q|^2 and orthonormal, angle-axis conversions give the Rodrigues matrix (identity at zero angle), matrix to '
     'quaternion gives +-q in every trace branch and storage order, matrix to angle-axis and matrix to Euler angles reproduce '
     'the matrix with angles in [-pi, pi], Euler systems equal the product of their elemental rotations, point rotation, '
     'quaternion product and conjugate agree with the quaternion algebra, and nothing outside the output is written.',
     ['inputs'], 'every angle-axis vector, unit or nonzero quaternion, rotation matrix, Euler triple, storage order and memory layout',
     'rotation_test samples fixed and random rotations for few layouts; the last-w storage order in the negative-trace branch '
     'was never reached; the test is outside the set that builds here',
     ['include/ceres/rotation.h', 'include/ceres/internal/euler_angles.h'],
     [('conversion templates', 'include/ceres/rotation.h'), ('Euler convention encoding', 'include/ceres/internal/euler_angles.h')],
     ['outputs of the public conversion functions'],
     'Polynomial and trigonometric identities discharged for all inputs; gimbal lock and the range normalisation of proper Euler '
     'angles only at run time (bounded).')

prop('C04', 'loss_functions',
     'Loss functions are consistent robustifiers with exact derivatives',
     'For every squared norm s >= 0 and every valid scale, each built-in loss (trivial, Huber, soft-L1, Cauchy, arctan, '
     'tolerant, Tukey) returns its documented rho(s) together with the exact first and second derivatives of that value; '
     'rho(0) = 0, the slope is never negative, the robust losses have non-positive curvature, and value and slope are '
     'continuous where a loss switches branch. Composed, scaled and wrapped losses follow the chain rule, the scale '
     'factor and the currently installed loss exactly, for arbitrary user losses, with a null loss meaning the identity.',
     ['inputs'], 'every s >= 0, every scale parameter the constructor accepts, arbitrary user losses inside the combinators',
     'the loss tests compare derivatives with finite differences at a handful of s values and one or two scales; the '
     'test is outside the set that builds here',
     ['include/ceres/loss_function.h', 'internal/ceres/loss_function.cc'],
     [('Evaluate of each loss', 'internal/ceres/loss_function.cc'), ('LossFunctionWrapper', 'include/ceres/loss_function.h')],
     ['rho[0..2] after Evaluate'],
     'Proof over the reals that rho[1], rho[2] are the symbolic derivatives of rho[0] on every path, for all inputs.')

prop('C05', 'corrector',
     'Robustifier correction reproduces the robustified cost',
     'For every residual vector, Jacobian and loss derivatives, correcting the Jacobian and then the residuals yields a linear '
     'least squares problem whose gradient is rho1 J^T r and whose Gauss-Newton matrix is rho1 J^T J + 2 rho2 J^T r r^T J when the '
     'curvature rho2 is positive and the residual nonzero, and rho1 J^T J otherwise; the corrected residual never flips sign or '
     'grows beyond sqrt(rho1) r, a zero slope removes the block, a non-positive slope with positive curvature is rejected, and '
     'nothing besides the residuals and the Jacobian is written.',
     ['inputs'], 'every residual and Jacobian, every squared norm, every (rho1, rho2)',
     'corrector_test compares random instances with finite tolerance; it is outside the set that builds here',
     ['internal/ceres/corrector.cc', 'internal/ceres/corrector.h'],
     [('Corrector', 'internal/ceres/corrector.cc')], ['residuals and jacobian after CorrectJacobian and CorrectResiduals'],
     'Proved for all values at Jacobian shapes up to 4x1, 3x2, 1x3; other shapes at run time (bounded).')

prop('C06', 'manifolds',
     'Manifold Plus and Minus are inverse charts with exact Jacobians',
     'For every point x of each built-in manifold (Euclidean, subset, unit quaternion in both storage orders, sphere of any radius, '
     'line with a direction of any length, product of arbitrary manifolds) and every tangent step: Plus(x, 0) = x, Plus stays on '
     'the manifold, Minus(x, x) = 0, Minus(Plus(x, d), x) = d inside the injectivity radius and Plus(x, Minus(y, x)) = y, PlusJacobian and '
     'MinusJacobian are the derivatives at the base point and MinusJacobian PlusJacobian = I, RightMultiplyByPlusJacobian '
     'multiplies by exactly that Jacobian, constant coordinates of a subset manifold never move, a product acts block-wise, and '
     'nothing outside the outputs is written.',
     ['inputs'], 'every point on the manifold, every tangent vector, every ambient matrix',
     'manifold_test draws a few hundred random points of moderate size; the test is outside the set that builds here',
     ['include/ceres/manifold.h', 'internal/ceres/manifold.cc', 'include/ceres/sphere_manifold.h', 'include/ceres/line_manifold.h',
      'include/ceres/product_manifold.h', 'include/ceres/internal/sphere_manifold_functions.h',
      'include/ceres/internal/householder_vector.h', 'include/ceres/autodiff_manifold.h'],
     [('Plus, Minus and Jacobians', 'internal/ceres/manifold.cc'), ('Householder reflections', 'include/ceres/internal/householder_vector.h')],
     ['outputs of the Manifold interface'],
     'Chart identities proved for all values; sphere and line dimensions 2..4, subset patterns and matrix heights are the instantiated ones, '
     'others and AutoDiffManifold at run time (bounded).')

prop('C09', 'cubic_interpolation',
     'Cubic and bicubic interpolation is the Catmull-Rom interpolant of the grid',
     'For every coordinate and every grid, CubicInterpolator and BiCubicInterpolator return the (tensor product) Catmull-Rom spline through '
     'the grid samples around the coordinate: samples are reproduced at integer coordinates, neighbouring segments join with equal value '
     'and slope, the returned derivatives (row, column, Jet chain rule, any subset of them requested) are exactly those of the returned '
     'value, Grid1D and Grid2D address the sample of the clamped index for every range, data dimension and layout (row/column major, '
     'interleaved/stacked) without reading outside the data, and nothing outside the outputs is written.',
     ['inputs'], 'every coordinate (far outside the grid included), every grid extent and offset, every layout',
     'cubic_interpolation_test samples a few polynomials on fixed grids; it is outside the set that builds here',
     ['include/ceres/cubic_interpolation.h'],
     [('CubicHermiteSpline', 'include/ceres/cubic_interpolation.h'), ('Grid2D::GetValue', 'include/ceres/cubic_interpolation.h')],
     ['f, dfdx, dfdr, dfdc and GetValue outputs'],
     'Proved for an arbitrary user grid of dimension 2 and for Grid1D/Grid2D with symbolic extents, dimensions 1..3.')

prop('C10', 'polynomials',
     'Polynomial evaluation, roots, minimisation and interpolation are exact',
     'For every coefficient vector: evaluation is the sum of coefficient times power, differentiation gives the derivative '
     'coefficients, root finding ignores leading zeros, returns one finite complex root per degree with real roots of zero '
     'imaginary part and complex ones in conjugate pairs (linear, quadratic including double roots, and higher degrees), and fails on '
     'an empty polynomial; MinimizePolynomial returns a point of the interval with its value such that no point of the interval is lower; the '
     'interpolating polynomial has the degree given by the valid constraints and reproduces every valid value and gradient.',
     ['inputs'], 'every coefficient vector, interval and set of samples with any validity flags',
     'polynomial_test checks a few hand-written roots; it is outside the set that builds here and missed the double root at zero',
     ['internal/ceres/polynomial.cc', 'internal/ceres/polynomial.h'],
     [('FindPolynomialRoots', 'internal/ceres/polynomial.cc'), ('MinimizePolynomial', 'internal/ceres/polynomial.cc')],
     ['returned roots, coefficients, minimiser and value'],
     'Proved up to degree 2 for roots, 5 for evaluation and derivatives, 4 for minimisation (callee contracts for roots and evaluation); higher '
     'degrees and interpolation at run time (bounded).')


prop('C11', 'trust_region',
     'Trust region strategies take the step they document and keep a valid radius',
     'For every Jacobian, residual, options and history of accepted, rejected and invalid steps: Levenberg-Marquardt solves with '
     'D^2 = clamp(diag(J^T J), min, max) / radius, refreshed exactly after accepted steps, and returns minus the solution; dogleg returns the '
     'Gauss-Newton step when it fits in the (elliptical) region and otherwise the dogleg point on the boundary (traditional) or the minimiser over '
     'the two-dimensional subspace boundary, re-linearises exactly after accepted or invalid steps and retries failed solves with ten times the '
     'regularisation; failed, fatal or non-finite solves are reported as such; the radius is updated by the documented rules, stays '
     'positive and never exceeds max_radius; the step evaluator implements nonmonotonic acceptance (Conn, Gould and Toint 10.1.2), and '
     'in monotonic mode only decreasing costs have positive quality.',
     ['inputs', 'histories'], 'every state reached by any sequence of actions, every solver outcome, every radius and quality',
     'the strategy tests check a few fixed steps; they are outside the set that builds here; the dogleg radius grew beyond max_radius',
     ['internal/ceres/levenberg_marquardt_strategy.cc', 'internal/ceres/dogleg_strategy.cc', 'internal/ceres/trust_region_step_evaluator.cc'],
     [('ComputeStep', 'internal/ceres/dogleg_strategy.cc'), ('radius updates', 'internal/ceres/levenberg_marquardt_strategy.cc')],
     ['step, summary and Radius() after each action'],
     'Radius updates and the evaluator are proved from an arbitrary state (inductive); ComputeStep for two parameters and histories up to three '
     'steps; the subspace minimiser only at run time (bounded).')


prop('C12', 'tr_minimizer',
     'The trust region solver returns the best accepted point and a truthful summary, whatever the linear solver',
     'For every problem, strategy, callback and option: a trust region Solve returns the accepted point of lowest cost (never one worse than the start), '
     'and the summary says the truth about it: initial, fixed and final cost, step counts, iteration records, gradient norms, termination type and reason. '
     'It declares convergence only if one of the documented criteria holds for an evaluated step; failing evaluations, failing Plus and failing linear '
     'solves are invalid or rejected steps (of infinite cost) and never corrupt the current point; the strategy is told of each step exactly once with its '
     'true quality; callbacks see every iteration once, and their verdict, the iteration limit and the time limit are obeyed; evaluation callbacks see every '
     'new point before it is used. All linear solvers, with any preconditioner, mixed precision or refinement, reach the same optimum of a convex problem. '
     'The same problem solved twice gives the same result.',
     ['inputs', 'histories'], 'every sequence of step results (success, failure, rejected, invalid), cost values, callback verdicts, linear solver choices',
     'trust_region_minimizer_test and solver_test run a few fixed problems to convergence and are outside the set that builds here',
     ['internal/ceres/trust_region_minimizer.cc', 'internal/ceres/trust_region_step_evaluator.cc', 'internal/ceres/minimizer.cc', 'internal/ceres/solver.cc',
      'internal/ceres/solver_utils.h', 'internal/ceres/callbacks.cc', 'internal/ceres/coordinate_descent_minimizer.cc', 'internal/ceres/iterative_refiner.cc',
      'internal/ceres/dense_cholesky.cc', 'internal/ceres/conjugate_gradients_solver.h', 'internal/ceres/line_search_minimizer.cc'],
     [('TrustRegionMinimizer::Minimize', 'internal/ceres/trust_region_minimizer.cc'), ('Minimizer::RunCallbacks', 'internal/ceres/minimizer.cc')],
     ['Solver::Summary, parameter values after Solve, calls of callbacks'],
     'TrustRegionMinimizer::Minimize is proved for uninterpreted evaluators, strategies and callbacks for up to two trust region steps in 12 option variants; '
     'longer runs, Solve and the linear solvers only at run time (bounded).')


prop('C13', 'tiny_solver',
     'TinySolver is a descending Levenberg-Marquardt whose summary describes the returned point',
     'For every residual function, start and options, TinySolver::Solve starts at x, solves the Jacobi-scaled normal equations with the clamped '
     'diagonal times 1/radius in every iteration, accepts a trial point exactly when the cost decreases as the model predicts (so the cost never '
     'increases), adapts the radius by the documented rule, and stops with the status whose criterion holds; the returned x is the last accepted point, and '
     'initial_cost, final_cost, gradient_max_norm, Residuals() and Jacobian() are those of the initial and the returned x. The autodiff and cost function '
     'adapters return residuals and the column-major Jacobian for every combination of static and dynamic sizes and pass failures on.',
     ['inputs'], 'every user function, start, options and linear solver result',
     'tiny_solver_test solves two small problems; it is outside the set that builds here',
     ['include/ceres/tiny_solver.h', 'include/ceres/tiny_solver_autodiff_function.h', 'include/ceres/tiny_solver_cost_function_adapter.h'],
     [('Solve and Update', 'include/ceres/tiny_solver.h')], ['x, Summary, Residuals(), Jacobian()'],
     'Proved for uninterpreted user function and solver at sizes 1x1, 2x1, 2x2 and up to two iterations; more iterations, LDLT and dynamic sizes at '
     'run time (bounded).')


prop('C17', 'numeric_diff',
     'Numeric differentiation is the documented finite difference and never hides a failure',
     'For every user functor, parameters and options, the numeric differentiation cost functions (static, with dynamic residuals, dynamic blocks) and '
     'first order functions return the residuals of the functor at the given parameters and, in exactly the requested Jacobian blocks, the forward, '
     'central or Ridders (Romberg tableau of central differences, best error estimate) quotient, perturbing one coordinate at a time by '
     'max(sqrt(eps), |x| times the relative step); if any evaluation of the functor fails, Evaluate returns false; the parameters are left as '
     'they were and nothing else is written.',
     ['inputs'], 'every functor (uninterpreted, failing anywhere), every parameter value, option and set of requested blocks',
     'numeric_diff_cost_function_test checks smooth functions at one point and is outside the set that builds here; it never makes a perturbed evaluation fail',
     ['include/ceres/internal/numeric_diff.h', 'include/ceres/numeric_diff_cost_function.h', 'include/ceres/dynamic_numeric_diff_cost_function.h',
      'include/ceres/numeric_diff_first_order_function.h'],
     [('EvaluateJacobianForParameterBlock', 'include/ceres/internal/numeric_diff.h'), ('Evaluate', 'include/ceres/dynamic_numeric_diff_cost_function.h')],
     ['residuals, Jacobians, return value, points at which the functor is called'],
     'Proved for an uninterpreted functor at small block sizes and up to two Ridders extrapolations; larger sizes and accuracy at run time (bounded).')


prop('C18', 'adapters',
     'Cost function adapters return exactly the values and derivatives of what they wrap',
     'For every functor or cost function, parameter values and set of requested Jacobian blocks: AutoDiffCostFunction, DynamicAutoDiffCostFunction (any '
     'stride, any pattern of skipped blocks) and AutoDiffFirstOrderFunction return the functor values and its exact derivatives in the documented row-major '
     'layout; CostFunctionToFunctor and DynamicCostFunctionToFunctor return the wrapped values and, on Jets, derivatives by the chain rule; '
     'ConditionedCostFunction applies each conditioner to its residual and scales the matching Jacobian rows; NormalPrior returns A (x - b) with Jacobian A; '
     'all of them report the declared sizes, pass on every failure, write only requested output and do not change the parameters.',
     ['inputs'], 'every functor (uninterpreted with uninterpreted derivatives), parameters, request mask, failing call',
     'autodiff_test, dynamic_autodiff_cost_function_test etc. use one functor and a few masks each',
     ['include/ceres/internal/autodiff.h', 'include/ceres/autodiff_cost_function.h', 'include/ceres/dynamic_autodiff_cost_function.h',
      'include/ceres/autodiff_first_order_function.h', 'include/ceres/cost_function_to_functor.h', 'include/ceres/dynamic_cost_function_to_functor.h',
      'internal/ceres/conditioned_cost_function.cc', 'internal/ceres/normal_prior.cc'],
     [('DynamicAutoDiffCostFunction::Evaluate', 'include/ceres/dynamic_autodiff_cost_function.h'), ('AutoDifferentiate', 'include/ceres/internal/autodiff.h')],
     ['residuals, Jacobians, return value'],
     'Proved for uninterpreted functors with blocks (2,1) and (2,1,2), two residuals, strides 1 to 4 and all masks; other sizes at run time (bounded).')


prop('C14', 'parameter_block',
     'Solves respect bounds, constant blocks and manifolds, and Problem reports what the user set',
     'For every sequence of Problem calls, bounds, constancy, manifolds and sizes read back as last set; a bound that was never set is infinite. '
     'Plus on a parameter block is the manifold (or Euclidean) sum projected on the box, whichever bounds are present. In every iterate and in the returned '
     'solution of Solve, whatever the minimizer, strategy and linear solver: constant blocks and constant coordinates of subset manifolds keep their exact '
     'value, values stay within their bounds, and blocks stay on their manifold; an infeasible start is projected on the bounds; empty bounds or an '
     'infeasible constant block is refused and leaves every parameter unchanged.',
     ['inputs', 'histories'], 'every sequence of interface calls, parameter values, bounds, manifold (failing ones included) and options',
     'parameter_block_test and problem_test check one value per call and are outside the set that builds here',
     ['internal/ceres/parameter_block.h', 'internal/ceres/problem_impl.cc', 'internal/ceres/program.cc', 'internal/ceres/trust_region_minimizer.cc'],
     [('ParameterBlock', 'internal/ceres/parameter_block.h'), ('Program::Plus, IsFeasible', 'internal/ceres/program.cc')],
     ['values of the parameter blocks, getters of Problem'],
     'Plus and the parameter block state are proved for an uninterpreted manifold and all bounds at size 2; the Problem interface and Solve only at run '
     'time (bounded).')


prop('C15', 'residual_block',
     'Evaluation returns the robustified cost, residuals, gradient and tangent Jacobian of the requested part of the problem',
     'For every problem and every evaluation option: the cost is the sum of rho(|f|^2)/2 over the requested residual blocks, residuals and Jacobians are '
     'those of the user function times the manifold Plus Jacobian, corrected for the loss exactly once and only if it is to be applied, the gradient is '
     'J^T r, columns follow the requested parameter blocks, constant or excluded ones are not differentiated; an evaluation that fails, leaves '
     'residuals or Jacobians unwritten or produces a non-finite number is reported as a failure; parameter values and the state of the problem are as '
     'before, and nothing but the requested outputs is written.',
     ['inputs'], 'every cost function, loss and manifold (uninterpreted, failing), parameter values, set of requested outputs, threads',
     'residual_block_test uses constant functions, problem_test a few fixed problems; they are outside the set that builds here',
     ['internal/ceres/residual_block.cc', 'internal/ceres/residual_block_utils.cc', 'internal/ceres/array_utils.cc', 'internal/ceres/problem_impl.cc',
      'internal/ceres/program_evaluator.h', 'internal/ceres/scratch_evaluate_preparer.cc', 'internal/ceres/block_evaluate_preparer.cc',
      'internal/ceres/compressed_row_jacobian_writer.cc'],
     [('ResidualBlock::Evaluate', 'internal/ceres/residual_block.cc'), ('ProblemImpl::Evaluate', 'internal/ceres/problem_impl.cc')],
     ['cost, residuals, gradient, Jacobian of Problem::Evaluate and EvaluateResidualBlock'],
     'ResidualBlock::Evaluate is proved for uninterpreted functions, losses and manifolds with blocks of size 2 and 1; assembly over the whole problem only '
     'at run time (bounded).')


prop('C19', 'line_search',
     'Line search minimisation never goes uphill, honours the Wolfe and Armijo conditions, and reports the truth',
     'For every function, start, direction and option: an Armijo search that succeeds returns a valid point with sufficient decrease; a Wolfe search that '
     'succeeds without running out of budget returns a point satisfying the strong Wolfe conditions (or the best acceptable point when the bracket is narrower '
     'than the minimum step), never a point worse than the start, an invalid point, or a point other than position + step * direction with its own value and '
     'gradient; invalid evaluations contract the step and budgets are obeyed and counted. Search directions are steepest descent, the three nonlinear conjugate '
     'gradient formulas with restart, and exactly the (L)BFGS inverse Hessian update of the last accepted pairs; directions that do not descend are refused. '
     'Solve with LINE_SEARCH and GradientProblemSolver therefore decrease the cost monotonically, return the best point, reach the minimum of convex quadratics, '
     'tell the truth in their summaries, leave parameters alone when the solution is unusable, and obey callbacks and limits.',
     ['inputs', 'histories'], 'every function value, slope and validity along the search, all interpolation types, iteration limits and directions',
     'line_search_minimizer_test and line_search tests are outside the set that builds here and sample a few functions that never fail',
     ['internal/ceres/line_search.cc', 'internal/ceres/line_search_direction.cc', 'internal/ceres/low_rank_inverse_hessian.cc',
      'internal/ceres/line_search_minimizer.cc', 'internal/ceres/gradient_problem_solver.cc', 'internal/ceres/gradient_problem_evaluator.h',
      'internal/ceres/function_sample.cc'],
     [('ArmijoLineSearch::DoSearch, WolfeLineSearch::DoSearch', 'internal/ceres/line_search.cc'),
      ('LineSearchDirection::NextDirection', 'internal/ceres/line_search_direction.cc'),
      ('LineSearchMinimizer::Minimize', 'internal/ceres/line_search_minimizer.cc')],
     ['LineSearch::Summary, search directions, GradientProblemSolver::Summary, Solver::Summary, parameter values after Solve'],
     'LineSearchFunction, both searches (up to three iterations, every value and validity), the directions (up to three points) and LowRankInverseHessian (up to '
     'three updates) are proved; LineSearchMinimizer and GradientProblemSolver are checked at run time.')

prop('C01', 'small_blas',
     'The small dense kernels compute exactly the products they name and write nothing else',
     'For every block size (fixed at compile time or dynamic, including the remainders of the unrolled loops), every leading dimension and offset of the '
     'destination, and every value: MatrixMatrixMultiply, MatrixTransposeMatrixMultiply, MatrixVectorMultiply and MatrixTransposeVectorMultiply '
     'set, add or subtract exactly A B, A^T B, A b and A^T b in the destination block, read only the operands, and leave every other element of the destination as it was.',
     ['inputs'], 'every matrix and vector value, sizes of every residue of the unrolling, all three kinds of operation, all compile-time size combinations in use',
     'small_blas_test samples random matrices of a few sizes; it is outside the set that builds here',
     ['internal/ceres/small_blas.h', 'internal/ceres/small_blas_generic.h'],
     [('MatrixMatrixMultiply and friends', 'internal/ceres/small_blas.h'), ('MMM_mat1x4, MTM_mat1x4, MVM_mat4x1, MTV_mat4x1', 'internal/ceres/small_blas_generic.h')],
     ['the destination array before and after'],
     'Proved for every value at sizes that take every residue of the unrolled loops; the sizes are a finite list (bounded in the dimension, not in the values).')

prop('C07', 'sparse_matrices',
     'Every sparse matrix format stands for one dense matrix, and all its operations agree with it',
     'For every matrix in triplet, compressed row, block sparse or dense storage: conversion between formats, transposition, appending rows, columns and '
     'diagonal blocks, deletion, resizing, copies and exports denote the same dense matrix; left and right products (with any number of threads and '
     'with lower or upper symmetric storage), column norms, column scaling and SetZero are those of that matrix, products accumulate, '
     'and row pointers, column order and counts stay consistent.',
     ['inputs', 'histories'], 'every value, sparsity pattern, duplicate and unsorted entries, block structure, storage type, number of threads',
     'compressed_row_sparse_matrix_test and its kin use a few fixed matrices and are outside the set that builds here',
     ['internal/ceres/compressed_row_sparse_matrix.cc', 'internal/ceres/triplet_sparse_matrix.cc', 'internal/ceres/block_sparse_matrix.cc',
      'internal/ceres/dense_sparse_matrix.cc', 'internal/ceres/block_structure.cc', 'internal/ceres/sparse_matrix.cc'],
     [('CompressedRowSparseMatrix', 'internal/ceres/compressed_row_sparse_matrix.cc'), ('TripletSparseMatrix', 'internal/ceres/triplet_sparse_matrix.cc'),
      ('BlockSparseMatrix', 'internal/ceres/block_sparse_matrix.cc')],
     ['values, rows, cols of the matrix, the dense form, results of products'],
     'Proved for every value on fixed patterns; other patterns, block structures and threads at run time (bounded).')

prop('C16', 'parallel',
     'A parallel loop visits every index exactly once, whatever the schedule',
     'For every range, number of threads, minimal block size, partition or cost: ParallelFor runs its function on every index of the range exactly once and on '
     'nothing else, passes thread ids below the number of threads that no two running tasks share, returns only when all work is done and visible, '
     'and may be nested; the work is cut into contiguous nonempty blocks, by cumulative cost with the least possible maximal cost per part; '
     'the linear index of a triangle enumerates every pair once; the thread pool runs every task, the queue hands out every item once in order; vector operations '
     'touch exactly their elements.',
     ['schedules', 'inputs'], 'every interleaving of the claims of workers, every range, number of threads, costs',
     'parallel_for_test samples a few ranges and schedules; it is outside the set that builds here',
     ['internal/ceres/parallel_invoke.h', 'internal/ceres/parallel_invoke.cc', 'internal/ceres/parallel_for.h', 'internal/ceres/partition_range_for_parallel_for.h',
      'internal/ceres/parallel_utils.cc', 'internal/ceres/parallel_vector_ops.h', 'internal/ceres/parallel_vector_ops.cc', 'internal/ceres/thread_pool.cc',
      'internal/ceres/concurrent_queue.h'],
     [('ParallelInvoke', 'internal/ceres/parallel_invoke.h'), ('ParallelFor', 'internal/ceres/parallel_for.h'),
      ('MaxPartitionCostIsFeasible, PartitionRangeForParallelFor', 'internal/ceres/partition_range_for_parallel_for.h')],
     ['the indices, ranges and thread ids the function is called with'],
     'ParallelInvoke, InvokeOnSegment, ParallelFor and the triangle are proved without bounds, by a loop invariant and rely/guarantee on the two atomic counters; '
     'the partition search is proved up to 4 indices; thread pool and queue at run time under ThreadSanitizer (bounded).')


prop('C08', 'schur',
     'The Schur complement is the exact reduced normal equations, explicitly and implicitly',
     'For every block sparse Jacobian [E F] whose rows are grouped by their E block, every right hand side b and every diagonal D (or none), with any block sizes '
     'and number of threads: SchurEliminator (general, fixed size and one-F-block forms) computes the upper block triangle of '
     "F'F + D_F^2 - F'E (E'E + D_E^2)^-1 E'F and the matching right hand side, writing only cells the destination has; back substitution gives "
     "y = (E'E + D_E^2)^-1 E'(b - F z), so that (y, z) solves the full normal equations; ImplicitSchurComplement applies the same operator, right hand side, "
     'back substitution and block diagonal inverses without forming it; PartitionedMatrixView multiplies by E, F and their transposes and forms the block '
     "diagonals of E'E and F'F; InnerProductComputer computes A'A over the rows asked for; the Schur Jacobi and power series preconditioners and the random "
     'access matrices are the matrices they stand for; InvertPSDMatrix returns the inverse, or the pseudo inverse when full rank is not assumed.',
     ['inputs', 'schedules'], 'every value of A, b, D; block structures with shared, missing and extra F blocks, rows without E, several rows per chunk',
     'the schur tests need the problem files and sample a handful of structures; they are outside the set that builds here',
     ['internal/ceres/schur_eliminator_impl.h', 'internal/ceres/schur_eliminator.h', 'internal/ceres/partitioned_matrix_view_impl.h',
      'internal/ceres/implicit_schur_complement.cc', 'internal/ceres/inner_product_computer.cc', 'internal/ceres/invert_psd_matrix.h',
      'internal/ceres/block_random_access_dense_matrix.cc', 'internal/ceres/block_random_access_sparse_matrix.cc',
      'internal/ceres/block_random_access_diagonal_matrix.cc', 'internal/ceres/schur_jacobi_preconditioner.cc',
      'internal/ceres/power_series_expansion_preconditioner.cc'],
     [('SchurEliminator::Eliminate, BackSubstitute', 'internal/ceres/schur_eliminator_impl.h'),
      ('PartitionedMatrixView', 'internal/ceres/partitioned_matrix_view_impl.h'),
      ('ImplicitSchurComplement', 'internal/ceres/implicit_schur_complement.cc'), ('InnerProductComputer::Compute', 'internal/ceres/inner_product_computer.cc'),
      ('InvertPSDMatrix', 'internal/ceres/invert_psd_matrix.h')],
     ['lhs, rhs, y, products, block diagonals'],
     'Proved for every value on listed block structures, one sequential schedule of the parallel loops; other structures, threads, pseudo inverses and the sparse and '
     'diagonal destinations at run time (bounded).')


prop('C20', 'linear_solvers',
     'A linear solver that reports success has solved the stated regularised least squares problem',
     'For every Jacobian A, right hand side b and optional diagonal D, whatever the linear solver (dense and sparse normal Cholesky, dense QR, dense, sparse and '
     'iterative Schur, CGNR, with any preconditioner, mixed precision refinement, thread count and ordering), a SUCCESS result satisfies (A\'A + D\'D) x = A\'b to the '
     'accuracy of its class and stopping rule; direct solvers succeed on well conditioned problems, rank deficiency is reported and never answered with '
     'non-finite values as success, A, b and D are not modified, and a reused solver answers for the newest values. Conjugate gradients keeps r = b - A x exactly at '
     'every residual reset and stops only for the documented reasons; block Jacobi preconditioners are the inverses of the diagonal blocks of A\'A + D\'D; '
     'iterative refinement accumulates corrections of the true residual; DetectStructure returns the common block sizes or "dynamic".',
     ['inputs', 'histories'], 'every matrix, vector, preconditioner and number of iterations',
     'solver tests outside the set that builds here solve a couple of fixed systems; none follows an iteration, a reuse or a preconditioner update',
     ['internal/ceres/conjugate_gradients_solver.h', 'internal/ceres/detect_structure.cc', 'internal/ceres/block_jacobi_preconditioner.cc',
      'internal/ceres/dense_cholesky.cc', 'internal/ceres/iterative_refiner.cc', 'internal/ceres/cgnr_linear_operator.h', 'internal/ceres/cgnr_solver.cc',
      'internal/ceres/schur_complement_solver.cc', 'internal/ceres/iterative_schur_complement_solver.cc', 'internal/ceres/sparse_normal_cholesky_solver.cc',
      'internal/ceres/dense_normal_cholesky_solver.cc', 'internal/ceres/dense_qr_solver.cc', 'internal/ceres/dynamic_sparse_normal_cholesky_solver.cc',
      'internal/ceres/sparse_cholesky.cc', 'internal/ceres/eigensparse.cc', 'internal/ceres/subset_preconditioner.cc'],
     [('ConjugateGradientsSolver', 'internal/ceres/conjugate_gradients_solver.h'), ('DetectStructure', 'internal/ceres/detect_structure.cc'),
      ('BlockSparseJacobiPreconditioner, BlockCRSJacobiPreconditioner', 'internal/ceres/block_jacobi_preconditioner.cc'),
      ('EigenDenseCholesky, RefinedDenseCholesky', 'internal/ceres/dense_cholesky.cc'), ('DenseIterativeRefiner::Refine', 'internal/ceres/iterative_refiner.cc'),
      ('CgnrLinearOperator', 'internal/ceres/cgnr_linear_operator.h')],
     ['solutions, summaries, preconditioner products, block sizes'],
     'Conjugate gradients is proved for any number of iterations by an inductive loop invariant on one and two variables with symbolic operator and arbitrary '
     'preconditioner; block structures are fixed; everything else runs against a dense oracle (bounded).')


prop('C21', 'program',
     'A problem is exactly the set of blocks the user put into it, and every reordering or reduction of it is faithful',
     'Whatever sequence of additions, removals, constancy, manifold and bound changes built a Problem, with or without fast removal, every query (counts, sizes, '
     'membership, bounds, manifolds, the residual blocks of a parameter block and vice versa) answers for exactly the blocks that are there; removing a parameter '
     'block removes the residual blocks that use it; owned cost functions, losses and manifolds are deleted exactly once and never while in use, others never. '
     'Offsets and indices number the blocks consecutively; states move between vectors, blocks and user memory without touching constant blocks; Plus acts block by '
     'block and fails exactly when a manifold fails; feasibility and bound detection look at the right blocks. Reducing a program removes exactly the constant '
     'and unused parameter blocks and the residual blocks without variables, whose cost is the fixed cost, and keeps the order. Reorderings (sparse Cholesky, Schur, user '
     'groups, partitions) are permutations with groups in order and eliminated blocks independent, first and grouped; ordered groups and graphs are what they say.',
     ['inputs', 'histories'], 'every edit history, constancy pattern, bound, value and order',
     'problem_test, program_test, parameter_block_ordering_test and reorder_program_test are not in the set that builds here and follow a few short histories',
     ['internal/ceres/problem_impl.cc', 'internal/ceres/problem.cc', 'internal/ceres/program.cc', 'internal/ceres/reorder_program.cc', 'internal/ceres/parameter_block_ordering.cc',
      'internal/ceres/graph.h', 'internal/ceres/graph_algorithms.h', 'include/ceres/ordered_groups.h', 'internal/ceres/parameter_block.h'],
     [('Program', 'internal/ceres/program.cc'), ('LexicographicallyOrderResidualBlocks', 'internal/ceres/reorder_program.cc'),
      ('ProblemImpl', 'internal/ceres/problem_impl.cc'), ('StableIndependentSetOrdering', 'internal/ceres/graph_algorithms.h'), ('OrderedGroups', 'include/ceres/ordered_groups.h')],
     ['blocks, indices, offsets, states, fixed cost, orders, deletions'],
     'Program and the residual block order are proved for every value, bound and pattern of constant blocks on listed structures; the Problem object, orders and graphs '
     'run against a model over random histories (bounded).')


prop('C22', 'front_end',
     'Solve accepts exactly the valid options, refuses the rest without touching anything, and every valid configuration solves the same problem',
     'Solver::Options::IsValid is true exactly when every documented constraint (tolerances, radii, line search constants, what each linear solver, preconditioner and '
     'library combination supports) holds. Invalid options, non-finite or infeasible parameters, failing or unwritten first evaluations and wrong user Jacobians under '
     'gradient checking end in FAILURE with a message and leave every parameter untouched. On a convex linear problem every valid configuration (minimizer, strategy, linear '
     'solver, preconditioner, ordering, threads, precision, inner iterations) returns the optimum of the variable blocks, never moves constant ones, and its summary tells the '
     'truth about sizes, costs, options and orderings. Solving does not change the user\'s options: the same options serve again whatever blocks are constant then. The gradient '
     'checker passes exactly when user and numeric tangent Jacobians agree. Enum names read back to the same values.',
     ['inputs', 'histories'], 'every option value and every configuration, problem state and sequence of solves',
     'solver_test and the preprocessor tests are not in the set that builds here; they try single configurations and never the same options twice',
     ['internal/ceres/solver.cc', 'include/ceres/solver.h', 'internal/ceres/preprocessor.cc', 'internal/ceres/trust_region_preprocessor.cc', 'internal/ceres/line_search_preprocessor.cc',
      'internal/ceres/preconditioner.cc', 'internal/ceres/gradient_checker.cc', 'internal/ceres/gradient_checking_cost_function.cc', 'internal/ceres/types.cc'],
     [('Solver::Options::IsValid', 'internal/ceres/solver.cc'), ('Solver::Solve', 'internal/ceres/solver.cc'), ('TrustRegionPreprocessor::Preprocess', 'internal/ceres/trust_region_preprocessor.cc'),
      ('GradientChecker::Probe', 'internal/ceres/gradient_checker.cc'), ('StringToLinearSolverType', 'internal/ceres/types.cc')],
     ['return value of IsValid, Summary, user parameters and options after Solve'],
     'The validity of options and the usability of a solution are proved for every value of every option (finite doubles; not-a-number at run time); whole solves, refusals, '
     'repeated solves, the gradient checker and the names run against dense references over random problems and configurations (bounded).')

prop('C23', 'covariance',
     'Covariance estimates are the requested blocks of the (pseudo) inverse of J\'J, or an honest failure',
     'Covariance::Compute at the user\'s parameters succeeds exactly when the tangent Jacobian of all residual blocks can be evaluated and its rank allows the estimate: full column '
     'rank for SPARSE_QR, at most null_space_rank vanishing eigenvalues for DENSE_SVD (any number with -1). Then every requested block, in both orientations and in the tangent and '
     'the ambient space (lifted with the Plus Jacobians), alone or within a covariance matrix, is that block of the inverse of J\'J, or of its pseudo-inverse without the smallest '
     'null_space_rank eigenvalues; blocks of constant or unused parameters are zero; a block which was not requested is refused, and nothing behind a block is written. The '
     'parameters are not touched, the object can be used again, and neither algorithm, number of threads nor orientation and order of the requests matters.',
     ['inputs', 'histories'], 'every problem, set of requested blocks, rank and sequence of queries',
     'covariance_test is not in the set that builds here; it compares a handful of small problems of fixed structure',
     ['internal/ceres/covariance_impl.cc', 'internal/ceres/covariance.cc', 'internal/ceres/compressed_col_sparse_matrix_utils.h', 'include/ceres/covariance.h'],
     [('CovarianceImpl::ComputeCovarianceSparsity', 'internal/ceres/covariance_impl.cc'), ('CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace', 'internal/ceres/covariance_impl.cc'),
      ('CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace', 'internal/ceres/covariance_impl.cc'), ('SolveRTRWithSparseRHS', 'internal/ceres/compressed_col_sparse_matrix_utils.h')],
     ['return values and outputs of Compute, GetCovarianceBlock, GetCovarianceMatrix and their tangent space versions'],
     'Which entries are computed, where a block lies, the lifting and the assembly are proved for every covariance, every point and every manifold Jacobian over the listed problem structures, and the '
     'solves with R\'R for every R of the listed patterns; the factorisations and whole estimates run against a dense reference over random problems (bounded).')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in sorted(PROPS + NOT_APPLICABLE, key=lambda x: x['id']):
            f.write(json.dumps(x['p']) + '\n')
    man = dict(
        version=1, setup_cmd='bash /verif/setup.sh',
        hooks=dict(guard='VERIF_HOOKS', enable='no hooks were needed: the checks compile /repo unmodified', source_commits=[]),
        checks=[dict(property=x['id'], quick_cmd='python3-vt /verif/check.py %s --tier quick' % x['id'],
                     thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % x['id'],
                     evidence_file='evidence/%s.json' % x['id'],
                     technique='contract-based deductive verification (own VC generator over LLVM IR of the real code; z3, cvc5, rational normal form)',
                     level='proof', level_note=x['note'] + COMMON) for x in sorted(PROPS, key=lambda x: x['id'])],
        not_applicable=[dict(property=x['id'], reason=x['reason']) for x in sorted(NOT_APPLICABLE, key=lambda x: x['id'])],
        notes='See DESIGN.md.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
