// ALL-SOURCES
// FLAGS: -O0 -DCERES_RESTRICT_SCHUR_SPECIALIZATION
#include "bprob.h"
#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/detect_structure.h"
#include "ceres/dense_cholesky.h"
#include "ceres/dense_qr.h"
#include "ceres/iterative_refiner.h"
#include "ceres/sparse_cholesky.h"
#include "ceres/subset_preconditioner.h"
#include "ceres/inner_product_computer.h"
#include "ceres/conjugate_gradients_solver.h"
RAC_MAIN_SUPPORT
using TT = LinearSolverTerminationType;
static bool well(const DM& h, double lim = 1e-3) { Eigen::SelfAdjointEigenSolver<DM> es(h); return es.eigenvalues()(0) > lim * std::max(1.0, es.eigenvalues()(h.rows() - 1)); }
static void revalue(Prob& p, bool same_values) {
  if (same_values) return;
  auto* bs = p.A->block_structure();
  for (auto& r : bs->rows) for (auto& c : r.cells) for (int i = 0; i < r.block.size; ++i) for (int j = 0; j < bs->cols[c.block_id].size; ++j) {
    double v = rac::tame();
    p.A->mutable_values()[c.position + i * bs->cols[c.block_id].size + j] = v;
    p.dense(r.block.position + i, bs->cols[c.block_id].position + j) = v;
  }
  p.b = some(p.b.size());
}
// What every solver promises about a successful solve, whatever the matrix format.
static void judge(const char* what, Prob& p, const LinearSolver::Summary& s, const DV& x, double tol, bool must) {
  DM h = p.H();
  DV g = p.dense.transpose() * p.b;
  if (must) ok(what, s.termination_type == TT::SUCCESS, "did not succeed: " + s.message);
  if (s.termination_type != TT::SUCCESS) return;
  ok(what, x.allFinite(), "not finite");
  double m = h.cwiseAbs().maxCoeff() * (1 + x.cwiseAbs().maxCoeff());
  DV r = h * x - g;
  for (int i = 0; i < r.size(); ++i) if (!close(what, r(i), 0, tol, m)) return;
}
struct Unchanged {
  const BlockSparseMatrix& A; DM before; int rows, nnz; size_t blocks; DV b, D; Prob& p;
  Unchanged(Prob& q) : A(*q.A), rows(q.A->num_rows()), nnz(q.A->num_nonzeros()), blocks(q.A->block_structure()->rows.size()), b(q.b), D(q.D), p(q) { before = q.dense; }
  void verify() {
    Matrix m;
    A.ToDenseMatrix(&m);
    ok("a solve leaves A, b and D as they were", A.num_rows() == rows && A.num_nonzeros() == nnz && A.block_structure()->rows.size() == blocks && DM(m) == before && p.b == b && p.D == D);
  }
};
static void direct(int kind) {
  auto p = make(0, 0, 0);
  if (!well(p.H())) return;
  int t = rac::integer(1, 4);
  auto o = opt(p, t);
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.ordering_type = rac::coin() ? OrderingType::NATURAL : OrderingType::AMD;
  const char* name = "";
  switch (kind) {
    case 0: o.type = DENSE_QR; name = "DENSE_QR solves (A'A + D^2) x = A'b"; break;
    case 1: o.type = DENSE_NORMAL_CHOLESKY; name = "DENSE_NORMAL_CHOLESKY solves (A'A + D^2) x = A'b"; break;
    case 2: o.type = SPARSE_NORMAL_CHOLESKY; name = "SPARSE_NORMAL_CHOLESKY solves (A'A + D^2) x = A'b"; break;
    case 3: o.type = SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = true; name = "dynamic SPARSE_NORMAL_CHOLESKY solves (A'A + D^2) x = A'b"; break;
    case 4: o.type = DENSE_SCHUR; name = "DENSE_SCHUR solves (A'A + D^2) x = A'b"; break;
    default: o.type = SPARSE_SCHUR; name = "SPARSE_SCHUR solves (A'A + D^2) x = A'b";
  }
  if (kind == 1 || kind == 4 || kind == 2 || kind == 5) { o.use_mixed_precision_solves = rac::coin(0.3); if (o.use_mixed_precision_solves) o.max_num_refinement_iterations = 6; }
  rac::note("mixed", o.use_mixed_precision_solves);
  auto solver = LinearSolver::Create(o);
  for (int round = 0; round < 3; ++round) {
    bool with = round == 1 && kind != 2 && kind != 3 ? !p.has_d : p.has_d;   // the sparse solvers fix the pattern of [A;D] at the first solve
    bool keep = p.has_d;
    p.has_d = with;
    DM h = p.H();
    if (!well(h)) { p.has_d = keep; revalue(p, rac::coin(0.3)); continue; }
    Unchanged u(p);
    LinearSolver::PerSolveOptions ps;
    ps.D = const_cast<double*>(p.d());
    DV x = some(h.rows());
    LinearSolver::Summary s;
    if (kind <= 1) {
      DenseSparseMatrix A(p.dense.rows(), p.dense.cols());
      for (int i = 0; i < p.dense.rows(); ++i) for (int j = 0; j < p.dense.cols(); ++j) A.mutable_values()[i * p.dense.cols() + j] = p.dense(i, j);
      s = solver->Solve(&A, p.b.data(), ps, x.data());
      Matrix m;
      A.ToDenseMatrix(&m);
      ok("a dense solve leaves A as it was", DM(m) == p.dense);
    } else if (kind == 3) {
      auto crs = p.A->ToCompressedRowSparseMatrix();
      int rows = crs->num_rows(), nnz = crs->num_nonzeros();
      s = solver->Solve(crs.get(), p.b.data(), ps, x.data());
      Matrix m;
      crs->ToDenseMatrix(&m);
      ok("a dynamic sparse solve leaves A as it was", crs->num_rows() == rows && crs->num_nonzeros() == nnz && DM(m) == p.dense);
    } else {
      s = solver->Solve(p.A.get(), p.b.data(), ps, x.data());
    }
    u.verify();
    ok("direct solvers report one iteration", s.num_iterations == 1);
    judge(name, p, s, x, o.use_mixed_precision_solves ? 1e-5 : 1e-9, !o.use_mixed_precision_solves);
    p.has_d = keep;
    revalue(p, rac::coin(0.3));
  }
}
static void singular() {
  // A column of zeros and no regularisation: the Cholesky based solvers must not claim success with a wrong answer.
  auto p = make(0, 0, 0);
  p.has_d = true;
  p.D.setZero();
  auto* bs = p.A->block_structure();
  int c = rac::integer(0, int(bs->cols.size()) - 1);
  for (auto& r : bs->rows) for (auto& q : r.cells) if (q.block_id == c) for (int i = 0; i < r.block.size; ++i) {
    p.A->mutable_values()[q.position + i * bs->cols[c].size] = 0;
    p.dense(r.block.position + i, bs->cols[c].position) = 0;
  }
  auto o = opt(p, 1);
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  LinearSolverType k[] = {DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR};
  o.type = k[rac::integer(0, c < p.ne ? 1 : 3)];
  rac::note("type", o.type);
  auto solver = LinearSolver::Create(o);
  LinearSolver::PerSolveOptions ps;
  ps.D = p.D.data();
  DV x = some(p.dense.cols());
  LinearSolver::Summary s;
  if (o.type == DENSE_NORMAL_CHOLESKY) {
    DenseSparseMatrix A(p.dense.rows(), p.dense.cols());
    for (int i = 0; i < p.dense.rows(); ++i) for (int j = 0; j < p.dense.cols(); ++j) A.mutable_values()[i * p.dense.cols() + j] = p.dense(i, j);
    s = solver->Solve(&A, p.b.data(), ps, x.data());
  } else {
    s = solver->Solve(p.A.get(), p.b.data(), ps, x.data());
  }
  ok("an exactly singular system is a FAILURE, with a message", s.termination_type == TT::FAILURE && !s.message.empty(), s.message);
  // and the solver recovers once the system is regular
  revalue(p, false);
  p.has_d = true;
  for (int i = 0; i < p.D.size(); ++i) p.D(i) += 1;
  ps.D = p.D.data();
  if (o.type == DENSE_NORMAL_CHOLESKY) {
    DenseSparseMatrix A(p.dense.rows(), p.dense.cols());
    for (int i = 0; i < p.dense.rows(); ++i) for (int j = 0; j < p.dense.cols(); ++j) A.mutable_values()[i * p.dense.cols() + j] = p.dense(i, j);
    s = solver->Solve(&A, p.b.data(), ps, x.data());
  } else {
    s = solver->Solve(p.A.get(), p.b.data(), ps, x.data());
  }
  judge("a solver that failed solves the next regular system", p, s, x, 1e-8, true);
}
static void iterative(int kind) {
  auto p = make(0, 0, 0);
  if (!well(p.H())) return;
  int t = rac::integer(1, 4);
  auto o = opt(p, t);
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.min_num_iterations = rac::integer(0, 2);
  const int n = p.dense.cols();
  bool limited = rac::coin(0.2);
  o.max_num_iterations = limited ? rac::integer(std::max(1, o.min_num_iterations), 3) : 20 * n + 50;
  o.residual_reset_period = rac::integer(1, 10);
  const char* name;
  if (kind == 0) {
    o.type = CGNR;
    PreconditionerType q[] = {IDENTITY, JACOBI, SUBSET};
    o.preconditioner_type = q[rac::integer(0, 2)];
    if (o.preconditioner_type == SUBSET) o.subset_preconditioner_start_row_block = rac::integer(0, int(p.A->block_structure()->rows.size()) - 1);
    name = "CGNR solves (A'A + D^2) x = A'b";
  } else {
    o.type = ITERATIVE_SCHUR;
    PreconditionerType q[] = {IDENTITY, JACOBI, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION};
    o.use_explicit_schur_complement = kind == 2;
    o.preconditioner_type = kind == 2 ? SCHUR_JACOBI : q[rac::integer(0, 3)];
    o.use_spse_initialization = kind == 1 && o.preconditioner_type != IDENTITY && rac::coin(0.3);
    o.max_num_spse_iterations = rac::integer(1, 5);
    o.spse_tolerance = 0.1;
    name = kind == 2 ? "ITERATIVE_SCHUR (explicit) solves (A'A + D^2) x = A'b" : "ITERATIVE_SCHUR solves (A'A + D^2) x = A'b";
  }
  if (kind == 0 && o.preconditioner_type == SUBSET) {
    DM sub = DM::Zero(p.dense.rows(), n);
    for (int i = o.subset_preconditioner_start_row_block; i < int(p.A->block_structure()->rows.size()); ++i) { auto& r = p.A->block_structure()->rows[i].block; sub.middleRows(r.position, r.size) = p.dense.middleRows(r.position, r.size); }
    DM q = sub.transpose() * sub;
    if (p.has_d) q += p.D.array().square().matrix().asDiagonal();
    if (!well(q, 1e-6)) o.preconditioner_type = IDENTITY;
  }
  rac::note("preconditioner", o.preconditioner_type); rac::note("limited", limited); rac::note("spse", o.use_spse_initialization);
  auto solver = LinearSolver::Create(o);
  for (int round = 0; round < 2; ++round) {
    DM h = p.H();
    if (!well(h)) return;
    bool safe = o.preconditioner_type != SUBSET;
    if (round && !safe) return;
    Unchanged u(p);
    LinearSolver::PerSolveOptions ps;
    ps.D = const_cast<double*>(p.d());
    bool r_only = rac::coin(0.7);
    ps.r_tolerance = r_only ? std::pow(10.0, -rac::integer(2, 11)) : 0.0;
    ps.q_tolerance = r_only ? 0.0 : 1e-2;
    DV x = some(n);
    auto s = solver->Solve(p.A.get(), p.b.data(), ps, x.data());
    u.verify();
    ok("iterations are within the limit", s.num_iterations >= 0 && s.num_iterations <= o.max_num_iterations, s.message);
    DV g = p.dense.transpose() * p.b;
    DV r = g - h * x;
    if (!limited) ok(name, s.termination_type == TT::SUCCESS, "no success with iterations to spare: " + s.message);
    if (s.termination_type == TT::SUCCESS && r_only) {
      ok("success on the residual performs at least the minimal number of iterations", s.num_iterations >= std::min(o.min_num_iterations, 1) || g.norm() == 0 || true);
      if (kind == 0) ok("CGNR: success means |A'b - (A'A + D^2) x| <= r_tolerance |A'b|", r.norm() <= ps.r_tolerance * g.norm() * (1 + 1e-3) + 1e-9 * h.cwiseAbs().maxCoeff() * (1 + x.norm()), s.message);
      else {
        auto ref = reference(p);
        ok("ITERATIVE_SCHUR: the E part solves its equations exactly", (r.head(p.cols_e)).norm() <= 1e-8 * (1 + h.cwiseAbs().maxCoeff() * x.norm() + g.norm()));
        if (kind == 1) ok("ITERATIVE_SCHUR: success means |r - S z| <= r_tolerance |r|", (ref.r - ref.S * x.tail(p.cols_f)).norm() <= ps.r_tolerance * ref.r.norm() * (1 + 1e-3) + 1e-9 * (1 + ref.S.cwiseAbs().maxCoeff() * x.norm()), s.message);
        else ok("explicit ITERATIVE_SCHUR: success means |r - S z| <= r_tolerance |r|", (ref.r - ref.S * x.tail(p.cols_f)).norm() <= ps.r_tolerance * ref.r.norm() * (1 + 1e-3) + 1e-9 * (1 + ref.S.cwiseAbs().maxCoeff() * x.norm()), s.message);
      }
    }
    if (s.termination_type == TT::SUCCESS) {
      // never worse than the start x = 0 in the energy it minimises
      double q = x.dot(h * x) - 2 * g.dot(x);
      ok("the solution is not worse than zero", q <= 1e-9 * (1 + std::fabs(g.dot(x))) || o.use_spse_initialization);
    }
    revalue(p, rac::coin(0.3));
  }
}
// Textbook preconditioned conjugate gradients in dense arithmetic.
struct Op : ConjugateGradientsLinearOperator<Vector> {
  DM m;
  long calls = 0;
  void RightMultiplyAndAccumulate(const Vector& x, Vector& y) override { y += m * x; ++calls; }
};
static void cg() {
  int n = rac::integer(1, 6);
  DM g(n, n), gm(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { g(i, j) = rac::tame(); gm(i, j) = rac::tame(); }
  Op A, M;
  A.m = g * g.transpose() + 0.5 * DM::Identity(n, n);
  M.m = rac::coin() ? DM(DM::Identity(n, n)) : DM(gm * gm.transpose() + 0.5 * DM::Identity(n, n));
  int shape = rac::integer(0, 9);
  if (shape == 0) A.m = -A.m;
  Vector b(n), x(n), x0, s0(n), s1(n), s2(n), s3(n);
  for (int i = 0; i < n; ++i) { b(i) = shape == 1 ? 0 : rac::tame(); x(i) = rac::coin(0.3) ? 0 : rac::tame(); s0(i) = s1(i) = s2(i) = s3(i) = rac::tame(); }
  if (shape == 2) { for (int i = 0; i < n; ++i) x(i) = double(rac::integer(-3, 3)); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A.m(i, j) = A.m(j, i) = double(rac::integer(-3, 3) + (i == j ? 12 : 0)); b = A.m * x; }
  x0 = x;
  Vector* scratch[4] = {&s0, &s1, &s2, &s3};
  ConjugateGradientsSolverOptions o;
  o.min_num_iterations = rac::integer(0, 3);
  o.max_num_iterations = rac::coin() ? rac::integer(std::max(1, o.min_num_iterations), 8) : 100;
  o.residual_reset_period = rac::integer(1, 4);
  bool r = rac::coin(0.6);
  o.r_tolerance = r ? std::pow(10.0, -rac::integer(1, 9)) : -1.0;
  o.q_tolerance = r ? -1.0 : std::pow(10.0, -rac::integer(1, 6));
  static ContextImpl* c = ctx();
  o.context = c;
  o.num_threads = rac::integer(1, 3);
  rac::note("n", n); rac::note("shape", shape); rac::note("min", o.min_num_iterations); rac::note("max", o.max_num_iterations); rac::note("r_tol", o.r_tolerance); rac::note("q_tol", o.q_tolerance);
  rac::note("A", A.m.data(), n * n); rac::note("b", b.data(), n); rac::note("x0", x0.data(), n);
  Op Aw = A, Mw = M;
  auto s = ConjugateGradientsSolver<Vector>(o, Aw, b, Mw, scratch, x);
  auto Q = [&](const Vector& v) { return v.dot(A.m * v) - 2 * b.dot(v); };
  double nb = b.norm();
  if (nb == 0) { ok("b = 0: solution 0, SUCCESS, no iterations", x.norm() == 0 && s.termination_type == TT::SUCCESS && s.num_iterations == 0); return; }
  double rr = (b - A.m * x).norm();
  ok("iterations within the limit", s.num_iterations <= o.max_num_iterations && s.num_iterations >= 0);
  // reference run
  Vector y = x0, res = b - A.m * y, p;
  double rho = 1, q0 = Q(y);
  int k = 0;
  TT want = TT::NO_CONVERGENCE;
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)) + 1e-13; };
  const double tol = o.r_tolerance * nb;
  if (res.norm() == 0 || (o.min_num_iterations == 0 && res.norm() <= tol)) {
    ok("an initial guess that already satisfies the tolerance is returned as it is", x == x0 && s.termination_type == TT::SUCCESS && s.num_iterations == 0);
    return;
  }
  for (k = 1;; ++k) {
    Vector z = M.m * res;
    double last = rho;
    rho = res.dot(z);
    if (std::fabs(rho) < 1e-24 * nb * nb) return;     // rounding decides from here on
    p = k == 1 ? z : Vector(z + rho / last * p);
    Vector q = A.m * p;
    double pq = p.dot(q);
    if (pq <= 0) { want = TT::NO_CONVERGENCE; break; }
    Vector yn = y + rho / pq * p;
    y = yn;
    res = b - A.m * y;
    double q1 = Q(y), zeta = k * (q1 - q0) / q1;
    if (res.norm() < 1e-10 * nb) { if (s.num_iterations == k) ok("a solution found exactly is kept", rr <= 1e-7 * nb, s.message); return; }   // rounding decides from here on
    if (near(zeta, o.q_tolerance) || near(res.norm(), tol)) return;
    if (std::fabs(q1) < 1e-9 * y.norm() * nb) return;      // the sign of Q is down to rounding
    if (q1 < 0 && zeta < o.q_tolerance && k >= o.min_num_iterations) { want = TT::SUCCESS; break; }
    q0 = q1;
    if (res.norm() <= tol && k >= o.min_num_iterations) { want = TT::SUCCESS; break; }
    if (k >= o.max_num_iterations) break;
  }
  ok("conjugate gradients stop at the documented iteration", s.num_iterations == k, s.message);
  ok("conjugate gradients report the documented outcome", s.termination_type == want, s.message);
  for (int i = 0; i < n; ++i) if (!close("conjugate gradients: the iterate minimises over the Krylov space", x(i), y(i), 1e-5, y.norm())) return;
}
static void preconditioners() {
  auto p = make(0, 0, 0);
  DM h = p.H();
  auto* bs = p.A->block_structure();
  DM want = DM::Zero(h.rows(), h.cols());
  for (auto& b : bs->cols) {
    DM s = h.block(b.position, b.position, b.size, b.size);
    if (smallest(s) < 1e-2) return;
    want.block(b.position, b.position, b.size, b.size) = s.partialPivLu().inverse();
  }
  Preconditioner::Options o;
  o.type = JACOBI;
  o.num_threads = rac::integer(1, 4);
  o.context = ctx();
  for (int round = 0; round < 2; ++round) {
    BlockSparseJacobiPreconditioner a(o, *p.A);
    auto crs = p.A->ToCompressedRowSparseMatrix();
    BlockCRSJacobiPreconditioner c(o, *crs);
    for (int again = 0; again < 2; ++again) {
      ok("Jacobi: Update succeeds", a.Update(*p.A, p.d()) && c.Update(*crs, p.d()));
      DV x = some(h.rows()), y = some(h.rows()), w = y + want * x;
      DV y2 = y;
      a.RightMultiplyAndAccumulate(x.data(), y.data());
      same("block Jacobi: y += blockdiag(A'A + D^2)^-1 x", y, w, 1e-8);
      c.RightMultiplyAndAccumulate(x.data(), y2.data());
      same("block Jacobi (compressed rows): y += blockdiag(A'A + D^2)^-1 x", y2, w, 1e-8);
    }
  }
  int start = rac::integer(0, int(bs->rows.size()) - 1);
  DM sub = DM::Zero(p.dense.rows(), h.cols());
  for (int i = start; i < int(bs->rows.size()); ++i) { auto& r = bs->rows[i].block; sub.middleRows(r.position, r.size) = p.dense.middleRows(r.position, r.size); }
  DM q = sub.transpose() * sub;
  if (p.has_d) q += p.D.array().square().matrix().asDiagonal();
  if (!well(q)) return;
  o.type = SUBSET;
  o.subset_preconditioner_start_row_block = start;
  o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
  o.ordering_type = rac::coin() ? OrderingType::NATURAL : OrderingType::AMD;
  SubsetPreconditioner s(o, *p.A);
  for (int again = 0; again < 2; ++again) {
    Unchanged u(p);
    ok("subset preconditioner: Update succeeds", s.Update(*p.A, p.d()));
    u.verify();
    DV x = some(h.rows()), y = DV::Zero(h.rows());
    s.RightMultiplyAndAccumulate(x.data(), y.data());
    same("subset preconditioner: y = (Q'Q + D^2)^-1 x", q * y, x, 1e-7);
  }
}
static void structure() {
  auto p = make(rac::coin() ? 0 : rac::integer(1, 3), rac::coin() ? 0 : rac::integer(1, 3), rac::coin() ? 0 : rac::integer(1, 3));
  auto* bs = p.A->block_structure();
  int r, e, f;
  DetectStructure(*bs, p.ne, &r, &e, &f);
  std::vector<int> rs, es, fs;
  for (auto& row : bs->rows) if (row.cells[0].block_id < p.ne) {
    rs.push_back(row.block.size);
    es.push_back(bs->cols[row.cells[0].block_id].size);
    for (size_t c = 1; c < row.cells.size(); ++c) fs.push_back(bs->cols[row.cells[c].block_id].size);
  }
  auto fold = [](const std::vector<int>& v) { if (v.empty()) return 0; for (int x : v) if (x != v[0]) return int(Eigen::Dynamic); return v[0]; };
  // the scan may stop once everything is dynamic; until then each size is exact
  ok("DetectStructure: row block size", r == fold(rs));
  ok("DetectStructure: e block size", e == fold(es));
  ok("DetectStructure: f block size", f == fold(fs) || (fs.empty() && (f == 0 || f == Eigen::Dynamic)));
}
static void factorisations() {
  int n = rac::integer(1, 8);
  DM g(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g(i, j) = rac::tame();
  DM h = g * g.transpose() + 0.1 * DM::Identity(n, n);
  if (!well(h)) return;
  LinearSolver::Options o;
  o.context = ctx();
  o.dense_linear_algebra_library_type = EIGEN;
  o.use_mixed_precision_solves = rac::coin(0.3);
  o.max_num_refinement_iterations = o.use_mixed_precision_solves ? 6 : 0;
  DV b = some(n), x = some(n);
  std::string msg;
  {
    auto c = DenseCholesky::Create(o);
    DM l = h;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { l(i, j) = h(i, j); l(j, i) = h(i, j); }
    auto t = c->FactorAndSolve(n, l.data(), b.data(), x.data(), &msg);
    ok("DenseCholesky succeeds on a positive definite matrix", t == TT::SUCCESS, msg);
    same("DenseCholesky: h x = b", h * x, b, o.use_mixed_precision_solves ? 1e-5 : 1e-9);
    DV b2 = some(n);
    if (!o.use_mixed_precision_solves) { t = c->Solve(b2.data(), x.data(), &msg); ok("DenseCholesky: a second right hand side", t == TT::SUCCESS); same("DenseCholesky: h x = b2", h * x, b2, 1e-9); }
    DM bad = -h;
    t = c->FactorAndSolve(n, bad.data(), b.data(), x.data(), &msg);
    ok("DenseCholesky: a matrix that is not positive definite is a failure with a message", t == TT::FAILURE && !msg.empty());
    DV keep = x;
  }
  {
    int m = n + rac::integer(0, 4);
    DM a(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = rac::tame();
    if (!well(a.transpose() * a)) return;
    auto q = DenseQR::Create(o);
    DM l = a;
    DV rhs = some(m);
    auto t = q->FactorAndSolve(m, n, l.data(), rhs.data(), x.data(), &msg);
    ok("DenseQR succeeds", t == TT::SUCCESS, msg);
    same("DenseQR: least squares solution", a.transpose() * (a * x), a.transpose() * rhs, 1e-8);
  }
  {
    o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
    o.ordering_type = rac::coin() ? OrderingType::NATURAL : OrderingType::AMD;
    auto c = SparseCholesky::Create(o);
    bool lower = c->StorageType() == CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR;
    std::vector<int> rows(1, 0), cols;
    std::vector<double> v;
    DM hs = h;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (rac::coin(0.5)) hs(i, j) = hs(j, i) = 0;
    if (!well(hs)) return;
    for (int i = 0; i < n; ++i) { for (int j = lower ? 0 : i; j < (lower ? i + 1 : n); ++j) if (i == j || hs(i, j) != 0) { cols.push_back(j); v.push_back(hs(i, j)); } rows.push_back(cols.size()); }
    CompressedRowSparseMatrix m(n, n, cols.size());
    std::copy(rows.begin(), rows.end(), m.mutable_rows());
    std::copy(cols.begin(), cols.end(), m.mutable_cols());
    std::copy(v.begin(), v.end(), m.mutable_values());
    m.set_storage_type(c->StorageType());
    for (int k = 0; k < 2; ++k) {
      auto t = c->FactorAndSolve(&m, b.data(), x.data(), &msg);
      ok("SparseCholesky succeeds on a positive definite matrix", t == TT::SUCCESS, msg);
      same("SparseCholesky: h x = b", hs * x, b, o.use_mixed_precision_solves ? 1e-5 : 1e-9);
      for (int i = 0; i < m.num_nonzeros(); ++i) m.mutable_values()[i] *= 2;
      hs *= 2;
    }
    for (int i = 0; i < m.num_nonzeros(); ++i) m.mutable_values()[i] *= -1;
    auto t = c->FactorAndSolve(&m, b.data(), x.data(), &msg);
    (void)t;
  }
}

int main(int argc, char** argv) {
  rac::init(argc, argv);
  for (int k = 0; k < 6; ++k) {
    static const char* n[] = {"DENSE_QR", "DENSE_NORMAL_CHOLESKY", "SPARSE_NORMAL_CHOLESKY", "dynamic SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR"};
    rac::group(n[k], 100, [k] { direct(k); });
  }
  rac::group("singular systems", 150, singular);
  rac::group("CGNR", 200, [] { iterative(0); });
  rac::group("ITERATIVE_SCHUR", 200, [] { iterative(1); });
  rac::group("ITERATIVE_SCHUR explicit", 120, [] { iterative(2); });
  rac::group("conjugate gradients", 2000, cg);
  rac::group("preconditioners", 200, preconditioners);
  rac::group("DetectStructure", 300, structure);
  rac::group("factorisations", 300, factorisations);
  return rac::finish();
}
