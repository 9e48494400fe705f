// Random nonlinear least squares problems and a dense reference evaluator written from the documentation:
// cost = sum 1/2 rho(||f_i||^2), tangent Jacobians, robustified residuals.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <memory>
#include "ceres/ceres.h"
#include "rac.h"
namespace nls {
using namespace ceres;
using DM = Eigen::MatrixXd;
using DV = Eigen::VectorXd;
// f_i(x) = c_i + sum_j l_ij x_j + eps q_ij x_j x_(j+i+1) + eps sin(x_j + i); terms may be made to fail or to return NaN
struct Fn : CostFunction {
  DV c; DM l, q; double eps; int n = 0;
  mutable int calls = 0;
  bool fail = false; int nan_residual = -1, nan_jacobian = -1, unwritten = -1;
  Fn(int nr, const std::vector<int>& sizes, double eps, double scale = 1) : eps(eps) {
    set_num_residuals(nr);
    for (int s : sizes) { mutable_parameter_block_sizes()->push_back(s); n += s; }
    c.resize(nr); l.resize(nr, n); q.resize(nr, n);
    for (int i = 0; i < nr; ++i) { c(i) = rac::tame() * 2; for (int j = 0; j < n; ++j) { l(i, j) = rac::tame() * scale; q(i, j) = rac::tame(); } }
  }
  DV gather(double const* const* p) const { DV x(n); int o = 0; for (size_t b = 0; b < parameter_block_sizes().size(); ++b) for (int j = 0; j < parameter_block_sizes()[b]; ++j) x(o++) = p[b][j]; return x; }
  DV value(const DV& x) const {
    DV r = c + l * x;
    if (eps) for (int i = 0; i < r.size(); ++i) for (int j = 0; j < n; ++j) r(i) += eps * (q(i, j) * x(j) * x((j + i + 1) % n) + std::sin(x(j) + i));
    return r;
  }
  DM jac(const DV& x) const {
    DM J = l;
    if (eps) for (int i = 0; i < J.rows(); ++i) for (int j = 0; j < n; ++j) { int m = (j + i + 1) % n; J(i, j) += eps * (q(i, j) * x(m) + std::cos(x(j) + i)); J(i, m) += eps * q(i, j) * x(j); }
    return J;
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    ++calls;
    DV x = gather(p), v = value(x);
    for (int i = 0; i < v.size(); ++i) if (i != unwritten) r[i] = i == nan_residual ? NAN : v(i);
    if (J) {
      DM D = jac(x);
      int o = 0;
      for (size_t b = 0; b < parameter_block_sizes().size(); ++b) {
        int s = parameter_block_sizes()[b];
        if (J[b]) for (int i = 0; i < v.size(); ++i) for (int j = 0; j < s; ++j) J[b][i * s + j] = i == nan_jacobian ? INFINITY : D(i, o + j);
        o += s;
      }
    }
    return !fail;
  }
};
struct Term { std::vector<int> blocks; Fn* f; LossFunction* loss; ResidualBlockId id; };
struct Block { std::vector<double> x; Manifold* man = nullptr; bool constant = false; int kind = 0; std::vector<double> lo, hi; int size() const { return int(x.size()); } int tangent() const { return man ? man->TangentSize() : size(); } };
inline LossFunction* random_loss() {
  double a = 0.3 + 2 * rac::unit();
  switch (rac::integer(0, 7)) {
    case 0: return new HuberLoss(a);
    case 1: return new SoftLOneLoss(a);
    case 2: return new CauchyLoss(a);
    case 3: return new ArctanLoss(a);
    case 4: return new TolerantLoss(a, 0.5 + rac::unit());
    case 5: return new TukeyLoss(a + 3);
    case 6: return new ScaledLoss(new CauchyLoss(a), 0.5 + rac::unit(), TAKE_OWNERSHIP);
    default: return new TrivialLoss;
  }
}
struct Spec {
  int blocks = 4, terms = 6, max_size = 4, max_nr = 4, max_arity = 3; double wide = 0;
  double eps = 0.1, loss = 0.5, manifold = 0.4, constant = 0.2, scale = 1;
  bool bounds = false;
};
struct Prob {
  std::vector<Block> b;
  std::vector<Term> t;
  std::unique_ptr<Problem> p;
  static void manifold(Block& k) {
    int n = k.size();
    switch (rac::integer(0, 4)) {
      case 0: if (n == 4) { k.man = new QuaternionManifold; k.kind = 1; } break;
      case 1: if (n == 4) { k.man = new EigenQuaternionManifold; k.kind = 1; } break;
      case 2: if (n >= 2) { k.man = new SphereManifold<DYNAMIC>(n); k.kind = 2; } break;
      case 3: if (n >= 2) { std::vector<int> c; for (int i = 0; i < n; ++i) if (rac::coin(0.4) && int(c.size()) < n - 1) c.push_back(i); k.man = new SubsetManifold(n, c); k.kind = 3; } break;
      case 4: k.man = new EuclideanManifold<DYNAMIC>(n); k.kind = 4; break;
    }
    if (k.kind == 1 || k.kind == 2) { double s = 0; for (double v : k.x) s += v * v; s = std::sqrt(s); for (double& v : k.x) v /= s; }
  }
  explicit Prob(const Spec& s, Problem::Options o = Problem::Options()) {
    p = std::make_unique<Problem>(o);
    b.resize(s.blocks);
    for (auto& k : b) {
      k.x.resize(rac::coin(0.3) ? 4 : rac::coin(s.wide) ? rac::integer(s.max_size, 14) : rac::integer(1, s.max_size));
      for (auto& v : k.x) v = rac::gauss();
      if (rac::coin(s.manifold)) manifold(k);
      k.constant = rac::coin(s.constant);
    }
    for (auto& k : b) {
      p->AddParameterBlock(k.x.data(), k.size());
      if (k.man) p->SetManifold(k.x.data(), k.man);
      if (k.constant) p->SetParameterBlockConstant(k.x.data());
    }
    for (int i = 0; i < s.terms; ++i) {
      std::vector<int> id(b.size());
      for (size_t j = 0; j < id.size(); ++j) id[j] = int(j);
      for (size_t j = id.size(); j > 1; --j) std::swap(id[j - 1], id[rac::integer(0, int(j) - 1)]);
      id.resize(rac::integer(1, std::min<int>(s.max_arity, int(id.size()))));
      add(id, rac::integer(1, s.max_nr), s.eps, rac::coin(s.loss), s.scale);
    }
  }
  Prob(Prob&&) = default;
  void add(const std::vector<int>& id, int nr, double eps, bool robust, double scale) {
    Term m;
    m.blocks = id;
    std::vector<int> sizes; std::vector<double*> ptr;
    for (int j : id) { sizes.push_back(b[j].size()); ptr.push_back(b[j].x.data()); }
    m.f = new Fn(nr, sizes, eps, scale);
    m.loss = robust ? random_loss() : nullptr;
    m.id = p->AddResidualBlock(m.f, m.loss, ptr);
    t.push_back(m);
  }
  // prior on every block, so that the problem has full rank
  void priors(double w) {
    for (size_t j = 0; j < b.size(); ++j) {
      Term m;
      m.blocks = {int(j)};
      int n = b[j].size();
      m.f = new Fn(n, {n}, 0, 0);
      for (int i = 0; i < n; ++i) { m.f->l(i, i) = w; m.f->c(i) = -w * rac::gauss() * 0.5; }
      m.loss = nullptr;
      m.id = p->AddResidualBlock(m.f, nullptr, b[j].x.data());
      t.push_back(m);
    }
  }
  DV at(const Term& m) const { std::vector<const double*> q; for (int j : m.blocks) q.push_back(b[j].x.data()); return m.f->gather(q.data()); }
  double cost(bool robust = true) const {
    double c = 0;
    for (auto& m : t) { double s = m.f->value(at(m)).squaredNorm(), rho[3] = {s, 1, 0}; if (m.loss && robust) m.loss->Evaluate(s, rho); c += 0.5 * rho[0]; }
    return c;
  }
};
struct Eval { double cost = 0; DV r, g; DM J; };
// blocks: columns in this order (constant ones keep zero columns); every other block is held constant
inline Eval reference(const Prob& P, const std::vector<int>& blocks, const std::vector<int>& terms, bool robust) {
  Eval e;
  std::vector<int> col(P.b.size(), -1);
  int nc = 0, nr = 0;
  for (int j : blocks) { col[j] = nc; nc += P.b[j].tangent(); }
  for (int i : terms) nr += P.t[i].f->num_residuals();
  e.r.setZero(nr); e.J.setZero(nr, nc); e.g.setZero(nc);
  int row = 0;
  for (int i : terms) {
    const Term& m = P.t[i];
    DV x = P.at(m), f = m.f->value(x);
    DM D = m.f->jac(x);
    int k = int(f.size()), o = 0;
    DM J = DM::Zero(k, nc);
    for (int j : m.blocks) {
      const Block& b = P.b[j];
      if (col[j] >= 0 && !b.constant && b.tangent() > 0) {
        DM A = D.middleCols(o, b.size());
        if (b.man) { Eigen::Matrix<double, -1, -1, Eigen::RowMajor> pj(b.size(), b.tangent()); b.man->PlusJacobian(b.x.data(), pj.data()); A = A * pj; }
        J.middleCols(col[j], b.tangent()) += A;
      }
      o += b.size();
    }
    double s = f.squaredNorm(), rho[3] = {s, 1, 0};
    if (m.loss && robust) {
      m.loss->Evaluate(s, rho);
      // Triggs correction (documented in the modelling chapter)
      double sr = std::sqrt(rho[1]);
      if (s == 0 || rho[2] <= 0) { J *= sr; f *= sr; }
      else {
        double d = 1 + 2 * s * rho[2] / rho[1], a = 1 - std::sqrt(d);
        J = sr * (J - a / s * f * (f.transpose() * J));
        f *= sr / (1 - a);
      }
    }
    e.cost += 0.5 * rho[0];
    e.r.segment(row, k) = f;
    e.J.middleRows(row, k) = J;
    row += k;
  }
  e.g = e.J.transpose() * e.r;
  return e;
}
inline DM dense(const CRSMatrix& m) {
  DM d = DM::Zero(m.num_rows, m.num_cols);
  for (int i = 0; i < m.num_rows; ++i) for (int k = m.rows[i]; k < m.rows[i + 1]; ++k) d(i, m.cols[k]) += m.values[k];
  return d;
}
inline void close_m(const char* w, const DM& a, const DM& b, double tol) {
  if (!rac::ok(w, a.rows() == b.rows() && a.cols() == b.cols(), "shape")) return;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) rac::close(w, a(i, j), b(i, j), tol, b.size() ? b.cwiseAbs().maxCoeff() : 0);
}
inline std::vector<int> all(size_t n) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = int(i); return v; }
inline std::vector<int> subset(size_t n, double keep) {
  std::vector<int> v;
  for (size_t i = 0; i < n; ++i) if (rac::coin(keep)) v.push_back(int(i));
  for (size_t j = v.size(); j > 1; --j) std::swap(v[j - 1], v[rac::integer(0, int(j) - 1)]);
  return v;
}
}  // namespace nls
