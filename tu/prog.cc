// Programs: vectors of parameter blocks and residual blocks, their offsets, states, reductions and orders.
#include "program.cc"
#include "reorder_program.cc"
#include "triplet_sparse_matrix.cc"
#include "sparse_matrix.cc"
#include "linear_operator.cc"
#include "cost_function.cc"
#include "manifold.cc"
#include "array_utils.cc"
#include "residual_block_utils.cc"
#include "residual_block.cc"
#include "ceres/loss_function.h"
#include "ceres/triplet_sparse_matrix.h"
using namespace ceres;
using namespace ceres::internal;
extern "C" {
int u_cost(int id, double* r);
int u_plus(int id, const double* x, const double* d, double* y);
int u_plusj(int id, const double* x, double* j);
void u_prepare(int jacobians, int fresh);
}
namespace {
struct Cost : CostFunction {
  int id;
  bool Evaluate(double const* const* p, double* r, double** J) const override { return u_cost(id, r); }
  void Sizes(int n, int nb, const int* sizes) { set_num_residuals(n); for (int i = 0; i < nb; ++i) mutable_parameter_block_sizes()->push_back(sizes[i]); }
};
struct Man : Manifold {
  int id, n, t;
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return t; }
  bool Plus(const double* x, const double* d, double* y) const override { return u_plus(id, x, d, y); }
  bool PlusJacobian(const double* x, double* j) const override { return u_plusj(id, x, j); }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};
struct Callback : EvaluationCallback { void PrepareForEvaluation(bool j, bool n) override { u_prepare(j, n); } };
// At most four parameter blocks and five residual blocks; tangent[i] < 0: no manifold; `constant` by the user.
struct Make {
  Man man[4];
  Cost cost[5];
  std::unique_ptr<ParameterBlock> pb[4];
  std::unique_ptr<ResidualBlock> rb[5];
  Program program;
  Make(int np, const int* size, const int* tangent, const int* constant, int nr, const int* res, const int* count, const int* idx, double* x) {
    for (int i = 0; i < np; ++i) {
      man[i].id = i; man[i].n = size[i]; man[i].t = tangent[i];
      pb[i] = std::make_unique<ParameterBlock>(x, size[i], i, tangent[i] < 0 ? nullptr : &man[i]);
      if (constant && constant[i]) pb[i]->SetConstant();
      program.mutable_parameter_blocks()->push_back(pb[i].get());
      x += size[i];
    }
    for (int r = 0, o = 0; r < nr; ++r) {
      std::vector<ParameterBlock*> v;
      int s[4];
      for (int k = 0; k < count[r]; ++k, ++o) { v.push_back(pb[idx[o]].get()); s[k] = size[idx[o]]; }
      cost[r].id = r;
      cost[r].Sizes(res[r], count[r], s);
      rb[r] = std::make_unique<ResidualBlock>(&cost[r], nullptr, v, r);
      program.mutable_residual_blocks()->push_back(rb[r].get());
    }
    program.SetParameterOffsetsAndIndex();
  }
};
}
#define ARGS int np, const int *size, const int *tangent, const int *constant, int nr, const int *res, const int *count, const int *idx, double *x
#define MAKE Make m(np, size, tangent, constant, nr, res, count, idx, x)
extern "C" {
int w_plus(ARGS, ContextImpl* ctx, int threads, const double* state, const double* delta, double* out) { MAKE; return m.program.Plus(state, delta, out, ctx, threads); }
// out: state vector read back; user_state (x) overwritten if `copy`; ret bit 0 success, bit 1 reset success
int w_state(ARGS, const double* state, int copy, int reset, double* out) {
  MAKE;
  int ok = m.program.StateVectorToParameterBlocks(state);
  if (copy) m.program.CopyParameterBlockStateToUserState();
  if (reset) ok += 2 * m.program.SetParameterBlockStatePtrsToUserStatePtrs();
  m.program.ParameterBlocksToStateVector(out);
  return ok;
}
void w_counts(ARGS, int* out, int* index) {
  MAKE;
  Program& p = m.program;
  int v[] = {p.NumParameterBlocks(), p.NumParameters(), p.NumEffectiveParameters(), p.NumResidualBlocks(), p.NumResiduals(), p.MaxScratchDoublesNeededForEvaluate(),
             p.MaxDerivativesPerResidualBlock(), p.MaxParametersPerResidualBlock(), p.MaxResidualsPerResidualBlock(), p.IsValid()};
  for (int i = 0; i < 10; ++i) out[i] = v[i];
  for (int i = 0; i < np; ++i) { index[3 * i] = m.pb[i]->index(); index[3 * i + 1] = m.pb[i]->state_offset(); index[3 * i + 2] = m.pb[i]->delta_offset(); }
}
// which: 0 offsets as set, 1 index of a residual block wrong, 2 index, 3 state offset, 4 delta offset of parameter block `i` becomes v
int w_valid(ARGS, int which, int i, int v) {
  MAKE;
  if (which == 1) m.rb[i]->set_index(v);
  if (which == 2) m.pb[i]->set_index(v);
  if (which == 3) m.pb[i]->set_state_offset(v);
  if (which == 4) m.pb[i]->set_delta_offset(v);
  return m.program.IsValid();
}
int w_bounds(ARGS, const int* lower, const double* lo, const int* upper, const double* hi) {
  MAKE;
  for (int i = 0, k = 0; i < np; ++i) for (int j = 0; j < size[i]; ++j, ++k) {
    if (lower[k]) m.pb[i]->SetLowerBound(j, lo[k]);
    if (upper[k]) m.pb[i]->SetUpperBound(j, hi[k]);
  }
  std::string s;
  return m.program.IsFeasible(&s) + 2 * m.program.IsBoundsConstrained();
}
int w_finite(ARGS) { MAKE; std::string s; return m.program.ParameterBlocksAreFinite(&s); }
// out: number of parameter blocks, residual blocks, removed; then for each block the offset of its user state (in doubles) or index, and offsets
int w_reduce(ARGS, double* cost, int* out) {
  MAKE;
  std::vector<double*> removed;
  std::string error;
  auto p = m.program.CreateReducedProgram(&removed, cost, &error);
  if (m.program.NumParameterBlocks() != np || m.program.NumResidualBlocks() != nr) return -1;
  for (int i = 0; i < np; ++i) if (m.program.parameter_blocks()[i] != m.pb[i].get()) return -1;
  for (int i = 0; i < nr; ++i) if (m.program.residual_blocks()[i] != m.rb[i].get()) return -1;
  if (!p) return 0;
  int k = 0;
  out[k++] = p->NumParameterBlocks(); out[k++] = p->NumResidualBlocks(); out[k++] = int(removed.size());
  for (auto* b : p->parameter_blocks()) { out[k++] = int(b->user_state() - x); out[k++] = b->index(); out[k++] = b->state_offset(); out[k++] = b->delta_offset(); }
  for (auto* b : p->residual_blocks()) out[k++] = b->index();
  for (auto* b : removed) out[k++] = int(b - x);
  return 1;
}
int w_sparsity(ARGS, int start, int* out) {
  MAKE;
  auto t = m.program.CreateJacobianBlockSparsityTranspose(start);
  for (int i = 0; i < t->num_nonzeros(); ++i) { out[2 * i] = t->rows()[i]; out[2 * i + 1] = t->cols()[i]; if (t->values()[i] != 1.0) return -1; }
  return t->num_nonzeros() + 100 * t->num_rows() + 1000 * t->num_cols();
}
int w_lex(ARGS, int ne, int* out) {
  MAKE;
  std::string e;
  int ok = LexicographicallyOrderResidualBlocks(ne, &m.program, &e);
  for (int i = 0; i < nr; ++i) out[i] = m.program.residual_blocks()[i]->index();
  for (int i = 0; i < np; ++i) if (m.program.parameter_blocks()[i] != m.pb[i].get()) return -1;
  return ok + 2 * m.program.NumResidualBlocks();
}
int w_independent(ARGS, int mask) {
  MAKE;
  std::set<double*> s;
  for (int i = 0; i < np; ++i) if (mask >> i & 1) s.insert(m.pb[i]->mutable_user_state());
  return m.program.IsParameterBlockSetIndependent(s);
}
}
