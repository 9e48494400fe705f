#pragma once
using namespace ceres;
using namespace ceres::internal;
namespace {

__attribute__((always_inline)) inline std::unique_ptr<BlockSparseMatrix> blocks(int nr, const int* rs, int nc, const int* cs, const int* count, const int* cell, const double* v) {
  auto* s = new CompressedRowBlockStructure;
  int p = 0, nnz = 0;
  for (int i = 0; i < nc; ++i) { s->cols.emplace_back(cs[i], p); p += cs[i]; }
  p = 0;
  for (int i = 0; i < nr; ++i) {
    s->rows.emplace_back(count[i]);
    s->rows[i].block = Block(rs[i], p);
    p += rs[i];
    int n = 0;
    for (int j = 0; j < count[i]; ++j) { int c = *cell++; s->rows[i].cells[j] = Cell(c, nnz); n += rs[i] * cs[c]; nnz += rs[i] * cs[c]; }
    s->rows[i].nnz = n;
    s->rows[i].cumulative_nnz = nnz;
  }
  auto m = std::make_unique<BlockSparseMatrix>(s);
  for (int i = 0; i < nnz; ++i) m->mutable_values()[i] = v[i];
  return m;
}

}
