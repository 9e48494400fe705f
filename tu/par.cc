#include "ceres/parallel_for.h"
#include "parallel_invoke.cc"
#include "parallel_utils.cc"
using namespace ceres::internal;
extern "C" {
void op_range(int thread, int start, int end);
void op_index(int thread, int i);
void w_tri(int k, int n, int* i, int* j) { LinearIndexToUpperTriangularIndex(k, n, i, j); }
void w_invoke(ContextImpl* c, int start, int end, int threads, int min_block) {
  ParallelInvoke(c, start, end, threads, [](int t, std::tuple<int, int> r) { op_range(t, std::get<0>(r), std::get<1>(r)); }, min_block);
}
void w_for(ContextImpl* c, int start, int end, int threads, int min_block) {
  ParallelFor(c, start, end, threads, [](int t, std::tuple<int, int> r) { op_range(t, std::get<0>(r), std::get<1>(r)); }, min_block);
}
void w_for_parts(ContextImpl* c, int start, int end, int threads, const int* p, int np) {
  std::vector<int> v(p, p + np);
  ParallelFor(c, start, end, threads, [](int t, std::tuple<int, int> r) { op_range(t, std::get<0>(r), std::get<1>(r)); }, v);
}
void w_segment_ti(int t, int s, int e) { InvokeOnSegment(t, std::make_tuple(s, e), [](int t, int i) { op_index(t, i); }); }
void w_segment_i(int t, int s, int e) { InvokeOnSegment(t, std::make_tuple(s, e), [](int i) { op_index(-1, i); }); }
void w_segment_r(int t, int s, int e) { InvokeOnSegment(t, std::make_tuple(s, e), [](std::tuple<int, int> r) { op_range(-1, std::get<0>(r), std::get<1>(r)); }); }
int w_feasible(int start, int end, int maxp, int maxcost, int offset, const int* cum, int* out) {
  std::vector<int> p;
  bool ok = MaxPartitionCostIsFeasible(start, end, maxp, maxcost, offset, cum, [](const int& x) { return x; }, &p);
  if (ok) for (size_t i = 0; i < p.size(); ++i) out[i] = p[i];
  return ok ? int(p.size()) : 0;
}
int w_partition(int start, int end, int maxp, const int* cum, int* out) {
  std::vector<int> p = PartitionRangeForParallelFor(start, end, maxp, cum, [](const int& x) { return x; });
  for (size_t i = 0; i < p.size(); ++i) out[i] = p[i];
  return int(p.size());
}
void w_bf_init(void* mem, int total) { new (mem) BlockUntilFinished(total); }
void w_finished(void* mem, int a, int b) {
  auto* f = static_cast<BlockUntilFinished*>(mem);
  f->Finished(a);
  f->Finished(b);
}
}
