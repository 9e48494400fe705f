// Extraction stand-in used by the contracts that verify callers of parallel loops: the worker
// threads are replaced by one sequential schedule (last segment first, all thread ids in use).  That the
// real ParallelInvoke calls every index of the range exactly once with a thread id below num_threads,
// whatever the schedule, is what C16 proves; everything else is the real header.
#ifndef VERIF_SEQ_PARALLEL_INVOKE_H_
#define VERIF_SEQ_PARALLEL_INVOKE_H_
#define ParallelInvoke ParallelInvokeOverThreads
#include VERIF_REAL_PARALLEL_INVOKE
#undef ParallelInvoke
namespace ceres::internal {
template <typename F>
void ParallelInvoke(ContextImpl* context, int start, int end, int num_threads, F&& function, int min_block_size) {
  CHECK(context != nullptr);
  int id = num_threads;
  for (int e = end; e > start; e -= min_block_size) {
    if (--id < 0) id = num_threads - 1;
    InvokeOnSegment(id, std::make_tuple(e - min_block_size > start ? e - min_block_size : start, e), function);
  }
}
}
#endif
