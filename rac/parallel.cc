// SOURCES: parallel_invoke.cc parallel_utils.cc parallel_vector_ops.cc context_impl.cc thread_pool.cc context.cc
// FLAGS: -fsanitize=thread
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_utils.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/thread_pool.h"
#include "rac.h"
RAC_MAIN_SUPPORT
using namespace ceres;
using namespace ceres::internal;
using rac::ok;
static ContextImpl* ctx() { static ContextImpl* c = [] { auto* q = new ContextImpl; q->EnsureMinimumThreads(4); return q; }(); return c; }
struct Work {
  int start, end, threads;
  std::vector<std::atomic<int>> count;
  std::vector<std::atomic<int>> busy;
  std::vector<int> plain;
  std::atomic<int> bad_id{0}, shared_id{0}, outside{0}, ranges{0}, empty{0}, sum{0};
  int slow;
  Work(int s, int e, int t) : start(s), end(e), threads(t), count(std::max(0, e - s)), busy(t), plain(std::max(0, e - s)), slow(rac::integer(0, 3)) {}
  void enter(int id) { if (id < 0 || id >= threads) { bad_id++; return; } if (busy[id]++ != 0) shared_id++; }
  void leave(int id) { if (id >= 0 && id < threads) busy[id]--; }
  void one(int i) {
    if (i < start || i >= end) { outside++; return; }
    if (slow == 1 && i % 7 == 0) std::this_thread::yield();
    if (slow == 2 && i % 31 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20));
    count[i - start]++;
    plain[i - start] += i;
  }
  void range(std::tuple<int, int> r) {
    ranges++;
    if (std::get<0>(r) >= std::get<1>(r)) empty++;
    for (int i = std::get<0>(r); i < std::get<1>(r); ++i) one(i);
  }
  void judge() {
    bool once = true, wrote = true;
    for (int i = 0; i < end - start; ++i) { once &= count[i].load() == 1; wrote &= plain[i] == start + i; }
    ok("every index exactly once", once);
    ok("effects are visible after the loop", wrote);
    ok("no index outside the range", outside == 0);
    ok("thread ids below the number of threads", bad_id == 0);
    ok("no two running tasks share a thread id", shared_id == 0);
    ok("no empty range of work", empty == 0);
  }
};
template <typename Run> static void kinds(Work& w, Run run) {
  int kind = rac::integer(0, 3);
  rac::note("kind", kind);
  if (kind == 0) run([&](int i) { w.one(i); });
  if (kind == 1) run([&](int t, int i) { w.enter(t); w.one(i); w.leave(t); });
  if (kind == 2) run([&](std::tuple<int, int> r) { w.range(r); });
  if (kind == 3) run([&](int t, std::tuple<int, int> r) { w.enter(t); w.range(r); w.leave(t); });
  w.judge();
}
static void plain() {
  int s = rac::coin() ? 0 : rac::integer(-20, 40), n = rac::coin(0.05) ? rac::integer(-3, 0) : rac::coin(0.2) ? rac::integer(1, 3000) : rac::integer(1, 80), t = rac::integer(1, 8);
  rac::note("start", s); rac::note("n", n); rac::note("threads", t);
  Work w(s, s + n, t);
  int mb = rac::coin() ? 1 : rac::integer(1, 40);
  rac::note("min block", mb);
  kinds(w, [&](auto&& f) { ParallelFor(ctx(), s, s + n, t, f, mb); });
  if (t == 1 && n > 0) ok("a single thread needs no context", true);
}
static void given() {
  int n = rac::integer(1, 60), s = rac::coin() ? 0 : rac::integer(-9, 20), t = rac::integer(1, 6);
  std::vector<int> p{s};
  while (p.back() < s + n) p.push_back(std::min(s + n, p.back() + rac::integer(1, rac::coin() ? 3 : 30)));
  rac::note("start", s); rac::note("n", n); rac::note("threads", t); rac::note("parts", double(p.size()));
  Work w(s, s + n, t);
  kinds(w, [&](auto&& f) { ParallelFor(ctx(), s, s + n, t, f, p); });
}
struct Cost { double pad; int cum; };
static void costs() {
  int n = rac::integer(1, 60), s = rac::coin() ? 0 : rac::integer(0, 10), t = rac::integer(1, 6);
  std::vector<Cost> c(s + n);
  int sum = 0, big = rac::coin(0.3) ? 1 : rac::coin() ? 10 : 1000;
  for (auto& x : c) { sum += rac::coin(0.2) ? 0 : rac::integer(0, big); x.cum = sum; }
  rac::note("start", s); rac::note("n", n); rac::note("threads", t);
  Work w(s, s + n, t);
  kinds(w, [&](auto&& f) { ParallelFor(ctx(), s, s + n, t, f, c.data(), [](const Cost& x) { return x.cum; }); });
}
static void partition() {
  int n = rac::integer(1, 9), s = rac::coin() ? 0 : rac::integer(0, 5), k = rac::integer(1, 6);
  std::vector<int> c(s + n);
  int sum = 0, big = rac::coin() ? 3 : 50;
  for (auto& x : c) { sum += rac::coin(0.2) ? 0 : rac::integer(0, big); x = sum; }
  for (int x : c) rac::note("c", x);
  rac::note("start", s); rac::note("n", n); rac::note("parts", k);
  auto at = [&](int i) { return i == 0 ? 0 : c[i - 1]; };
  int best = 1 << 30;
  for (int m = 0; m < 1 << (n - 1); ++m) {
    if (__builtin_popcount(m) + 1 > k) continue;
    int worst = 0, last = s;
    for (int i = 1; i <= n; ++i) if (i == n || (m >> (i - 1) & 1)) { worst = std::max(worst, at(s + i) - at(last)); last = s + i; }
    best = std::min(best, worst);
  }
  auto p = PartitionRangeForParallelFor(s, s + n, k, c.data(), [](const int& x) { return x; });
  ok("from start to end", p.size() >= 2 && p.front() == s && p.back() == s + n);
  ok("number of parts", int(p.size()) <= k + 1);
  int worst = 0;
  for (size_t i = 1; i < p.size(); ++i) { ok("parts are not empty", p[i - 1] < p[i]); worst = std::max(worst, at(p[i]) - at(p[i - 1])); }
  ok("least maximal cost", worst == best);
}
static void nested() {
  int a = rac::integer(1, 12), b = rac::integer(1, 12), t = rac::integer(1, 5), u = rac::integer(1, 5);
  rac::note("outer", a); rac::note("inner", b); rac::note("threads", t); rac::note("inner threads", u);
  std::vector<std::atomic<int>> n(a * b);
  ParallelFor(ctx(), 0, a, t, [&](int i) { ParallelFor(ctx(), 0, b, u, [&](int j) { n[i * b + j]++; }); });
  bool once = true;
  for (auto& x : n) once &= x == 1;
  ok("every pair exactly once", once);
}
static void triangle() {
  int n = rac::integer(1, 40);
  rac::note("n", n);
  std::vector<int> seen(n * n);
  for (int k = 0; k < n * (n + 1) / 2; ++k) {
    int i = -1, j = -1;
    LinearIndexToUpperTriangularIndex(k, n, &i, &j);
    if (ok("upper triangle", 0 <= i && i <= j && j < n)) seen[i * n + j]++;
  }
  bool once = true;
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) once &= seen[i * n + j] == 1;
  ok("every pair once", once);
}
static void vectors() {
  int n = rac::coin() ? rac::integer(0, 300) : rac::integer(1 << 17, 1 << 18), t = rac::integer(1, 4);
  rac::note("n", n); rac::note("threads", t);
  Eigen::VectorXd x = Eigen::VectorXd::LinSpaced(n + 2, 0, n + 1), y = Eigen::VectorXd::Constant(n + 2, 7), z = y;
  auto seg = y.segment(1, n);
  ParallelAssign(ctx(), t, seg, 2 * x.segment(1, n));
  bool same = y[0] == 7 && y[n + 1] == 7;
  for (int i = 1; i <= n; ++i) same &= y[i] == 2 * x[i];
  ok("assignment of every element and no other", same);
  ParallelSetZero(ctx(), t, z.data() + 1, n);
  same = z[0] == 7 && z[n + 1] == 7;
  for (int i = 1; i <= n; ++i) same &= z[i] == 0;
  ok("zero in every element and no other", same);
}
static void queue() {
  ConcurrentQueue<int> q;
  int v = -1, n = rac::integer(0, 20);
  ok("nothing to take", !q.Pop(&v) && v == -1);
  for (int i = 0; i < n; ++i) q.Push(i * 3);
  for (int i = 0; i < n; ++i) {
    bool wait = rac::coin();
    ok("first in, first out", (wait ? q.Wait(&v) : q.Pop(&v)) && v == i * 3);
  }
  ok("empty again", !q.Pop(&v));
  // consumers
  int c = rac::integer(1, 4), m = rac::integer(0, 200);
  rac::note("consumers", c); rac::note("items", m);
  std::vector<std::atomic<int>> got(m + 1);
  std::vector<std::thread> th;
  for (int i = 0; i < c; ++i) th.emplace_back([&] { int x; while (q.Wait(&x)) got[x]++; });
  for (int i = 0; i < m; ++i) q.Push(i);
  q.StopWaiters();
  for (auto& x : th) x.join();
  bool once = true;
  for (int i = 0; i < m; ++i) once &= got[i] == 1;
  ok("every item is handed out once", once);
  ok("no waiting after StopWaiters", !q.Wait(&v));
  q.EnableWaiters();
  q.Push(5);
  ok("works after EnableWaiters", q.Wait(&v) && v == 5);
}
static void pool() {
  int n = rac::integer(1, 4), m = rac::integer(0, 100);
  rac::note("threads", n); rac::note("tasks", m);
  std::atomic<int> k{0};
  {
    ThreadPool p(n);
    int most = std::min(n, ThreadPool::MaxNumThreadsAvailable());
    ok("size", p.Size() == most);
    p.Resize(n - 1);
    ok("never shrinks", p.Size() == most);
    if (rac::coin()) { p.Resize(n + 1); ok("grows", p.Size() == std::min(n + 1, ThreadPool::MaxNumThreadsAvailable())); }
    for (int i = 0; i < m; ++i) p.AddTask([&] { k++; });
  }
  ok("all tasks run before the pool is gone", k == m);
}
static void refused() {
  ok("threads must be positive", rac::check_fires([] { ParallelFor(ctx(), 0, 3, 0, [](int) {}); }));
  ok("several threads need a context", rac::check_fires([] { ParallelFor(nullptr, 0, 3, 2, [](int) {}); }));
  int k = 0;
  ParallelFor(nullptr, 0, 3, 1, [&](int) { ++k; });
  ok("one thread does not", k == 3);
}
int main(int argc, char** argv) {
  rac::init(argc, argv);
  rac::group("parallel loop", 3000, plain);
  rac::group("given partitions", 1500, given);
  rac::group("cumulative costs", 1500, costs);
  rac::group("partition", 3000, partition);
  rac::group("nested loops", 500, nested);
  rac::group("triangle", 80, triangle);
  rac::group("vectors", 60, vectors);
  rac::group("queue", 300, queue);
  rac::group("thread pool", 200, pool);
  rac::group("refused", 2, refused);
  return rac::finish();
}
