// Run-time contract checking of the real code: the same contracts as the proof,
// executed on seeded inputs.  Used to replay a failed obligation as a concrete
// failing input, and as the bounded stand-in where a function is out of the
// verifier's reach.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <setjmp.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace rac {
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct State {
  uint64_t seed = 1, s = 0;
  double scale = 1.0;
  std::string group;
  long idx = 0;
  long cases = 0, clauses = 0, failures = 0;
  std::string inputs;
  std::vector<double> pool;
  std::string only_group;
  long only_idx = -1;
  std::string sample;
  bool failed_case = false;
  bool in_case = false;
  std::vector<std::string> groups;
};
inline State& S() { static State s; return s; }
inline jmp_buf& jb() { static jmp_buf b; return b; }

inline uint64_t u64() { return S().s = mix(S().s + 0x1234567); }
inline double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
inline int integer(int lo, int hi) { return hi < lo ? lo : lo + int(u64() % uint64_t(hi - lo + 1)); }
inline bool coin(double p = 0.5) { return unit() < p; }
inline double gauss() {
  double u = unit() + 1e-300, v = unit();
  return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}
inline void note(const std::string& n, double v) {
  char b[64];
  snprintf(b, sizeof b, "=%.17g ", v);
  if (S().inputs.size() < 6000) S().inputs += n + b;
}
inline void note(const std::string& n, const double* v, int k) {
  for (int i = 0; i < k; ++i) note(n + "[" + std::to_string(i) + "]", v[i]);
}
// A finite double, from a mixture of shapes.
inline double real(const char* n = nullptr, double scale = 1.0) {
  double r = unit(), v;
  if (r < 0.12) {
    static const double k[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, 4, 0.25, 10, -10};
    v = k[u64() % 12];
  } else if (r < 0.22 && !S().pool.empty()) {
    v = S().pool[u64() % S().pool.size()];
  } else if (r < 0.75) {
    v = gauss() * scale;
  } else if (r < 0.9) {
    v = (2 * unit() - 1) * 5 * scale;
  } else {
    v = gauss() * std::pow(10.0, integer(-4, 3)) * scale;
  }
  if (n) note(n, v);
  return v;
}
inline double positive(const char* n = nullptr) {
  double v;
  do { v = std::fabs(real()); } while (!(v > 1e-6 && v < 1e6));
  if (n) note(n, v);
  return v;
}
inline double nonneg(const char* n = nullptr) {
  double v = std::fabs(real());
  if (n) note(n, v);
  return v;
}
// moderate values without extremes, for identities with cancellation
inline double tame(const char* n = nullptr) {
  double v = coin(0.1) ? double(integer(-2, 2)) : gauss();
  if (n) note(n, v);
  return v;
}
inline void fill(std::vector<double>& v, const char* n = nullptr) {
  for (auto& x : v) x = tame();
  if (n) note(n, v.data(), int(v.size()));
}

inline void fail(const std::string& clause, const std::string& detail) {
  if (S().failed_case) return;
  S().failed_case = true;
  S().failures++;
  printf("FAIL group=%s index=%ld seed=%llu clause=\"%s\"\n  detail: %s\n  inputs: %s\n", S().group.c_str(), S().idx,
         (unsigned long long)S().seed, clause.c_str(), detail.c_str(), S().inputs.c_str());
  fflush(stdout);
  if (S().failures >= 5) { printf("SUMMARY cases=%ld clauses=%ld failures=%ld\n", S().cases, S().clauses, S().failures); fflush(stdout); _exit(1); }
}
inline bool ok(const char* clause, bool c, const std::string& detail = "") {
  S().clauses++;
  if (!c) fail(clause, detail);
  return c;
}
inline bool close(const char* clause, double got, double want, double tol = 1e-8, double scale = 0) {
  S().clauses++;
  if (std::isnan(want) && std::isnan(got)) return true;
  if (got == want) return true;
  double lim = tol * (1 + std::fabs(want) + std::fabs(scale));
  if (std::fabs(got - want) <= lim) return true;
  char b[200];
  snprintf(b, sizeof b, "got %.17g, contract requires %.17g (tolerance %.3g)", got, want, lim);
  fail(clause, b);
  return false;
}

inline void on_signal(int sig) {
  const char* m = "\nFAIL (crash) ";
  (void)!write(1, m, strlen(m));
  char b[8192];
  int n = snprintf(b, sizeof b, "signal=%d group=%s index=%ld seed=%llu clause=\"no crash\"\n  inputs: %s\n", sig, S().group.c_str(),
                   S().idx, (unsigned long long)S().seed, S().inputs.c_str());
  (void)!write(1, b, n > int(sizeof b) ? sizeof b - 1 : n);
  _exit(1);
}
inline long scaled(long n) {
  const char* t = getenv("RAC_FACTOR");
  double f = t ? atof(t) : 1.0;
  return long(n * f) < 1 ? 1 : long(n * f);
}
inline void init(int argc, char** argv) {
  if (const char* e = getenv("VERIF_SEED")) S().seed = strtoull(e, nullptr, 10);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--replay" && i + 3 < argc) {
      S().only_group = argv[i + 1];
      S().only_idx = atol(argv[i + 2]);
      S().seed = strtoull(argv[i + 3], nullptr, 10);
      i += 3;
    } else if (a == "--pool" && i + 1 < argc) {
      std::ifstream f(argv[++i]);
      double v;
      while (f >> v) if (std::isfinite(v)) S().pool.push_back(v);
    }
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
}
// run n seeded cases of a group
inline void group(const char* name, long n, const std::function<void()>& f) {
  S().group = name;
  if (!S().only_group.empty() && S().only_group != name) return;
  S().groups.push_back(name);
  n = scaled(n);
  uint64_t h = 1469598103934665603ull;
  for (const char* p = name; *p; ++p) h = (h ^ uint64_t(*p)) * 1099511628211ull;
  for (long i = 0; i < n; ++i) {
    if (S().only_idx >= 0 && i != S().only_idx) continue;
    S().idx = i;
    S().s = mix(S().seed * 1000003 + h) ^ mix(uint64_t(i));
    S().inputs.clear();
    S().failed_case = false;
    S().cases++;
    S().in_case = true;
    alarm(60);
    if (setjmp(jb()) == 0) f();
    alarm(0);
    S().in_case = false;
    if (i == 0 && S().sample.size() < 1500) S().sample += std::string(name) + "{" + S().inputs.substr(0, 200) + "} ";
  }
}
inline int finish() {
  printf("SAMPLE %s\n", S().sample.c_str());
  printf("SUMMARY cases=%ld clauses=%ld failures=%ld\n", S().cases, S().clauses, S().failures);
  return S().failures ? 1 : 0;
}
// Expected CHECK failures: run f, return true when a CHECK fired.
inline bool& expecting() { static bool e = false; return e; }
inline jmp_buf& cjb() { static jmp_buf b; return b; }
inline bool check_fires(const std::function<void()>& f) {
  expecting() = true;
  bool fired = true;
  if (setjmp(cjb()) == 0) {
    f();
    fired = false;
  }
  expecting() = false;
  return fired;
}
}  // namespace rac

extern "C" [[noreturn]] inline void verif_check_failed_impl(const char* c, const char* f, int l) {
  if (rac::expecting()) longjmp(rac::cjb(), 1);
  if (rac::S().in_case) {
    rac::fail(std::string("CHECK holds: ") + c, std::string(f) + ":" + std::to_string(l));
    longjmp(rac::jb(), 1);
  }
  printf("CHECK failed outside a case: %s %s:%d\n", c, f, l);
  _exit(1);
}
#define RAC_MAIN_SUPPORT \
  extern "C" [[noreturn]] void verif_check_failed(const char* c, const char* f, int l) { verif_check_failed_impl(c, f, l); }
