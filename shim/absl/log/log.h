// Stand-in for absl/log/log.h: log output is dropped, LOG(FATAL) ends the run.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
// The real header brings these in transitively.
#include <ostream>
#include <sstream>
#include <string>
extern "C" [[noreturn]] void verif_check_failed(const char* cond,
                                                const char* file,
                                                int line);
namespace verif_shim {
struct NullStream {
  template <typename T>
  const NullStream& operator<<(const T&) const { return *this; }
  const NullStream& operator<<(std::ostream& (*)(std::ostream&)) const {
    return *this;
  }
};
struct Fatal {
  [[noreturn]] Fatal(const char* c, const char* f, int l) {
    verif_check_failed(c, f, l);
  }
  template <typename T>
  Fatal& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define VERIF_LOG_INFO while (false) ::verif_shim::NullStream()
#define VERIF_LOG_WARNING VERIF_LOG_INFO
#define VERIF_LOG_ERROR VERIF_LOG_INFO
#define VERIF_LOG_DFATAL VERIF_LOG_INFO
#define VERIF_LOG_FATAL ::verif_shim::Fatal("LOG(FATAL)", __FILE__, __LINE__)
#define LOG(sev) VERIF_LOG_##sev
#define DLOG(sev) VERIF_LOG_INFO
#define LOG_IF(sev, c) while (false && (c)) ::verif_shim::NullStream()
#define LOG_FIRST_N(sev, n) VERIF_LOG_INFO
#define LOG_EVERY_N(sev, n) VERIF_LOG_INFO
#define VLOG(n) VERIF_LOG_INFO
#define VLOG_IF(n, c) VERIF_LOG_INFO
#define DVLOG(n) VERIF_LOG_INFO
#endif
