// Stand-in for absl/log, which the installed Abseil (20220623) does not have.
// Only used by the harnesses of /verif.  A failed CHECK or a LOG(FATAL) throws
// `verif::CheckFailure` so that a driver may record it as an outcome.
#pragma once

#include <functional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>

#include "absl/base/log_severity.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"

#define VERIF_ABSL_LOG_SHIM 1

namespace verif {

struct CheckFailure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// Called (if set) before the exception is thrown.
inline std::function<void(std::string const&)>& CheckFailureHook() {
  static auto* const hook = new std::function<void(std::string const&)>();
  return *hook;
}

[[noreturn]] inline void FailCheck(std::string const& message) {
  if (CheckFailureHook()) {
    CheckFailureHook()(message);
  }
  throw CheckFailure(message);
}

class NullStream {
 public:
  NullStream& stream() { return *this; }
  template<typename T>
  NullStream& operator<<(T const&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  NullStream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
  template<typename T>
  NullStream& WithVerbosity(T const&) { return *this; }
  template<typename... T>
  NullStream& AtLocation(T const&...) { return *this; }
  NullStream& NoPrefix() { return *this; }
};

struct Voidify {
  template<typename T>
  void operator&&(T const&) const {}
};

// The message of a failing check.  Unprintable values are not printed.
class FatalStream {
 public:
  explicit FatalStream(std::string const& prefix) { s_ << prefix; }
  FatalStream& stream() { return *this; }
  template<typename T>
  FatalStream& operator<<(T const& t) {
    if constexpr (requires(std::ostream& os) { os << t; }) {
      s_ << t;
    } else {
      s_ << "<?>";
    }
    return *this;
  }
  FatalStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  FatalStream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
  template<typename... T>
  FatalStream& AtLocation(T const&...) { return *this; }
  [[noreturn]] ~FatalStream() noexcept(false) { FailCheck(s_.str()); }

 private:
  std::ostringstream s_;
};

}  // namespace verif

#define VERIF_STR2(x) #x
#define VERIF_STR(x) VERIF_STR2(x)
#define VERIF_FATAL(text) \
  ::verif::FatalStream(__FILE__ ":" VERIF_STR(__LINE__) ": " text " ")

#define VERIF_LOG_INFO ::verif::NullStream()
#define VERIF_LOG_WARNING ::verif::NullStream()
#define VERIF_LOG_ERROR ::verif::NullStream()
#define VERIF_LOG_FATAL VERIF_FATAL("LOG(FATAL)")
#define VERIF_LOG_QFATAL VERIF_FATAL("LOG(QFATAL)")
#ifdef NDEBUG
#define VERIF_LOG_DFATAL ::verif::NullStream()
#else
#define VERIF_LOG_DFATAL VERIF_FATAL("LOG(DFATAL)")
#endif

#define LOG(severity) VERIF_LOG_##severity
#define PLOG(severity) VERIF_LOG_##severity
#define LOG_IF(severity, condition) \
  switch (0)                        \
  case 0:                           \
  default:                          \
    !(condition) ? (void)0 : ::verif::Voidify() && LOG(severity)
#define LOG_EVERY_N(severity, n) LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)
#define LOG_EVERY_N_SEC(severity, n) LOG(severity)
#define LOG_IF_EVERY_N(severity, condition, n) LOG_IF(severity, condition)
#define LOG_IF_EVERY_N_SEC(severity, condition, n) LOG_IF(severity, condition)
#define VLOG(level)                                      \
  switch (0)                                             \
  case 0:                                                \
  default:                                               \
    true ? (void)0 : ::verif::Voidify() && ::verif::NullStream()
#define VLOG_IS_ON(level) false
#define DLOG(severity)                                   \
  switch (0)                                             \
  case 0:                                                \
  default:                                               \
    true ? (void)0 : ::verif::Voidify() && ::verif::NullStream()
#define VLOG_EVERY_N(level, n) VLOG(level)
#define DVLOG(level) VLOG(level)
