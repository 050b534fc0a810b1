// Force-included by the harnesses: bridges the gap between the Abseil that
// Principia expects and the one that is installed.
#pragma once

// Clang 20 does not accept what libstdc++ 14 does with explicit object
// parameters in <ranges>.
#undef __cpp_explicit_this_parameter

#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/synchronization/mutex.h"

using std::nullptr_t;

namespace absl {

class VerifMutexLock : public MutexLock {
 public:
  explicit VerifMutexLock(Mutex* mu) : MutexLock(mu) {}
  explicit VerifMutexLock(Mutex& mu) : MutexLock(&mu) {}
};

class VerifReaderMutexLock : public ReaderMutexLock {
 public:
  explicit VerifReaderMutexLock(Mutex* mu) : ReaderMutexLock(mu) {}
  explicit VerifReaderMutexLock(Mutex& mu) : ReaderMutexLock(&mu) {}
};

inline std::string VerifStr(std::string_view s) { return std::string(s); }
template<typename T>
std::string VerifStr(T const& t) {
  if constexpr (std::is_convertible_v<T const&, std::string_view>) {
    return std::string(std::string_view(t));
  } else {
    return (StrCat)(t);
  }
}

template<typename... T>
std::string VerifStrCat(T const&... t) {
  return (std::string() + ... + VerifStr(t));
}

template<typename Range>
std::string VerifStrJoin(Range const& range, std::string_view const sep) {
  std::string result;
  bool first = true;
  for (auto const& t : range) {
    if (!first) {
      result += sep;
    }
    first = false;
    result += VerifStr(t);
  }
  return result;
}

template<typename Range, typename Formatter>
std::string VerifStrJoin(Range const& range,
                         std::string_view const sep,
                         Formatter&& formatter) {
  std::string result;
  bool first = true;
  for (auto const& t : range) {
    if (!first) {
      result += sep;
    }
    first = false;
    formatter(&result, t);
  }
  return result;
}

template<typename T>
bool VerifSimpleAtoi(std::string_view const s, T* const out) {
  return (SimpleAtoi)(string_view(s.data(), s.size()), out);
}

}  // namespace absl

#define MutexLock VerifMutexLock
#define ReaderMutexLock VerifReaderMutexLock
#define StrCat VerifStrCat
#define StrJoin VerifStrJoin
#define SimpleAtoi VerifSimpleAtoi
