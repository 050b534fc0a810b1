#pragma once

#include "absl/log/log.h"

namespace absl {
inline void SetMinLogLevel(LogSeverityAtLeast) {}
inline LogSeverityAtLeast MinLogLevel() { return LogSeverityAtLeast::kInfo; }
inline void SetStderrThreshold(LogSeverityAtLeast) {}
inline void SetStderrThreshold(LogSeverity) {}
inline LogSeverityAtLeast StderrThreshold() {
  return LogSeverityAtLeast::kInfo;
}
inline int SetGlobalVLogLevel(int) { return 0; }
inline int SetVLogLevel(std::string_view, int) { return 0; }
}  // namespace absl
