#pragma once

#include <array>
#include <ostream>
#include <string>
#include <string_view>

#include "absl/log/log.h"

namespace absl {

class LogEntry {
 public:
  absl::LogSeverity log_severity() const { return severity_; }
  absl::Time timestamp() const { return timestamp_; }
  std::string_view text_message_with_prefix_and_newline() const {
    return text_;
  }
  std::string_view text_message() const { return text_; }
  std::string_view stacktrace() const { return stacktrace_; }

  absl::LogSeverity severity_ = absl::LogSeverity::kInfo;
  absl::Time timestamp_;
  std::string text_;
  std::string stacktrace_;
};

inline void PrintTo(LogEntry const& entry, std::ostream* os) {
  *os << entry.text_;
}

}  // namespace absl
