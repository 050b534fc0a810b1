#pragma once
namespace absl::log_internal {
inline bool IsInitialized() { return true; }
}
