#pragma once
namespace absl {
inline void InitializeLog() {}
}
