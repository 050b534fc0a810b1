#pragma once
#include <ostream>
namespace absl::log_internal {
template<typename C>
struct LogContainerView { C const& c; };
template<typename C>
LogContainerView<C> LogContainer(C const& c) { return {c}; }
}
