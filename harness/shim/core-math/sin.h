#pragma once
#include <cmath>
// Stand-in for INRIA's CORE-MATH, which is not installed.
inline double cr_sin(double const x) { return std::sin(x); }
