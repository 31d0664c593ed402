// Stand-in for casacore's Math.h: the documented comparison functions.
#pragma once
#include <cfloat>
#include <cmath>
namespace casacore {
template <class T>
inline bool near_impl(T a, T b, double tol, T tiny) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
#ifdef EXACT_NEAR  // symbolic runs in which different values are assumed to be well separated
  return false;
#endif
  if (a == 0) return std::fabs(b) <= (1 + tol) * tiny;
  if (b == 0) return std::fabs(a) <= (1 + tol) * tiny;
  if ((a > 0) != (b > 0)) return false;
  const T m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  return std::fabs(a - b) <= tol * m;
}
inline bool near(double a, double b, double tol = 1e-13) { return near_impl<double>(a, b, tol, DBL_MIN); }
inline bool near(float a, float b, double tol = 1e-5) { return near_impl<float>(a, b, tol, FLT_MIN); }
inline bool nearAbs(double a, double b, double tol = 1e-13) { return std::fabs(a - b) <= tol; }
}  // namespace casacore
