// Stand-in for casacore's Constants.h.
#pragma once
namespace casacore {
namespace C {
inline constexpr double c = 2.99792458e+08;
inline constexpr double pi = 3.14159265358979323846;
inline constexpr double _2pi = 6.28318530717958647692;
inline constexpr double degree = pi / 180.0;
inline constexpr double arcsec = pi / 180.0 / 3600.0;
}  // namespace C
}  // namespace casacore
