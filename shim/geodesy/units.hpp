/* Stand-in for the ggeodesy library (not available here): the angle helpers iers2010 uses. */
#ifndef VERIF_SHIM_UNITS
#define VERIF_SHIM_UNITS
#include "geodesy/core/geoconst.hpp"
#include <cmath>
namespace dso {
namespace detail {
enum class AngleUnit { Radians, Degrees, Seconds };
template <AngleUnit U> struct AngleUnitTraits;
template <> struct AngleUnitTraits<AngleUnit::Radians> {
  static constexpr double full_circle() noexcept { return D2PI; }
};
template <> struct AngleUnitTraits<AngleUnit::Degrees> {
  static constexpr double full_circle() noexcept { return 360e0; }
};
template <> struct AngleUnitTraits<AngleUnit::Seconds> {
  static constexpr double full_circle() noexcept { return TURNAS; }
};
} /* namespace detail */
template <detail::AngleUnit U = detail::AngleUnit::Radians> inline double anp(double a) noexcept {
  constexpr const double c = detail::AngleUnitTraits<U>::full_circle();
  double w = std::fmod(a, c);
  if (w < 0)
    w += c;
  return w;
}
constexpr double sec2rad(double s) noexcept { return s * (D2PI / TURNAS); }
constexpr double hsec2rad(double s) noexcept { return s * (D2PI / 86400e0); }
constexpr double rad2deg(double r) noexcept { return r * (180e0 / DPI); }
constexpr double deg2rad(double d) noexcept { return d * (DPI / 180e0); }
constexpr double rad2sec(double r) noexcept { return r * (TURNAS / D2PI); }
} /* namespace dso */
#endif
