#ifndef VERIF_SHIM_TRANSFORM
#define VERIF_SHIM_TRANSFORM
#include "geodesy/core/crdtype_warppers.hpp"
#include "geodesy/units.hpp"
namespace dso {
template <typename T> SphericalCrd cartesian2spherical(const T &v) noexcept {
  const double r2 = v.x() * v.x() + v.y() * v.y();
  return SphericalCrd(std::sqrt(r2 + v.z() * v.z()), std::atan2(v.z(), std::sqrt(r2)), std::atan2(v.y(), v.x()));
}
inline CartesianCrd spherical2cartesian(const SphericalCrd &s) noexcept {
  return CartesianCrd(s.r() * std::cos(s.lat()) * std::cos(s.lon()), s.r() * std::cos(s.lat()) * std::sin(s.lon()),
                      s.r() * std::sin(s.lat()));
}
/* columns: unit vectors east, north, up, so that R * enu is cartesian */
inline Eigen::Matrix3d geodetic2lvlh(double lat, double lon) noexcept {
  const double sf = std::sin(lat), cf = std::cos(lat), sl = std::sin(lon), cl = std::cos(lon);
  Eigen::Matrix3d R;
  R << -sl, -sf * cl, cf * cl, cl, -sf * sl, cf * sl, 0e0, cf, sf;
  return R;
}
} /* namespace dso */
#endif
