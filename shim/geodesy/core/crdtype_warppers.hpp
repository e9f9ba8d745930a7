/* Stand-in for ggeodesy's coordinate wrappers. */
#ifndef VERIF_SHIM_CRD
#define VERIF_SHIM_CRD
#include "eigen3/Eigen/Dense"
#include "geodesy/core/geoconst.hpp"
namespace dso {
struct CartesianCrd {
  Eigen::Vector3d mv{Eigen::Vector3d::Zero()};
  CartesianCrd() noexcept {}
  explicit CartesianCrd(const Eigen::Vector3d &v) noexcept : mv(v) {}
  CartesianCrd(double x, double y, double z) noexcept : mv(x, y, z) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
  double &x() noexcept { return mv(0); }
  double &y() noexcept { return mv(1); }
  double &z() noexcept { return mv(2); }
};
struct CartesianCrdConstView {
  const Eigen::Vector3d &mv;
  CartesianCrdConstView(const CartesianCrd &c) noexcept : mv(c.mv) {}
  explicit CartesianCrdConstView(const Eigen::Vector3d &v) noexcept : mv(v) {}
  double x() const noexcept { return mv(0); }
  double y() const noexcept { return mv(1); }
  double z() const noexcept { return mv(2); }
};
struct SphericalCrd { /* r, geocentric latitude, longitude */
  Eigen::Vector3d mv{Eigen::Vector3d::Zero()};
  SphericalCrd() noexcept {}
  SphericalCrd(double r, double lat, double lon) noexcept : mv(r, lat, lon) {}
  double r() const noexcept { return mv(0); }
  double lat() const noexcept { return mv(1); }
  double lon() const noexcept { return mv(2); }
  double &r() noexcept { return mv(0); }
  double &lat() noexcept { return mv(1); }
  double &lon() noexcept { return mv(2); }
};
struct SphericalCrdConstView {
  const Eigen::Vector3d &mv;
  SphericalCrdConstView(const SphericalCrd &c) noexcept : mv(c.mv) {}
  double r() const noexcept { return mv(0); }
  double lat() const noexcept { return mv(1); }
  double lon() const noexcept { return mv(2); }
};
template <typename T> struct CoordinateTypeTraits {
  static constexpr bool isCartesian = false;
};
template <> struct CoordinateTypeTraits<CartesianCrd> {
  static constexpr bool isCartesian = true;
};
template <> struct CoordinateTypeTraits<CartesianCrdConstView> {
  static constexpr bool isCartesian = true;
};
} /* namespace dso */
#endif
