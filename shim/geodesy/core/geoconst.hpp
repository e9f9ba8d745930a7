#ifndef VERIF_SHIM_GEOCONST
#define VERIF_SHIM_GEOCONST
namespace dso {
constexpr const double DPI = 3.14159265358979323846264338327950288e0;
constexpr const double D2PI = 2e0 * DPI;
constexpr const double TURNAS = 1296000e0;
} /* namespace dso */
#endif
