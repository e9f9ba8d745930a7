/* Stand-in: date-time reading. Throws on anything that is not a date, like the library does. */
#ifndef VERIF_SHIM_DATETIME_READ
#define VERIF_SHIM_DATETIME_READ
#include "datetime/core/datetime_io_core.hpp"
#include <charconv>
#include <cctype>
namespace dso {
namespace shim {
inline const char *int_at(const char *s, int &v) {
  while (*s && !std::isdigit((unsigned char)*s) && *s != '\n')
    ++s;
  const auto r = std::from_chars(s, s + std::strlen(s), v);
  if (r.ec != std::errc())
    throw std::runtime_error("not a date");
  return r.ptr;
}
} /* namespace shim */
template <YMDFormat F, HMSFormat H, typename S> datetime<S> from_char(const char *str, const char **end = nullptr) {
  int y, m, d, h, mi;
  double s;
  const char *p = shim::int_at(shim::int_at(shim::int_at(shim::int_at(shim::int_at(str, y), m), d), h), mi);
  while (*p && !std::isdigit((unsigned char)*p) && *p != '\n')
    ++p;
  const auto r = std::from_chars(p, p + std::strlen(p), s);
  if (r.ec != std::errc() || !(s >= 0 && s < 61) || h > 24 || mi > 59)
    throw std::runtime_error("not a time");
  if (end)
    *end = r.ptr;
  return datetime<S>(year(y), month(m), day_of_month(d), hours(h), minutes(mi), S(long(std::llround(s * 1e9))));
}
} /* namespace dso */
#endif
