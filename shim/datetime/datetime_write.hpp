#ifndef VERIF_SHIM_DATETIME_WRITE
#define VERIF_SHIM_DATETIME_WRITE
#include "datetime/core/datetime_io_core.hpp"
namespace dso {
/* exactly ten characters, no terminating null */
template <YMDFormat F> const char *to_char(const ymd_date &t, char *buf, char delim = '/') {
  char tmp[32];
  std::snprintf(tmp, sizeof tmp, "%04d%c%02d%c%02d", t.yr().as_underlying_type(), delim, t.mn().as_underlying_type(), delim,
                t.dm().as_underlying_type());
  std::memcpy(buf, tmp, 10);
  return buf + 10;
}
/* at most 32 characters, null terminated */
template <YMDFormat F, HMSFormat H, typename S = nanoseconds, typename T> const char *to_char(const T &t, char *buf) {
  char tmp[64];
  if constexpr (std::is_same<T, TwoPartDate>::value) {
    const auto d = modified_julian_day(t.imjd()).to_ymd();
    const double s = t.template sec_of_day<seconds>();
    std::snprintf(tmp, sizeof tmp, "%04d/%02d/%02d %02d:%02d:%09.6f", d.yr().as_underlying_type(), d.mn().as_underlying_type(),
                  d.dm().as_underlying_type(), int(s / 3600), int(std::fmod(s, 3600) / 60), std::fmod(s, 60));
  } else {
    const auto d = t.as_ymd();
    const double s = double(t.sec().as_underlying_type()) * 1e-9;
    std::snprintf(tmp, sizeof tmp, "%04d/%02d/%02d %02d:%02d:%09.6f", d.yr().as_underlying_type(), d.mn().as_underlying_type(),
                  d.dm().as_underlying_type(), int(s / 3600), int(std::fmod(s, 3600) / 60), std::fmod(s, 60));
  }
  std::memcpy(buf, tmp, std::strlen(tmp) + 1);
  return buf;
}
} /* namespace dso */
#endif
