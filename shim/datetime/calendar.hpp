/* Stand-in for the ggdatetime library (not available here): the types and functions iers2010 uses, no more. */
#ifndef VERIF_SHIM_CALENDAR
#define VERIF_SHIM_CALENDAR
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <stdexcept>

namespace dso {
constexpr const double SEC_PER_DAY = 86400e0;
constexpr const double TT_MINUS_TAI = 32.184e0;
constexpr const double DAYS_IN_JULIAN_YEAR = 365.25e0;
constexpr const double DAYS_IN_JULIAN_CENTURY = 36525e0;

#define VERIF_INT_TYPE(NAME, T)                                                                                        \
  class NAME {                                                                                                         \
    T v_{0};                                                                                                           \
  public:                                                                                                              \
    typedef T underlying_type;                                                                                         \
    explicit constexpr NAME(T v = 0) noexcept : v_(v) {}                                                               \
    constexpr T as_underlying_type() const noexcept { return v_; }                                                     \
    constexpr bool operator==(NAME o) const noexcept { return v_ == o.v_; }                                            \
    constexpr bool operator!=(NAME o) const noexcept { return v_ != o.v_; }                                            \
    constexpr bool operator<(NAME o) const noexcept { return v_ < o.v_; }                                              \
    constexpr bool operator<=(NAME o) const noexcept { return v_ <= o.v_; }                                            \
    constexpr bool operator>(NAME o) const noexcept { return v_ > o.v_; }                                              \
    constexpr bool operator>=(NAME o) const noexcept { return v_ >= o.v_; }                                            \
    constexpr NAME operator+(NAME o) const noexcept { return NAME(v_ + o.v_); }                                        \
    constexpr NAME operator-(NAME o) const noexcept { return NAME(v_ - o.v_); }                                        \
  };
VERIF_INT_TYPE(year, int)
VERIF_INT_TYPE(month, int)
VERIF_INT_TYPE(day_of_month, int)
VERIF_INT_TYPE(day_of_year, int)
VERIF_INT_TYPE(hours, int)
VERIF_INT_TYPE(minutes, int)
VERIF_INT_TYPE(seconds, long)
VERIF_INT_TYPE(nanoseconds, long)

struct ymd_date;
class modified_julian_day {
  int v_{0};

public:
  typedef int underlying_type;
  explicit constexpr modified_julian_day(int v = 0) noexcept : v_(v) {}
  constexpr int as_underlying_type() const noexcept { return v_; }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v_ == o.v_; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v_ != o.v_; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v_ < o.v_; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept { return modified_julian_day(v_ + o.v_); }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept { return modified_julian_day(v_ - o.v_); }
  ymd_date to_ymd() const noexcept;
};
struct ymd_date {
  year __year;
  month __month;
  day_of_month __dom;
  ymd_date(year y = year(0), month m = month(0), day_of_month d = day_of_month(0)) : __year(y), __month(m), __dom(d) {}
  year yr() const noexcept { return __year; }
  month mn() const noexcept { return __month; }
  day_of_month dm() const noexcept { return __dom; }
};
namespace shim {
/* days from civil (Howard Hinnant), as MJD */
constexpr long mjd_of(long y, long m, long d) noexcept {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const long yoe = y - era * 400;
  const long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
inline void ymd_of(long mjd, int &y, int &m, int &d) noexcept {
  long z = mjd - 40587 + 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const long doe = z - era * 146097;
  const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const long mp = (5 * doy + 2) / 153;
  d = int(doy - (153 * mp + 2) / 5 + 1);
  m = int(mp < 10 ? mp + 3 : mp - 9);
  y = int(yoe + era * 400 + (m <= 2));
}
constexpr const int LEAPS[][2] = {{41317, 10}, {41499, 11}, {41683, 12}, {42048, 13}, {42413, 14}, {42778, 15},
                                  {43144, 16}, {43509, 17}, {43874, 18}, {44239, 19}, {44786, 20}, {45151, 21},
                                  {45516, 22}, {46247, 23}, {47161, 24}, {47892, 25}, {48257, 26}, {48804, 27},
                                  {49169, 28}, {49534, 29}, {50083, 30}, {50630, 31}, {51179, 32}, {53736, 33},
                                  {54832, 34}, {56109, 35}, {57204, 36}, {57754, 37}};
constexpr int leap(long mjd) noexcept {
  int n = 0;
  for (const auto &l : LEAPS)
    if (mjd >= l[0])
      n = l[1];
  return n;
}
} /* namespace shim */
inline ymd_date modified_julian_day::to_ymd() const noexcept {
  int y, m, d;
  shim::ymd_of(v_, y, m, d);
  return ymd_date(year(y), month(m), day_of_month(d));
}
/* TAI - UTC, in integer seconds */
inline int dat(modified_julian_day m) noexcept { return shim::leap(m.as_underlying_type()); }

class FractionalSeconds {
  double v_{0};

public:
  constexpr FractionalSeconds(double v = 0) noexcept : v_(v) {}
  constexpr double seconds() const noexcept { return v_; }
};
class FractionalDays {
  double v_{0};

public:
  constexpr FractionalDays(double v = 0) noexcept : v_(v) {}
  constexpr double days() const noexcept { return v_; }
};
class FractionalYears {
  double v_{0};

public:
  constexpr FractionalYears(double v = 0) noexcept : v_(v) {}
  constexpr double years() const noexcept { return v_; }
};
enum class DateTimeDifferenceType { FractionalDays, FractionalSeconds, FractionalYears };
namespace shim {
template <DateTimeDifferenceType T> struct Diff;
template <> struct Diff<DateTimeDifferenceType::FractionalDays> { typedef FractionalDays type; };
template <> struct Diff<DateTimeDifferenceType::FractionalYears> { typedef FractionalYears type; };
template <> struct Diff<DateTimeDifferenceType::FractionalSeconds> { typedef FractionalSeconds type; };
template <DateTimeDifferenceType T> constexpr typename Diff<T>::type make(long days, double sec) noexcept {
  if constexpr (T == DateTimeDifferenceType::FractionalDays)
    return FractionalDays(double(days) + sec / SEC_PER_DAY);
  else if constexpr (T == DateTimeDifferenceType::FractionalYears)
    return FractionalYears((double(days) + sec / SEC_PER_DAY) / DAYS_IN_JULIAN_YEAR);
  else
    return FractionalSeconds(double(days) * SEC_PER_DAY + sec);
}
} /* namespace shim */

class TwoPartDate;
/* MJD plus seconds of day, in UTC (a day may be a second longer) */
class TwoPartDateUTC {
  int mjd_{0};
  double sec_{0};

public:
  constexpr TwoPartDateUTC() noexcept {}
  constexpr TwoPartDateUTC(int m, FractionalSeconds s) noexcept : mjd_(m), sec_(s.seconds()) { normalize(); }
  constexpr void normalize() noexcept {
    while (sec_ < 0) {
      --mjd_;
      sec_ += SEC_PER_DAY + (shim::leap(mjd_ + 1) - shim::leap(mjd_));
    }
    for (;;) {
      const double len = SEC_PER_DAY + ((mjd_ >= 41317) ? shim::leap(mjd_ + 1) - shim::leap(mjd_) : 0);
      if (sec_ < len)
        break;
      sec_ -= len;
      ++mjd_;
    }
  }
  constexpr int imjd() const noexcept { return mjd_; }
  constexpr double sec_of_day() const noexcept { return sec_; }
  inline TwoPartDate utc2tt() const noexcept;
};

class TwoPartDate {
  int mjd_{0};
  double sec_{0};
  constexpr void normalize() noexcept {
    if (sec_ >= 0 && sec_ < SEC_PER_DAY)
      return;
    long n = long(sec_ / SEC_PER_DAY);
    if (double(n) * SEC_PER_DAY > sec_)
      --n;
    sec_ -= double(n) * SEC_PER_DAY;
    if (sec_ >= SEC_PER_DAY) {
      sec_ -= SEC_PER_DAY;
      ++n;
    }
    mjd_ += int(n);
  }

public:
  constexpr TwoPartDate() noexcept {}
  constexpr explicit TwoPartDate(int m) noexcept : mjd_(m) {}
  constexpr TwoPartDate(int m, FractionalSeconds s) noexcept : mjd_(m), sec_(s.seconds()) { normalize(); }
  static constexpr TwoPartDate min() noexcept { return TwoPartDate(-678575, FractionalSeconds(0)); }
  static constexpr TwoPartDate max() noexcept { return TwoPartDate(2973483, FractionalSeconds(0)); }
  static constexpr TwoPartDate j2000_mjd() noexcept { return TwoPartDate(51544, FractionalSeconds(43200e0)); }
  constexpr int imjd() const noexcept { return mjd_; }
  template <typename S = dso::seconds> constexpr double sec_of_day() const noexcept { return sec_; }
  constexpr FractionalSeconds seconds() const noexcept { return FractionalSeconds(sec_); }
  constexpr TwoPartDate gps2tai() const noexcept { return add_seconds(FractionalSeconds(19)); }
  constexpr TwoPartDate tai2tt() const noexcept { return add_seconds(FractionalSeconds(TT_MINUS_TAI)); }
  TwoPartDate tai2ut1(double dut1) const noexcept { return tai2tt().tt2ut1(dut1); }
  constexpr FractionalSeconds seconds_of_day() const noexcept { return FractionalSeconds(sec_); }
  constexpr FractionalDays fractional_days() const noexcept { return FractionalDays(sec_ / SEC_PER_DAY); }
  constexpr double as_mjd() const noexcept { return double(mjd_) + sec_ / SEC_PER_DAY; }
  constexpr double julian_date() const noexcept { return double(mjd_) + sec_ / SEC_PER_DAY + 2400000.5; }
  constexpr double jcenturies_sinceJ2000() const noexcept {
    return (double(mjd_ - 51544) + (sec_ - 43200e0) / SEC_PER_DAY) / DAYS_IN_JULIAN_CENTURY;
  }
  template <DateTimeDifferenceType T> constexpr typename shim::Diff<T>::type diff(const TwoPartDate &o) const noexcept {
    return shim::make<T>(long(mjd_) - long(o.mjd_), sec_ - o.sec_);
  }
  constexpr TwoPartDate add_seconds(FractionalSeconds s) const noexcept {
    return TwoPartDate(mjd_, FractionalSeconds(sec_ + s.seconds()));
  }
  TwoPartDateUTC tt2utc() const noexcept {
    /* TAI, then the UTC day whose leap count is consistent */
    const TwoPartDate tai = add_seconds(FractionalSeconds(-TT_MINUS_TAI));
    TwoPartDate utc = tai.add_seconds(FractionalSeconds(-double(shim::leap(tai.mjd_))));
    const int l = shim::leap(utc.mjd_);
    if (l != shim::leap(tai.mjd_)) {
      utc = tai.add_seconds(FractionalSeconds(-double(l)));
      if (utc.mjd_ == tai.mjd_ && shim::leap(utc.mjd_) != l) /* inside the leap second */
        return TwoPartDateUTC(utc.mjd_ - 1, FractionalSeconds(utc.sec_ + SEC_PER_DAY));
    }
    return TwoPartDateUTC(utc.mjd_, FractionalSeconds(utc.sec_));
  }
  TwoPartDate tt2ut1(double dut1) const noexcept {
    const TwoPartDateUTC u = tt2utc();
    return TwoPartDate(u.imjd(), FractionalSeconds(u.sec_of_day() + dut1));
  }
  constexpr bool operator==(const TwoPartDate &o) const noexcept { return mjd_ == o.mjd_ && sec_ == o.sec_; }
  constexpr bool operator!=(const TwoPartDate &o) const noexcept { return !(*this == o); }
  constexpr bool operator<(const TwoPartDate &o) const noexcept { return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && sec_ < o.sec_); }
  constexpr bool operator>(const TwoPartDate &o) const noexcept { return o < *this; }
  constexpr bool operator<=(const TwoPartDate &o) const noexcept { return !(o < *this); }
  constexpr bool operator>=(const TwoPartDate &o) const noexcept { return !(*this < o); }
};
inline TwoPartDate TwoPartDateUTC::utc2tt() const noexcept {
  return TwoPartDate(mjd_, FractionalSeconds(sec_ + double(shim::leap(mjd_)) + TT_MINUS_TAI));
}
typedef TwoPartDate MjdEpoch;

/* integral date-time: day and nanoseconds of day */
template <typename S> class datetime {
  static constexpr long PER_DAY = 86400L * 1000000000L;
  int mjd_{0};
  long ns_{0};
  void normalize() noexcept {
    while (ns_ < 0) {
      --mjd_;
      ns_ += PER_DAY;
    }
    mjd_ += int(ns_ / PER_DAY);
    ns_ %= PER_DAY;
  }

public:
  datetime() noexcept {}
  datetime(modified_julian_day m, S s) noexcept : mjd_(m.as_underlying_type()), ns_(s.as_underlying_type()) { normalize(); }
  datetime(year y, month m, day_of_month d, S s) : datetime(y, m, d, hours(0), minutes(0), s) {}
  datetime(year y, month m, day_of_month d, hours h = hours(0), minutes mi = minutes(0), S s = S(0)) {
    const int mm = m.as_underlying_type(), dd = d.as_underlying_type();
    if (mm < 1 || mm > 12 || dd < 1 || dd > 31)
      throw std::out_of_range("invalid date");
    mjd_ = int(shim::mjd_of(y.as_underlying_type(), mm, dd));
    int y2, m2, d2;
    shim::ymd_of(mjd_, y2, m2, d2);
    if (d2 != dd)
      throw std::out_of_range("invalid day of month");
    ns_ = (h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) * 1000000000L + s.as_underlying_type();
    normalize();
  }
  datetime(year y, day_of_year d) { mjd_ = int(shim::mjd_of(y.as_underlying_type(), 1, 1)) + d.as_underlying_type() - 1; }
  static datetime min() noexcept { return datetime(modified_julian_day(-678575), S(0)); }
  static datetime max() noexcept { return datetime(modified_julian_day(2973483), S(0)); }
  modified_julian_day imjd() const noexcept { return modified_julian_day(mjd_); }
  S sec() const noexcept { return S(ns_); }
  double fmjd() const noexcept { return double(mjd_) + double(ns_) / double(PER_DAY); }
  FractionalDays fractional_days() const noexcept { return FractionalDays(double(ns_) / double(PER_DAY)); }
  ymd_date as_ymd() const noexcept { return imjd().to_ymd(); }
  datetime add_seconds(S s) const noexcept {
    datetime t(*this);
    const long v = s.as_underlying_type();
    t.mjd_ += int(v / PER_DAY);
    t.ns_ += v % PER_DAY;
    t.normalize();
    return t;
  }
  /* GPS time to TT: 19 s + 32.184 s */
  datetime gps2tt() const noexcept { return add_seconds(S(51184000000L)); }
  datetime tt2gps() const noexcept { return add_seconds(S(-51184000000L)); }
  template <DateTimeDifferenceType T> typename shim::Diff<T>::type diff(const datetime &o) const noexcept {
    return shim::make<T>(long(mjd_) - long(o.mjd_), double(ns_ - o.ns_) * 1e-9);
  }
  bool operator==(const datetime &o) const noexcept { return mjd_ == o.mjd_ && ns_ == o.ns_; }
  bool operator!=(const datetime &o) const noexcept { return !(*this == o); }
  bool operator<(const datetime &o) const noexcept { return mjd_ < o.mjd_ || (mjd_ == o.mjd_ && ns_ < o.ns_); }
  bool operator>(const datetime &o) const noexcept { return o < *this; }
  bool operator<=(const datetime &o) const noexcept { return !(o < *this); }
  bool operator>=(const datetime &o) const noexcept { return !(*this < o); }
};
template <typename S> using Datetime = datetime<S>;
template <typename S> datetime<S> from_mjdepoch(const MjdEpoch &t) noexcept {
  return datetime<S>(modified_julian_day(t.imjd()), S(std::lround(t.sec_of_day() * 1e9)));
}
} /* namespace dso */
#endif
