#ifndef VERIF_SHIM_DATETIME_IO
#define VERIF_SHIM_DATETIME_IO
#include "datetime/calendar.hpp"
namespace dso {
enum class YMDFormat { YYYYMMDD, YYYYDDMM, YYYYDDD };
enum class HMSFormat { HHMMSS, HHMM, HHMMSSF };
} /* namespace dso */
#endif
