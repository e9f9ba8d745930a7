// The sky of the benchmark programs: analytic geocentric orbits in km, km/s; the time is seconds of TT past J2000.
#pragma once
#include <cmath>
namespace sky {
template <class T> void state(int body, T et, T *s) {
  const T w = body == 301 ? (T)2.6617e-6L : (T)1.99099e-7L, r = body == 301 ? (T)384400.L : (T)149597870.L, i = body == 301 ? (T).41L : (T).4091L;
  const T a = w * et + (body == 301 ? (T)1.1L : (T)4.9L), c = std::cos(a), n = std::sin(a);
  s[0] = r * c, s[1] = r * n * std::cos(i), s[2] = r * n * std::sin(i);
  s[3] = -r * w * n, s[4] = r * w * c * std::cos(i), s[5] = r * w * c * std::sin(i);
}
} // namespace sky
