// IERS 2010, 6.2.1: the geopotential of the solid Earth tide, in long double.
#pragma once
#include "mon.hpp"
#include "solid_earth_tide.hpp"
#include "solidtide_tables.hpp"
#include <complex>
using namespace mon;
typedef long double LD;
typedef std::complex<LD> CLD;
typedef Eigen::Matrix<double, 3, 1> V3;
using dso::MjdEpoch;
static const LD PI = 3.14159265358979323846264338327950288L;
static const LD AS = PI / 648000;

struct Case {
  double gme, re, gms, gmm;
  MjdEpoch tt, ut;
  V3 moon, sun, sta;
  double f[5];
};
static V3 direction(Rng &r) {
  const double u = r.real(0, 1);
  if (u < .04) return V3(0, 0, r.coin() ? 1 : -1);
  if (u < .08) return V3(r.coin() ? 1 : -1, 0, 0);
  if (u < .12) return V3(0, r.coin() ? 1 : -1, 0);
  const double z = u < .2 ? 0 : r.real(-1, 1), l = r.real(-PI, PI), c = std::sqrt(1 - z * z);
  return V3(c * std::cos(l), c * std::sin(l), z);
}
static double ut_minus_tt(Rng &r) { return -r.real(32, 100); }
static Case draw(Rng &r) {
  Case c;
  const bool def = r.coin(.3);
  c.gme = ::iers2010::GMe, c.re = ::iers2010::Re, c.gms = 1.32712442076e20, c.gmm = 0.49028010560e13;
  if (!def) {
    c.gme *= r.real(.9, 1.1), c.re *= r.real(.9, 1.1), c.gms *= r.real(.5, 2), c.gmm *= r.real(.5, 2);
    if (r.coin(.1)) c.gms = 0;
    if (r.coin(.1)) c.gmm = 0;
  }
  const int mjd = (int)r.in(40000, 70000);
  const double s = r.real(200, 86200);
  c.tt = MjdEpoch(mjd, dso::FractionalSeconds(s));
  c.ut = MjdEpoch(mjd, dso::FractionalSeconds(s + ut_minus_tt(r)));
  c.moon = direction(r) * r.real(3.5e8, 4.1e8);
  c.sun = direction(r) * r.real(1.46e11, 1.53e11);
  c.sta = direction(r) * r.real(6.35e6, 6.39e6);
  if (r.coin(.05)) c.sta = c.moon.normalized() * 6.37e6;                       // the Moon at the zenith
  if (r.coin(.05)) c.sun = c.moon.normalized() * (r.coin() ? 1.5e11 : -1.5e11); // new, full Moon
  for (double &x : c.f) x = r.coin(.8) ? r.real(0, 2 * PI) : r.real(-7, 7);
  if (r.coin(.05)) for (double &x : c.f) x = 0;
  return c;
}
static void describe(const Case &c) {
  ctx("GMe %.17g Re %.17g GMs %.17g GMm %.17g tt %d %.9f ut1 %.9f moon %.12g,%.12g,%.12g sun %.12g,%.12g,%.12g "
      "sta %.12g,%.12g,%.12g f %.12g,%.12g,%.12g,%.12g,%.12g",
      c.gme, c.re, c.gms, c.gmm, c.tt.imjd(), (double)c.tt.sec_of_day<dso::seconds>(),
      (double)c.ut.sec_of_day<dso::seconds>(), c.moon(0), c.moon(1), c.moon(2), c.sun(0), c.sun(1), c.sun(2), c.sta(0),
      c.sta(1), c.sta(2), c.f[0], c.f[1], c.f[2], c.f[3], c.f[4]);
}
// GMST: Earth rotation angle and the accumulated precession
static LD gmst(const MjdEpoch &tt, const MjdEpoch &ut) {
  const LD fu = (LD)ut.sec_of_day<dso::seconds>() / 86400, du = (LD)(ut.imjd() - 51544) - .5L + fu;
  const LD era = 2 * PI * (fu + .5L + .7790572732640L + .00273781191135448L * du);   // an integer number of days dropped
  const LD t = ((LD)(tt.imjd() - 51544) - .5L + (LD)tt.sec_of_day<dso::seconds>() / 86400) / 36525;
  const LD p = .014506L + t * (4612.156534L + t * (1.3915817L + t * (-.00000044L + t * (-.000029956L + t * -.0000000368L))));
  return era + p * AS;
}
static void doodson(const double *f, LD g, LD *b) {
  const LD l = f[0], lp = f[1], F = f[2], D = f[3], O = f[4];
  b[1] = F + O, b[2] = b[1] - D, b[3] = b[1] - l, b[4] = -O, b[5] = b[1] - D - lp, b[0] = g + PI - b[1];
}
static LD theta(const int *n, const LD *b) {
  LD a = 0;
  for (int i = 0; i < 6; i++) a += n[i] * b[i];
  return a;
}
// fully normalised associated Legendre functions, no Condon-Shortley phase
static LD P(int n, int m, LD x) {
  const LD u = sqrtl(std::max<LD>(0, 1 - x * x));
  switch (10 * n + m) {
  case 20: return sqrtl(5) * (3 * x * x - 1) / 2;
  case 21: return sqrtl(15) * x * u;
  case 22: return sqrtl(15) / 2 * u * u;
  case 30: return sqrtl(7) * (5 * x * x * x - 3 * x) / 2;
  case 31: return sqrtl(42) / 4 * u * (5 * x * x - 1);
  case 32: return sqrtl(105) / 2 * x * u * u;
  case 33: return sqrtl(70) / 4 * u * u * u;
  }
  return 0;
}
static void expect_stokes(const Case &c, LD C[5][5], LD S[5][5], LD scale[5]) {
  for (int n = 0; n < 5; n++) for (int m = 0; m < 5; m++) C[n][m] = S[n][m] = 0;
  for (int n = 0; n < 5; n++) scale[n] = 1e-13L;
  const CLD k2[3] = {{.30190L, 0}, {.29830L, -.00144L}, {.30102L, -.00130L}};
  const LD kp[3] = {-.00089L, -.00080L, -.00057L}, k3[4] = {.093L, .093L, .093L, .094L};
  for (int b = 0; b < 2; b++) {
    const V3 &q = b ? c.sun : c.moon;
    const LD x = q(0), y = q(1), z = q(2), rr = sqrtl(x * x + y * y + z * z), s = z / rr, lam = atan2l(y, x);
    const LD g = (LD)(b ? c.gms : c.gmm) / c.gme, e = c.re / rr;
    for (int m = 0; m < 4; m++) {
      const CLD ph(cosl(m * lam), -sinl(m * lam));
      if (m < 3) {
        const CLD p2 = g * e * e * e * P(2, m, s) * ph / (LD)5;
        const CLD a = k2[m] * p2, d = kp[m] * p2;
        C[2][m] += a.real(), S[2][m] -= a.imag(), C[4][m] += d.real(), S[4][m] -= d.imag();
      }
      const CLD a = k3[m] * g * e * e * e * e * P(3, m, s) / (LD)7 * ph;
      C[3][m] += a.real(), S[3][m] -= a.imag();
    }
    scale[2] += g * e * e * e, scale[3] += g * e * e * e * e, scale[4] += 1e-2L * g * e * e * e;
  }
  LD be[6];
  doodson(c.f, gmst(c.tt, c.ut), be);
  for (const auto &w : pot_waves) {
    const LD a = theta(w.n, be), s = sinl(a), k = cosl(a);
    if (w.n[0] == 0) C[2][0] += 1e-12L * (w.ip * k - w.op * s);
    else if (w.n[0] == 1) C[2][1] += 1e-12L * (w.ip * s + w.op * k), S[2][1] += 1e-12L * (w.ip * k - w.op * s);
    else C[2][2] += 1e-12L * (w.ip * k - w.op * s), S[2][2] -= 1e-12L * (w.ip * s + w.op * k);
  }
  for (int m = 0; m < 5; m++) S[2][0] = S[3][0] = S[4][0] = 0;
  scale[2] += 1e-9L;
}
