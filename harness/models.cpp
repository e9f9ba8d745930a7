// Free core nutation, relativistic acceleration, planetary positions (against a recording ephemeris).
#include "mon.hpp"
#include "fcn.hpp"
#include "planets.hpp"
#include "relativity.hpp"
#include <array>
#include <fstream>
#include <memory>
using namespace mon;
typedef long double LD;
using dso::MjdEpoch;
using dso::fcn::LambertCoefficients;
static const LD PI = 3.14159265358979323846264338327950288L;
static LD days(const MjdEpoch &a, const MjdEpoch &b) {
  return (LD)(a.imjd() - b.imjd()) + ((LD)a.sec_of_day<dso::seconds>() - (LD)b.sec_of_day<dso::seconds>()) / 86400;
}
static const MjdEpoch J2000(51544, dso::FractionalSeconds(43200));

// ------------------------------------------------------------------ FCN
static void check_fcn(const MjdEpoch &t, const std::vector<LambertCoefficients> &v, const dso::fcn::FcnResult &f) {
  const size_t n = v.size();
  size_t hi = 0;
  while (hi < n && !(t < v[hi].t)) ++hi;
  LD re, im, sg;
  if (hi == 0) re = v[0].real, im = v[0].imag, sg = v[0].sigma + .3L * days(v[0].t, t), count("before");
  else if (hi == n) re = v[n - 1].real, im = v[n - 1].imag, sg = v[n - 1].sigma + .3L * days(t, v[n - 1].t), count("after");
  else {
    const LD w = days(t, v[hi - 1].t) / days(v[hi].t, v[hi - 1].t);
    re = v[hi - 1].real * (1 - w) + v[hi].real * w, im = v[hi - 1].imag * (1 - w) + v[hi].imag * w;
    sg = fabsl(v[hi - 1].sigma * (1 - w) + v[hi].sigma * w), count("between");
  }
  const LD phi = -2 * PI / 430.21L * days(t, J2000);
  const double m = 1e-10 * (double)(1 + fabsl(re) + fabsl(im) + sg);
  near(f.xcip, (double)(re * cosl(phi) - im * sinl(phi)), m, "fcn-x", "X");
  near(f.ycip, (double)(im * cosl(phi) + re * sinl(phi)), m, "fcn-y", "Y");
  near(f.sxcip, (double)(2 * sg), m, "fcn-sigma", "sigma X");
  near(f.sycip, (double)(2 * sg), m, "fcn-sigma", "sigma Y");
}
static void fcn() {
  Rng r(S().seed);
  { // FCNNUT check values
    auto f = dso::lambert_fcn(MjdEpoch(54790, dso::FractionalSeconds(0)));
    near(f.xcip, -176.8012290066270680, 1e-9, "published", "X");
    near(f.ycip, -93.51855308903756736, 1e-9, "published", "Y");
    near(f.sxcip, 3.745573770491803067, 1e-9, "published", "sigma X");
    near(f.sycip, 3.745573770491803067, 1e-9, "published", "sigma Y");
    eval(1);
  }
  // Table 5.2c of the IERS Conventions: MJD, X cos, X sin, sigma
  static const double T[][4] = {{45700, 4.55, -36.58, 19.72}, {46066, -141.82, -105.35, 11.12}, {46431, -246.56, -170.21, 9.47}, {46796, -281.89, -159.24, 8.65},
      {47161, -255.05, -43.58, 8.11}, {47527, -210.46, -88.56, 7.31}, {47892, -187.79, -57.35, 6.41}, {48257, -163.01, 26.26, 5.52}, {48622, -145.53, 44.65, 4.80},
      {48988, -145.12, 51.49, 5.95}, {49353, -109.93, 16.87, 9.45}, {49718, -87.30, 5.36, 8.25}, {50083, -90.61, 1.52, 7.67}, {50449, -94.73, 35.35, 4.40},
      {50814, -67.52, 27.57, 3.40}, {51179, -44.11, -14.31, 3.45}, {51544, 5.21, -74.87, 3.26}, {51910, 70.37, -129.66, 2.86}, {52275, 86.47, -127.84, 2.75},
      {52640, 110.44, -42.73, 2.59}, {53005, 114.78, -0.13, 2.53}, {53371, 132.96, -4.78, 2.72}, {53736, 157.36, 28.63, 2.19}, {54101, 160.40, 58.87, 1.87},
      {54466, 156.76, 101.24, 1.74}, {54832, 142.99, 143.01, 1.89}, {55197, 33.70, 184.46, 1.95}, {55562, 0.76, 253.70, 1.14}, {55927, 25.47, 271.66, 1.07}, {56293, 113.42, 256.50, 1.86}};
  auto tab = dso::fcn::load_iers10_table52c();
  const size_t nt = sizeof T / sizeof *T;
  if (check(tab.size() == nt, "table-size", "%zu entries", tab.size()))
    for (size_t i = 0; i < nt; i++) {
      ctx("table entry %zu", i);
      check(tab[i].t == MjdEpoch((int)T[i][0], dso::FractionalSeconds(0)), "table", "epoch %d", tab[i].t.imjd());
      same(tab[i].xc(), T[i][1], "table", "xc"), same(tab[i].xs(), T[i][2], "table", "xs"), same(tab[i].sx(), T[i][3], "table", "sigma");
      same(tab[i].yc(), T[i][2], "table", "yc"), same(tab[i].ys(), -T[i][1], "table", "ys"), same(tab[i].sy(), T[i][3], "table", "sigma");
      eval(hash(2, i));
    }
  std::vector<LambertCoefficients> std_;
  for (auto &x : T) std_.emplace_back(MjdEpoch((int)x[0], dso::FractionalSeconds(0)), x[1], x[2], x[3]);
  for (long i = 0, n = N(5000, 100000); i < n; i++) {
    std::vector<LambertCoefficients> v;
    MjdEpoch t0((int)r.in(44000, 58000), dso::FractionalSeconds(r.real(0, 86400)));
    for (int k = (int)r.in(1, r.coin() ? 3 : 40); k--;) {
      v.emplace_back(t0, r.sym() * 300, r.sym() * 300, r.real(0, 20));
      t0 = t0.add_seconds(dso::FractionalSeconds(r.real(.5, 400) * 86400));
    }
    for (int q = 0; q < 6; q++) {
      MjdEpoch t = v[r.in(0, v.size() - 1)].t.add_seconds(dso::FractionalSeconds(r.coin(.3) ? 0 : r.real(-500, 500) * 86400));
      ctx("table %ld of %zu, t=%d+%.6fs", i, v.size(), t.imjd(), t.sec_of_day<dso::seconds>());
      if (r.coin(.3)) { // the table changes in place
        auto &x = v[r.in(0, v.size() - 1)];
        const MjdEpoch at = x.t;
        x = LambertCoefficients(at, r.sym() * 300, r.sym() * 300, r.real(0, 20));
      }
      check_fcn(t, v, dso::lambert_fcn(t, v));
      eval(hash(i, bits(t.sec_of_day<dso::seconds>()), t.imjd()), v.size() > 1);
    }
    const MjdEpoch t = revisit<dso::FractionalSeconds>(r, MjdEpoch((int)r.in(44000, 60000), dso::FractionalSeconds(r.real(0, 86400))));
    ctx("IERS table, t=%d+%.6fs", t.imjd(), t.sec_of_day<dso::seconds>());
    check_fcn(t, std_, dso::lambert_fcn(t));
    eval(hash(i, t.imjd()));
    if (i < 3) sample("%s", S().ctx);
  }
}
static void fcn_files() {
  Rng r(S().seed + 1);
  Quiet q;
  const std::string p = (S().scratch.empty() ? std::string("/tmp") : S().scratch) + "/fcn";
  for (long i = 0, n = N(1500, 20000); i < n; i++) {
    const int cnt = (int)r.in(0, 80);
    std::vector<std::array<double, 4>> rec;
    std::vector<std::string> lines{"%           mjd     real     imag    sigma  (all in microas)"};
    double mjd = std::round(r.real(44000, 50000) * 10) / 10;
    for (int k = 0; k < cnt; k++) {
      std::array<double, 4> a{mjd, std::round(r.sym() * 3e4) / 100, std::round(r.sym() * 3e4) / 100, std::round(r.u() * 2000) / 100};
      char b[128];
      snprintf(b, sizeof b, "%6.1f %8.1f %9.2f %9.2f %9.2f", 1984 + (mjd - 45700) / 365.25, a[0], a[1], a[2], a[3]);
      lines.push_back(b), rec.push_back(a);
      mjd = std::round((mjd + r.real(1, 400)) * 10) / 10;
    }
    const int bad = cnt > 1 ? (int)r.in(0, 6) : 0;
    bool must = false;
    std::string &l = lines[r.in(cnt ? 1 : 0, cnt)];
    if (bad == 1) l.resize(r.in(0, 38)), must = true; // the last field is gone
    if (bad == 2) lines[0] = "1984.0  45700.0 1 2 3", must = true;
    if (bad == 3) l[l.find_first_of("0123456789")] = 'x', must = true;
    if (bad == 6) l += std::string(r.in(60, 400), ' '); // all of it or nothing
    std::string t;
    for (auto &x : lines) t += x + "\n";
    if (bad == 4)
      for (int k = (int)r.in(1, 6); k--;) {
        size_t at = r.in(0, t.size() - 1);
        if (r.coin()) t[at] = (char)r.in(1, 255);
        else t.erase(at, r.in(1, 30));
      }
    {
      std::ofstream o(p, std::ios::binary);
      o.write(t.data(), (std::streamsize)t.size());
    }
    std::vector<LambertCoefficients> v;
    v.emplace_back(MjdEpoch(1, dso::FractionalSeconds(0)), 1, 2, 3);
    MjdEpoch a = MjdEpoch::min(), b = MjdEpoch::max();
    const bool all = r.coin(.3);
    if (!all) {
      a = MjdEpoch((int)r.in(44000, 60000), dso::FractionalSeconds(r.coin() ? 0 : 8640. * r.in(0, 9)));
      b = MjdEpoch((int)r.in(44000, 60000), dso::FractionalSeconds(r.coin() ? 0 : 8640. * r.in(0, 9)));
      if (cnt && r.coin()) {
        double m = rec[r.in(0, cnt - 1)][0], f = std::floor(m);
        (r.coin() ? a : b) = MjdEpoch((int)f, dso::FractionalSeconds((m - f) * 86400));
      }
    }
    ctx("file %ld of %d entries, damage %d, range %.4f .. %.4f", i, cnt, bad, a.as_mjd(), b.as_mjd());
    const int rc = all ? dso::parse_lambert_coefficients(p.c_str(), v) : dso::parse_lambert_coefficients(p.c_str(), a, b, v);
    eval(hash(i, cnt, bad), cnt > 0);
    if (b < a) check(rc != 0, "inverted-range", "accepted");
    else if (bad == 6 && rc) count("long line refused");
    else if (bad && bad < 5) {
      if (must) check(rc != 0, "damaged-accepted", "accepted");
    } else if (check(rc == 0, "rc", "status %d", rc)) {
      size_t k = 0;
      for (auto &x : rec) {
        const double da = x[0] - a.as_mjd(), db = x[0] - b.as_mjd();
        const bool edge = std::abs(da) < 1e-9 || std::abs(db) < 1e-9;
        const bool in = da >= 0 && db < 0;
        const bool got = k < v.size() && std::abs(v[k].t.as_mjd() - x[0]) < 1e-6;
        if (!check(got == in || edge, "selection", "entry at %.1f %s", x[0], got ? "kept" : "dropped")) break;
        // both ends exactly on an entry and exactly representable: [from, to)
        if (edge && x[0] == std::floor(x[0])) check(got == in, "selection-edge", "entry at %.1f %s", x[0], got ? "kept" : "dropped");
        if (!got) continue;
        near((double)days(v[k].t, MjdEpoch((int)x[0], dso::FractionalSeconds(0))), x[0] - std::floor(x[0]), 1e-9, "epoch", "fraction of day");
        same(v[k].real, x[1], "real"), same(v[k].imag, x[2], "imag"), same(v[k].sigma, x[3], "sigma");
        ++k;
      }
      check(k == v.size(), "extra", "%zu entries, %zu expected", v.size(), k);
    }
    if (i < 2) sample("%s", S().ctx);
  }
  unlink(p.c_str());
  std::vector<LambertCoefficients> v;
  check(dso::parse_lambert_coefficients(p.c_str(), v) != 0, "no-file", "accepted");
}

// ------------------------------------------------------------------ relativity
struct V { LD x[3]; };
static V cross(const V &a, const V &b) {
  return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}};
}
static LD dot(const V &a, const V &b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static V lin(LD f, const V &a, LD g, const V &b) { return {{f * a.x[0] + g * b.x[0], f * a.x[1] + g * b.x[1], f * a.x[2] + g * b.x[2]}}; }
static void relativity() {
  Rng r(S().seed + 2);
  for (long i = 0, n = N(40000, 800000); i < n; i++) {
    Eigen::Matrix<double, 6, 1> sat, sun;
    const double rs = r.real(6.5e6, 4.5e7), R = r.coin(.8) ? r.real(1.4e11, 1.6e11) : std::pow(10., r.real(10, 13));
    double nrm = 0;
    for (int k = 0; k < 3; k++) sat(k) = r.sym(), nrm += sat(k) * sat(k);
    for (int k = 0; k < 3; k++) sat(k) *= rs / std::sqrt(nrm), sat(3 + k) = r.sym() * 8e3;
    nrm = 0;
    for (int k = 0; k < 3; k++) sun(k) = r.sym(), nrm += sun(k) * sun(k);
    for (int k = 0; k < 3; k++) sun(k) *= R / std::sqrt(nrm), sun(3 + k) = r.sym() * 3e4;
    { // the same satellite with another Sun, and the other way round
      static Eigen::Matrix<double, 6, 1> sat0 = sat, sun0 = sun;
      if (r.coin(.1)) sat = sat0;
      if (r.coin(.1)) sun = sun0;
      if (r.coin(.05)) sat.head<3>() = sat0.head<3>();
      if (r.coin(.05)) sun.head<3>() = sun0.head<3>();
      sat0 = sat, sun0 = sun;
    }
    double GMe = 3.986004418e14, GMs = 1.32712442099e20, J = 9.8e8, c = 299792458., be = 1, ga = 1;
    Eigen::Vector3d a;
    const int mode = (int)r.in(0, 3);
    if (mode) GMe *= r.real(.5, 2), GMs *= mode == 2 ? 0 : r.real(.5, 2), J *= mode == 3 ? 0 : r.real(.5, 2), c *= r.real(.9, 1.1), be = r.real(0, 2), ga = r.real(-.5, 2);
    static Stay<double> stay[6];
    if (mode) {
      double *v[] = {&GMe, &GMs, &J, &c, &be, &ga};
      const double often = r.coin(.3) ? .7 : .1;
      for (int k = 0; k < 6; k++) stay[k](r, *v[k], often);
    }
    ctx("case %ld mode %d sat %.6e %.6e %.6e / %.6e %.6e %.6e", i, mode, sat(0), sat(1), sat(2), sat(3), sat(4), sat(5));
    a = mode ? dso::iers2010_relativistic_acceleration(sat, sun, GMe, GMs, J, c, be, ga) : dso::iers2010_relativistic_acceleration(sat, sun);
    V x{{sat(0), sat(1), sat(2)}}, v{{sat(3), sat(4), sat(5)}}, E{{-sun(0), -sun(1), -sun(2)}}, Ev{{-sun(3), -sun(4), -sun(5)}}, Jv{{0, 0, J}};
    const LD rr = sqrtl(dot(x, x)), RR = sqrtl(dot(E, E)), c2 = (LD)c * c, f = GMe / (c2 * rr * rr * rr);
    V s = lin(f * ((2 * ((LD)be + ga)) * GMe / rr - ga * dot(v, v)), x, f * 2 * (1 + (LD)ga) * dot(x, v), v);
    V lt = lin((1 + (LD)ga) * f * 3 / (rr * rr) * dot(x, Jv), cross(x, v), (1 + (LD)ga) * f, cross(v, Jv));
    V w = lin(-(LD)GMs / (c2 * RR * RR * RR), E, 0, E); // Rdot x (-GMs R / c2 R3), times rdot
    V ds = lin(1 + 2 * (LD)ga, cross(cross(Ev, w), v), 0, v);
    const LD mag = sqrtl(dot(s, s)) + sqrtl(dot(lt, lt)) + sqrtl(dot(ds, ds)) + f * (GMe + rr * dot(v, v));
    for (int k = 0; k < 3; k++) near(a(k), (double)(s.x[k] + lt.x[k] + ds.x[k]), (mode ? 1e-12 : 1e-8) * (double)mag, mode ? "acceleration" : "default-constants", "component");
    eval(hash(bits(sat(0)), bits(sun(0)), mode));
    if (i < 2) sample("%s", S().ctx);
  }
}

// ------------------------------------------------------------------ planets: an ephemeris that records what it is asked
static std::vector<std::string> LOADED;
static long NCALLS = 0, BADCALLS = 0;
static void eph(int targ, double et, int obs, double *s) {
  for (int k = 0; k < 6; k++) s[k] = std::sin(et * 1e-7 * (k + 1) + targ * .37 + obs * .011 + k) * (k < 3 ? 1e8 : 40.);
}
extern "C" {
double unitim_c(double e, const char *in, const char *out) {
  if (strcmp(in, "JDTDT") || strcmp(out, "ET")) BADCALLS++;
  return (e - 2451545.) * 86400;
}
void spkezp_c(int targ, double et, const char *ref, const char *ab, int obs, double *p, double *lt) {
  double s[6];
  if (strcmp(ref, "J2000") || strcmp(ab, "NONE")) BADCALLS++;
  NCALLS++;
  eph(targ, et, obs, s);
  memcpy(p, s, 24), *lt = 0;
}
void spkezr_c(const char *targ, double et, const char *ref, const char *ab, const char *obs, double *p, double *lt) {
  if (strcmp(ref, "J2000") || strcmp(ab, "NONE")) BADCALLS++;
  NCALLS++;
  eph(atoi(targ), et, atoi(obs), p), *lt = 0;
}
void ktotal_c(const char *, int *n) { *n = (int)LOADED.size(); }
void kdata_c(int w, const char *, int fl, int tl, int sl, char *file, char *type, char *src, int *h, int *found) {
  *found = w >= 0 && w < (int)LOADED.size();
  file[0] = type[0] = src[0] = 0, *h = w;
  if (!*found) return;
  snprintf(file, fl, "%s", LOADED[w].c_str()), snprintf(type, tl, "SPK"), snprintf(src, sl, "%s", "");
}
void furnsh_c(const char *f) { LOADED.push_back(f); }
void bodvrd_c(const char *b, const char *item, int, int *n, double *v) {
  if (strcmp(item, "GM")) BADCALLS++;
  *n = 1, *v = !strcmp(b, "SUN") ? 132712440041.9394 : !strcmp(b, "MOON") ? 4902.800066163796 : -1;
}
}
static void planets() {
  Rng r(S().seed + 3);
  Quiet q;
  static const std::pair<dso::Planet, int> ID[] = {{dso::Planet::EARTH, 399}, {dso::Planet::MOON, 301}, {dso::Planet::SUN, 10}, {dso::Planet::MERCURY, 199},
                                                   {dso::Planet::VENUS, 299}, {dso::Planet::MARS, 499}, {dso::Planet::JUPITER, 599}, {dso::Planet::SATURN, 699}};
  for (auto &p : ID) {
    int id = -1;
    char b[4] = {1, 1, 1, 1}, c[32];
    memset(c, 'z', sizeof c);
    ctx("planet %d", p.second);
    check(dso::cspice::planet_to_naif_id(p.first, id) == 0 && id == p.second, "naif-id", "id %d", id);
    check(dso::cspice::planet_to_naif_idstr(p.first, b, 4) == 0 && std::to_string(p.second) == b, "naif-idstr", "id '%.3s'", b);
    check(dso::cspice::planet_to_naif_idstr(p.first, c, 32) == 0 && std::to_string(p.second) == c, "naif-idstr", "id '%.8s'", c);
    eval(hash(p.second));
  }
  int id;
  char c8[8];
  for (auto &p : ID) // a buffer that has no room for the digits is never overrun
    for (int z = 1; z < (int)std::to_string(p.second).size(); z++) {
      std::unique_ptr<char[]> h(new char[z]);
      check(dso::cspice::planet_to_naif_idstr(p.first, h.get(), z) != 0, "naif-small", "id of %d written in %d characters", p.second, z);
    }
  check(dso::cspice::planet_to_naif_id((dso::Planet)77, id) != 0 && dso::cspice::planet_to_naif_idstr((dso::Planet)77, c8, 8) != 0, "naif-unknown", "an id for an unknown body");
  for (long i = 0, n = N(20000, 200000); i < n; i++) {
    const auto &p = ID[r.in(0, 7)];
    const MjdEpoch t = revisit<dso::FractionalSeconds>(r, MjdEpoch((int)r.in(40000, 65000), dso::FractionalSeconds(r.real(0, 86400))));
    ctx("body %d at %d+%.6fs", p.second, t.imjd(), t.sec_of_day<dso::seconds>());
    double et = (double)(days(t, J2000) * 86400), s[6];
    eph(p.second, et, 399, s);
    Eigen::Matrix<double, 3, 1> x;
    Eigen::Matrix<double, 6, 1> y;
    x.setConstant(1e300), y.setConstant(1e300);
    check(dso::planet_pos(p.first, t, x) == 0 && dso::planet_state(p.first, t, y) == 0, "rc", "status");
    check(!BADCALLS, "frame", "ephemeris asked for another frame, time scale, correction or item");
    for (int k = 0; k < 3; k++) near(x(k), s[k] * 1e3, 1e3, "position", "[m]");
    for (int k = 0; k < 6; k++) near(y(k), s[k] * 1e3, k < 3 ? 1e3 : 1e-3, "state", "[m], [m/s]");
    eval(hash(p.second, bits(et)));
    if (i < 2) sample("%s", S().ctx);
  }
  Eigen::Matrix<double, 3, 1> x;
  Eigen::Matrix<double, 6, 1> y;
  check(dso::planet_pos((dso::Planet)99, J2000, x) != 0 && dso::planet_state((dso::Planet)99, J2000, y) != 0, "unknown-body", "a position for an unknown body");
  // kernels: loaded once each, whatever the names
  for (long i = 0, n = N(2000, 20000); i < n; i++) {
    LOADED.clear();
    std::vector<std::string> want;
    static const char *NM[] = {"de440", "de440.bsp", "de440s.bsp", "/data/naif0012.tls", "/data/naif", "pck.tpc", "pck.tpc.old", "p"};
    for (int k = (int)r.in(1, 14); k--;) {
      std::string f = NM[r.in(0, 7)];
      if (r.coin(.1)) f = std::string(r.in(100, 200), 'k') + f;
      ctx("history %ld kernel %s", i, f.c_str());
      if (r.coin()) dso::load_spice_kernel(f.c_str());
      else if (r.coin()) dso::cspice::load_if_unloaded(f.c_str());
      else {
        double a = 0, b = 0;
        const int si = r.coin();
        check(dso::sun_moon_gm(a, b, si, f.c_str()) == 0, "rc", "sun_moon_gm");
        near(a, 132712440041.9394 * (si ? 1e9 : 1), 1e-4 * (si ? 1e9 : 1), "gm", "Sun");
        near(b, 4902.800066163796 * (si ? 1e9 : 1), 1e-11 * (si ? 1e9 : 1), "gm", "Moon");
      }
      bool has = false;
      for (auto &w : want) has = has || w == f;
      if (!has) want.push_back(f);
      if (!check(LOADED == want, "kernels", "%zu kernels loaded, expected %zu", LOADED.size(), want.size())) break;
      eval(hash(i, k, f.size()), want.size() > 1);
    }
    double a, b;
    const size_t nl = LOADED.size();
    dso::sun_moon_gm(a, b);
    near(a, 132712440041.9394, 1e-4, "gm", "Sun"), near(b, 4902.800066163796, 1e-11, "gm", "Moon");
    check(LOADED.size() == nl, "kernels-null", "a kernel was loaded");
  }
}
int main(int c, char **v) {
  return run(c, v, {{"fcn", fcn}, {"fcn_files", fcn_files}, {"relativity", relativity}, {"planets", planets}});
}
