// Every service of the library at once: from several threads (built with ThreadSanitizer; every result is compared with
// that of the same program run alone), and over and over with the resources watched (bytes alive, open files).
#include "mon.hpp"
#include "aod1b.hpp"
#include "aod1b_data_stream.hpp"
#include "atmospheric_tides.hpp"
#include "earth_rotation.hpp"
#include "eop.hpp"
#include "fcn.hpp"
#include "fundarg.hpp"
#include "iau.hpp"
#include "icgemio.hpp"
#include "ocean_tide.hpp"
#include "pole_tide.hpp"
#include "relativity.hpp"
#include "solid_earth_tide.hpp"
#include <atomic>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <thread>
using namespace mon;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef std::vector<double> Log;
static std::string dir() { return S().scratch.empty() ? std::string("/tmp/whole_scratch") : S().scratch; }
static std::string path(const std::string &f) { return dir() + "/" + f; }
static void put(const std::string &f, const std::string &t) {
  std::ofstream o(path(f), std::ios::binary);
  o << t;
}
template <class... A> static std::string fmt(const char *f, A... a) {
  char b[700];
  snprintf(b, sizeof b, f, a...);
  return b;
}
static const int EOP0 = 57700, EOPN = 120; // with a leap second
// ------------------------------------------------------------------ the files a user has
static std::string aod_head(int tide, int deg, int sets, const char *first, const char *last) {
  auto L = [](const char *k, const std::string &v) { return fmt("%-30s: %s\n", k, v.c_str()); };
  return L("PRODUCER AGENCY", "GFZ") + L("PRODUCER INSTITUTION", "GFZ") + L("FILE TYPE ipAOD1BF", "999") +
         L("FILE FORMAT 0=BINARY 1=ASCII", "1") + L("NUMBER OF HEADER RECORDS", "29") + L("SOFTWARE VERSION", "x") +
         L("SOFTWARE LINK TIME", "Not Applicable") + L("REFERENCE DOCUMENTATION", "GRACE AOD1B PDD") +
         L("SATELLITE NAME", "GRACE") + L("SENSOR NAME", "Not Applicable") +
         (tide ? L("TIME FIRST OBS (YEAR START)", first) + L("TIME LAST OBS (YEAR END)", last)
               : L("TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00") + L("TIME FIRST OBS(SEC PAST EPOCH)", first) + L("TIME LAST OBS(SEC PAST EPOCH)", last)) +
         L("NUMBER OF DATA RECORDS", std::to_string(sets * (deg + 1) * (deg + 2) / 2)) + L("PRODUCT START CREATE TIME(UTC)", "2018-01-01 00:00:00.000") +
         L("PRODUCT END CREATE TIME(UTC)", "2018-01-01 00:00:00.000") + L("FILESIZE (BYTES)", "1234") +
         L("FILENAME", "AOD1B_2008-01-01_X_06.asc") + L("PROCESS LEVEL (1A OR 1B)", "1B") + L(tide ? "PRESSURE TYPE (ATM OR OCN)" : "PRESSURE TYPE (SP OR VI)", tide ? "ATM" : "SP") +
         L("MAXIMUM DEGREE", std::to_string(deg)) + L("COEFFICIENTS ERRORS (YES/NO)", "NO") + L("COEFF. NORMALIZED (YES/NO)", "YES") +
         L("CONSTANT GM [M^3/S^2]", "0.3986004415e+15") + L("CONSTANT A [M]", "0.63781363e+07") + L("CONSTANT FLAT [-]", "298.257") +
         L("CONSTANT OMEGA [RAD/S]", "0.7292115e-04") + (tide ? L("PARTIAL TIDE", "M2") : "") + L("NUMBER OF DATA SETS", std::to_string(sets)) + L("DATA FORMAT (N,M,C,S)", "(2(I3,x),E15.9,x,E15.9)") +
         "END OF HEADER\n";
}
static std::string aod_block(Rng &r, int k, int deg, const std::string &of) {
  std::string t = fmt("DATA SET %02d: %7d COEFFICIENTS %s\n", k, (deg + 1) * (deg + 2) / 2, of.c_str());
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++) t += fmt("%3d %3d %15.9e %15.9e\n", n, m, r.sym() * 1e-9, m ? r.sym() * 1e-9 : 0.);
  return t;
}
static std::string gfc(Rng &r, int deg) {
  std::string t = "product_type gravity_field\nmodelname m\nearth_gravity_constant 3.986004415e+14\nradius 6378136.3\nmax_degree " + std::to_string(deg) +
                  "\nnorm fully_normalized\ntide_system tide_free\nerrors no\nend_of_head ===\n";
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++) t += fmt("gfc %d %d %.12e %.12e\n", n, m, r.sym() * 1e-9, m ? r.sym() * 1e-9 : 0.);
  return t;
}
static const char *const GW[] = {"255.555_m2", "165.555_k1", "065.455_mm"};
static void make_files() {
  Rng r(7);
  mkdir(dir().c_str(), 0777);
  for (int c20 = 0; c20 < 2; c20++) {
    std::string t = c20 ? "# EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY) - INTERNATIONAL EARTH ROTATION\n"
                          "# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled at 0h UTC\n# Contact: x\n"
                        : "                EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)\n"
                          "                INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE\n                EOP (IERS) 14 C04 TIME SERIES\n\n";
    for (int i = 0; i < EOPN; i++) {
      int y, m, d;
      dso::shim::ymd_of(EOP0 + i, y, m, d);
      const double dut = -.4 - 1e-3 * i + (EOP0 + i < 57754 ? 0 : 1);
      if (c20)
        t += fmt("%4d%4d%4d%4d%10.2f", y, m, d, 0, EOP0 + i + 0.) +
             fmt("%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f\n", r.sym(), r.sym(), dut, r.sym() * 1e-2, r.sym() * 1e-2,
                 r.sym() * 1e-2, r.sym() * 1e-2, r.sym() * 1e-3, .03, .03, .002, .0047, .002, 0., 0., .0014);
      else
        t += fmt("%4d%4d%4d%7d", y, m, d, EOP0 + i) +
             fmt("%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f\n", r.sym(), r.sym(), dut, r.sym() * 1e-3, r.sym() * 1e-2, r.sym() * 1e-2, .03, .03, .002,
                 .0014, .0047, .002);
    }
    put(c20 ? "eop20" : "eop14", t);
  }
  put("gfc", gfc(r, 12));
  std::string list;
  for (auto w : GW) {
    put("A_" + std::string(w) + "_cos.gfc", gfc(r, 6)), put("A_" + std::string(w) + "_sin.gfc", gfc(r, 6));
    list += "A_" + std::string(w) + "_cos.gfc A_" + w + "_sin.gfc\n";
  }
  put("list", list), put("list_bad", list + "A_272.556_t2_cos.gfc A_272.556_t2_sin.gfc\n"); // a file that is not there
  put("dood", " 2 0 0 0 0 0\n 1 1 0 0 0 0\n 0 1 0 -1 0 0\n 2 2 -2 0 0 0\n 1 -1 0 0 0 0\n");
  put("adm", " 1.0 0.0 0.0 0.25 0.0\n 0.0 1.0 0.0 0.0 0.5\n 0.0 0.0 1.0 0.0 0.0\n"), put("adm_bad", " 1.0 0.0 0.0 0.25 0.0\n 0.0 1.0 0.0 0.0\n");
  std::string a = aod_head(0, 6, 16, "252417600.000000 (2008-01-01 00:00:00.00)", "252493200.000000 (2008-01-01 21:00:00.00)"), cut;
  int k = 0;
  for (int h = 0; h < 24; h += 6)
    for (auto ty : {"atm", "ocn", "glo", "oba"}) {
      if (k == 7) cut = a;
      ++k, a += aod_block(r, k, 6, fmt("FOR 2008-01-01 %02d:00:00 OF TYPE %s", h, ty));
    }
  put("AOD1B_2008-01-01_X_06.asc", a), put("aod_cut", cut.substr(0, cut.size() - 100)), put("aod_head", a.substr(0, 700));
  put("aod_tide", aod_head(1, 5, 2, "2007", "2014") + aod_block(r, 1, 5, "OF TYPE cos") + aod_block(r, 2, 5, "OF TYPE sin"));
  std::string o = "n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)\n";
  for (int n = 1; n <= 10; n++)
    for (int m = 0; m <= n; m++) o += fmt("%d %d %.8e %.8e %.8e %.8e\n", n, m, r.sym(), r.sym(), r.sym(), r.sym());
  put("opole", o), put("opole_cut", o.substr(0, o.size() / 2));
  std::string g = "a\nb\nc\nNumber_longitude_Grid_Points = 12\nFirst_longitude_degrees = 15\nLast_longitude_degrees = 345\nLongitude_step_degrees = 30\nNumber_latitude_grid_points = 6\n"
                  "First_latitude_degrees = -75\nLast_latitude_degrees = 75\nLatitude_step_degrees = 30\n"
                  "Longitude   Latitude   u_r^R       u_r^I       u_n^R       u_n^I       u_e^R       u_e^I\n(degrees)  (degrees)  (        )  (        )  (        )  (        )  (        )  (        )\n\n";
  for (int j = 0; j < 6; j++)
    for (int i = 0; i < 12; i++) {
      g += fmt("%8.2f %8.2f", 15. + 30 * i, -75. + 30 * j);
      for (int q = 0; q < 6; q++) g += fmt(" %10.6f", r.sym());
      g += "\n";
    }
  put("grid", g), put("grid_cut", g.substr(0, g.size() / 2));
  std::string f = "%           mjd     real     imag    sigma  (all in microas)\n";
  for (int y = 1984; y < 2014; y++) f += fmt("%6.1f %8.1f %9.2f %9.2f %9.2f\n", (double)y, 45700 + std::floor((y - 1984) * 365.25), r.sym() * 200, r.sym() * 200, r.real(1, 9));
  put("fcn", f);
  put("empty", "");
}
static dso::MjdEpoch epoch(Rng &g, double a = 50000, double b = 60000) {
  const double t = g.real(a, b);
  return dso::MjdEpoch((int)t, dso::FractionalSeconds(86400 * (t - (int)t)));
}
static void angles(Rng &g, double *f) {
  for (int i = 0; i < 5; i++) f[i] = g.real(0, 6.28);
}
static V3 vec(Rng &g, double d) {
  V3 v(g.sym(), g.sym(), g.sym());
  return v * (d / v.norm());
}
struct Shared { // const while it is shared
  dso::EopSeries eop;
  std::vector<dso::fcn::LambertCoefficients> fcn;
  std::unique_ptr<dso::OceanTide> ocean, adm;
  dso::AtmosphericTide atm;
  std::unique_ptr<dso::OceanPoleTide> opt;
  std::unique_ptr<dso::Aod1bIn> aod;
  dso::SolidEarthTide set{3.986004415e14, 6378136.3, 1.32712440041e20, 4.9028e12};
  Shared() {
    dso::parse_iers_C04(path("eop14").c_str(), dso::MjdEpoch(EOP0 - 9, dso::FractionalSeconds(0.)), dso::MjdEpoch(EOP0 + EOPN + 9, dso::FractionalSeconds(0.)), eop);
    if (eop.num_entries() != EOPN) { fprintf(stdout, "no EOP\n"); exit(97); }
    ocean = std::make_unique<dso::OceanTide>(dso::groops_ocean_atlas(path("list").c_str(), dir().c_str(), 6, 6));
    adm = std::make_unique<dso::OceanTide>(dso::groops_ocean_atlas(path("list").c_str(), path("dood").c_str(), path("adm").c_str(), dir().c_str(), 6, 6));
    if (atm.append_wave(path("aod_tide").c_str(), 5, 5)) { fprintf(stdout, "no tide\n"); exit(97); }
    opt = std::make_unique<dso::OceanPoleTide>(10, 10, path("opole").c_str());
    aod = std::make_unique<dso::Aod1bIn>(path("AOD1B_2008-01-01_X_06.asc").c_str());
    if (dso::parse_lambert_coefficients(path("fcn").c_str(), fcn) || fcn.size() != 30) { fprintf(stdout, "no FCN\n"); exit(97); }
  }
};
static void log(Log &l, double x) { l.push_back(x); }
static void log(Log &l, const dso::StokesCoeffs &c) {
  for (int m = 0; m <= c.max_order(); m++)
    for (int n = m; n <= c.max_degree(); n++) l.push_back(c.C(n, m)), l.push_back(c.S(n, m));
}
template <class D> static void log(Log &l, const Eigen::MatrixBase<D> &v) {
  for (int i = 0; i < v.size(); i++) l.push_back(v(i));
}
struct Mute { // the library reports on its standard output
  FILE *was = stdout, *nul = fopen("/dev/null", "w");
  Mute() { stdout = nul; }
  ~Mute() { stdout = was, fclose(nul); }
};
static const int OPS = 15;
// one operation; touches only const shared state and objects it owns
static void op(int what, const Shared &s, Rng &g, Log &l) {
  switch (what) {
  case 0: // queries of a shared series of Earth orientation
    for (int k = (int)g.in(1, 20); k > 0; k--) {
      dso::EopRecord e;
      double d;
      const auto t = g.coin(.9) ? epoch(g, EOP0 - 2, EOP0 + EOPN + 2) : s.eop.first_epoch();
      log(l, (double)(int)s.eop.interpolate(t, e, (int)g.in(1, 9)));
      for (double x : {e.xp(), e.yp(), e.dut(), e.lod(), e.dX(), e.dY()}) log(l, x);
      log(l, (double)(int)s.eop.approx_dut1(t, d)), log(l, d);
    }
    break;
  case 1: { // a series of one's own
    dso::EopSeries e(s.eop);
    g.coin() ? e.regularize() : e.deregularize();
    const auto &v = e.give_me_the_vector();
    for (int k = 0; k < 5; k++) { const auto &x = v[g.in(0L, (long)v.size() - 1)]; log(l, x.dut()), log(l, x.lod()); }
    break;
  }
  case 2: {
    double f[5], a, b, c, d, w;
    angles(g, f);
    const double gm = g.real(0, 6.28);
    dso::deop_zonal_tide(f, a, b, c), log(l, a), log(l, b), log(l, c);
    dso::deop_ocean_tide(f, gm, a, b, c, d), log(l, a), log(l, b), log(l, c), log(l, d);
    dso::deop_libration(f, gm, a, b, c, w), log(l, a), log(l, b), log(l, c), log(l, w);
    break;
  }
  case 3: { // angles and the celestial pole
    const auto t = epoch(g), u = epoch(g);
    double f[14] = {0}, x, y;
    dso::fundarg(t, f);
    for (int i = 0; i < 5; i++) log(l, f[i]);
    dso::fundarg_derivs(t, f);
    for (int i = 0; i < 5; i++) log(l, f[i]);
    for (double v : {dso::era00(u), dso::gmst(t, u), dso::dgmst(t), dso::gmst82(u), dso::sp00(t)}) log(l, v);
    dso::xycip06a(t, x, y), log(l, x), log(l, y), log(l, dso::s06(t, x, y));
    break;
  }
  case 4: { // rotations
    dso::EopRecord e;
    e.t() = epoch(g, 55000, 58000);
    e.dat() = 37, e.xp() = g.sym(), e.yp() = g.sym(), e.dut() = g.sym(), e.lod() = g.sym() * 1e-3, e.dX() = e.dY() = e.xp_rate() = e.yp_rate() = 0;
    const auto t = e.t();
    Eigen::Quaterniond qt, qi;
    log(l, dso::c2i06a(t, e).coeffs()), log(l, dso::c2i06a_bz(t, e).coeffs());
    log(l, dso::c2i06a(t, e, qt, qi)), log(l, qt.coeffs()), log(l, qi.coeffs());
    break;
  }
  case 5: { // free core nutation
    const auto t = epoch(g, 44000, 59000);
    const auto a = dso::lambert_fcn(t, s.fcn), b = dso::lambert_fcn(t);
    for (double x : {a.xcip, a.ycip, a.sxcip, b.xcip, b.ycip, b.sycip}) log(l, x);
    std::vector<dso::fcn::LambertCoefficients> v;
    log(l, dso::parse_lambert_coefficients(path("fcn").c_str(), v)), log(l, (double)v.size());
    break;
  }
  case 6: { // ocean tide models of one's own, copied from shared ones
    double f[5];
    angles(g, f);
    dso::OceanTide o(g.coin() ? *s.ocean : *s.adm);
    const auto t = epoch(g), u = epoch(g);
    log(l, o.stokes_coeffs(t, u, f)), log(l, o.stokes_coeffs());
    dso::AtmosphericTide a(s.atm);
    log(l, a.stokes_coeffs(t, u, f)), log(l, a.stokes_coeffs());
    log(l, (double)s.adm->num_waves()), log(l, s.adm->admittance_matrix()(0, 3));
    log(l, s.ocean->atlas().find_tidal_wave(dso::DoodsonConstituent(2, 0, 0, 0, 0, 0)) == s.ocean->atlas().waves().begin());
    break;
  }
  case 7: { // solid Earth tide
    double f[5];
    angles(g, f);
    dso::SolidEarthTide o(s.set);
    const V3 m = vec(g, 3.8e8), su = vec(g, 1.5e11), p = vec(g, 6.37e6);
    const auto t = epoch(g), u = epoch(g);
    log(l, o.stokes_coeffs(t, u, m, su, f)), log(l, o.stokes_coeffs()), log(l, o.displacement(t, u, p, m, su, f));
    break;
  }
  case 8: { // pole tides
    double c, d;
    const auto t = epoch(g);
    const double xp = g.sym(), yp = g.sym();
    log(l, dso::PoleTide::stokes_coeffs(t, xp, yp, c, d)), log(l, c), log(l, d);
    dso::OceanPoleTide o(*s.opt);
    log(l, o.stokes_coeffs(t, xp, yp, 8, 8)), log(l, o.stokes_coeffs());
    dso::SphericalCrd q;
    q.lon() = g.real(.3, 6), q.lat() = g.real(-1.2, 1.2), q.r() = 6.37e6;
    std::vector<dso::OceanPoleTideDesaiCoeffs> v;
    log(l, dso::get_desai_ocp_deformation_coeffs(path("grid").c_str(), {q, q}, v));
    for (auto &x : v) log(l, x.rR), log(l, x.nI), log(l, x.eI), log(l, dso::OceanPoleTide::deformation(t, xp, yp, q, x).mv);
    log(l, dso::PoleTide::deformation(t, xp, yp, q).mv);
    dso::OceanPoleTide z(10, 10, path("opole").c_str());
    log(l, z.stokes_coeffs(t, xp, yp, 10, 10)), log(l, z.stokes_coeffs());
    break;
  }
  case 9: { // gravity field models
    dso::Icgem i(path("gfc").c_str());
    dso::StokesCoeffs c(12, 12);
    const int n = (int)g.in(0, 12), m = (int)g.in(0, n);
    log(l, i.parse_data(n, m, dso::Icgem::Datetime::min(), c)), log(l, c);
    break;
  }
  case 10: { // AOD1B blocks, of a header shared
    dso::Aod1bDataBlockIterator<dso::AOD1BCoefficientType::OCN> it(*s.aod);
    dso::StokesCoeffs c(6, 6);
    it.set_begin();
    for (int j = 0; !j;) {
      if (g.coin()) log(l, it.collect(c)), log(l, c);
      else it.skip();
      j = it.advance();
      log(l, j);
    }
    break;
  }
  case 11: { // streams
    dso::Aod1bDataStream<dso::AOD1BCoefficientType::GLO> st(path("AOD1B_2008-01-01_X_06.asc").c_str(), dir().c_str());
    dso::StokesCoeffs c(6, 6);
    log(l, st.initialize());
    auto t = s.aod->first_epoch();
    for (int k = 0; k < 4; k++) t = t.add_seconds(dso::nanoseconds(g.in(1, 15000) * 1000000000L)), log(l, st.coefficients_at(t, c)), log(l, c);
    break;
  }
  case 12: { // waves and their names
    char b[16] = {0};
    const dso::DoodsonConstituent d((int)g.in(0, 3), (int)g.in(-4, 4), (int)g.in(-4, 4), (int)g.in(-4, 4), (int)g.in(-4, 4), (int)g.in(-4, 4));
    d.str(b);
    for (char *c = b; *c; ++c) log(l, *c);
    const auto e = dso::DoodsonConstituent::from_chars(b);
    for (int i = 0; i < 6; i++) log(l, e(i));
    const char *N[] = {"m2", "K1", "s2", "mf", "nosuch"};
    const char *n = N[g.in(0, 4)];
    const auto *w = dso::find_wave_entry(n);
    log(l, w ? w->_per : -1.);
    if (w) log(l, dso::get_wave(n).doodson()(1));
    double f[5], q[6];
    angles(g, f);
    log(l, d.argument(dso::delaunay2doodson(f, 1., q)));
    break;
  }
  case 13: { // files of Earth orientation
    dso::EopSeries e;
    const auto a = epoch(g, EOP0, EOP0 + 60), b = epoch(g, EOP0 + 61, EOP0 + EOPN);
    log(l, dso::parse_iers_C04(path(g.coin() ? "eop14" : "eop20").c_str(), a, b, e));
    log(l, (double)e.num_entries());
    for (auto &x : e.give_me_the_vector()) log(l, x.dut());
    break;
  }
  case 14: { // relativity; names of products
    Eigen::Matrix<double, 6, 1> sat, sun;
    sat << vec(g, 7.2e6), vec(g, 7.5e3);
    sun << vec(g, 1.5e11), vec(g, 3e4);
    log(l, dso::iers2010_relativistic_acceleration(sat, sun));
    const auto n = dso::Aod1bNonTidalProductNaming::filename(dso::ymd_date(dso::year(2001 + (int)g.in(0, 20)), dso::month((int)g.in(1, 12)), dso::day_of_month((int)g.in(1, 28))), 6);
    for (char c : n) log(l, c);
    break;
  }
  }
}
// ------------------------------------------------------------------ threads
static void jitter(Rng &g) {
  const long k = g.in(0, 9);
  if (k == 0) std::this_thread::yield();
  if (k == 1) std::this_thread::sleep_for(std::chrono::microseconds(g.in(1, 60)));
}
static void compare(const Log &par, const Log &seq, const char *key, int th) {
  if (!check(par.size() == seq.size(), key, "thread %d recorded %zu values, alone %zu", th, par.size(), seq.size())) return;
  for (size_t i = 0; i < par.size(); i++)
    if (!check(bits(par[i]) == bits(seq[i]) || std::abs(par[i] - seq[i]) <= 1e-12 * std::abs(seq[i]), key, "thread %d value %zu is %.17g, alone %.17g", th, i, par[i], seq[i])) return;
}
static void round_(uint64_t seed, const Shared &s, int T, int ops, int first, const char *key) {
  std::vector<Log> logs(T);
  std::vector<std::vector<int>> order(T);
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  std::atomic<long> tick{0};
  const int focus = seed % 2 ? (int)((seed >> 8) % OPS) : -1; // some rounds are about one service
  auto prog = [&](int t, Log &l, bool par) {
    Rng r(hash(seed, t, 5)), jr(hash(seed, t, 6));
    for (int k = 0; k < ops; k++) {
      int w = (int)r.in(0, OPS - 1);
      if (focus >= 0 && r.coin(.7)) w = focus;
      if (k == 0 && first >= 0) w = first;
      if (par) {
        if (k) jitter(jr);
        order[t].push_back((int)tick.fetch_add(1, std::memory_order_relaxed));
      }
      op(w, s, r, l);
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
      prog(t, logs[t], true);
    });
  while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto &x : th) x.join();
  std::vector<int> who((size_t)T * ops);
  for (int t = 0; t < T; t++)
    for (int k : order[t]) who[k] = t;
  uint64_t h = 7;
  int sw = 0;
  for (size_t i = 0; i < who.size(); i++) h = mix(h, who[i]), sw += i && who[i] != who[i - 1];
  eval(h, sw >= T);
  count("operations", (long)T * ops);
  count("context_switches_between_operations", sw);
  if (S().evals < 3) {
    std::string o;
    for (size_t i = 0; i < who.size() && i < 60; i++) o += (char)('A' + who[i]);
    sample("%d threads x %d operations, observed order %s", T, ops, o.c_str());
  }
  for (int t = 0; t < T; t++) {
    Log l;
    prog(t, l, false);
    compare(logs[t], l, key, t);
  }
}
static void shared() {
  Rng g(S().seed + 1);
  Quiet q;
  Mute mute;
  make_files();
  const Shared s;
  for (long t = 0, n = N(30, 500); t < n; t++) {
    const int T = (int)g.in(2, 8);
    ctx("round %ld, %d threads", t, T);
    round_(g.next(), s, T, (int)g.in(6, 20), -1, "shared");
  }
}
static void first_use() { // the very first calls in a process are made by several threads at once
  Rng g(S().seed + 2);
  Quiet q;
  Mute mute;
  make_files();
  const Shared s;
  for (long t = 0, n = N(2 * OPS, 20 * OPS); t < n; t++) {
    const uint64_t seed = g.next();
    const int T = (int)g.in(2, 8), first = t % OPS;
    ctx("first use by %d threads of operation %d (case %ld)", T, first, t);
    fflush(stdout);
    int fd[2];
    if (pipe(fd)) exit(97);
    const pid_t p = fork();
    if (p < 0) exit(97);
    if (p == 0) {
      close(fd[0]);
      auto &Z = S();
      Z.viols.clear(), Z.evals = Z.checks = 0, Z.distinct.clear();
      round_(seed, s, T, 3, first, "first_use");
      std::string o = std::to_string(Z.checks) + " " + std::to_string(Z.distinct.empty() ? 0 : *Z.distinct.begin());
      for (auto &v : Z.viols) o += " " + v.second.detail;
      (void)!write(fd[1], o.data(), o.size());
      _exit(Z.viols.empty() ? 0 : 3);
    }
    close(fd[1]);
    std::string o;
    char b[4096];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "first_use", "status %d: %s", st, o.c_str());
    unsigned long c = 0, h = 0;
    if (sscanf(o.c_str(), "%lu %lu", &c, &h) == 2) S().checks += c, eval(h ? h : 1, h != 0);
    if (t < 3) sample("fresh process, %d threads, first operation %d", T, first);
  }
}
// ------------------------------------------------------------------ resources
static int open_files() { // asked one by one: a directory listing may lag behind
  int n = 0;
  for (int fd = 0; fd < 4096; fd++) n += fcntl(fd, F_GETFD) != -1;
  return n;
}
static const int EDGE = 14;
// what fails, and what is changed, moved or thrown away half-way
static void edge(int what, const Shared &s, Rng &g) {
  const char *BAD[] = {"nosuch", "empty", "opole_cut", "grid_cut", "aod_cut", "aod_head", "gfc", "list", "adm_bad"};
  const std::string bad = path(BAD[g.in(0, 8)]);
  double f[5];
  angles(g, f);
  const auto t = epoch(g), u = epoch(g);
  try {
    switch (what) {
    case 0: { dso::OceanTide o(*s.ocean), p(*s.adm); g.coin() ? o = p : p = o; o = o; if (g.coin()) p = std::move(o); (void)p.stokes_coeffs(t, u, f); break; }
    case 1: { dso::OceanTide o(*s.ocean); for (long k = g.in(1, 3); k > 0; k--) o.set_groops_admittance(dso::GroopsTideModel(s.adm->doodson_matrix(), s.adm->admittance_matrix())); (void)o.stokes_coeffs(t, u, f); dso::OceanTide p(std::move(o)); (void)p.stokes_coeffs(t, u, f); break; }
    case 2: { auto o = dso::groops_ocean_atlas(path(g.coin() ? "list" : "list_bad").c_str(), path("dood").c_str(), path(g.coin() ? "adm" : "adm_bad").c_str(), dir().c_str(), 6, 6); (void)o.stokes_coeffs(t, u, f); break; }
    case 3: { auto o = dso::groops_ocean_atlas(g.coin() ? path("list").c_str() : bad.c_str(), g.coin() ? dir().c_str() : "/nosuch", (int)g.in(0, 9), -1); (void)o.stokes_coeffs(t, u, f); break; }
    case 4: { dso::AtmosphericTide a(s.atm); (void)a.append_wave(g.coin() ? bad.c_str() : path("aod_tide").c_str(), (int)g.in(-1, 7), -1); (void)a.stokes_coeffs(t, u, f); dso::AtmosphericTide b; b = a; b = std::move(a); break; }
    case 5: { dso::OceanPoleTide o(10, 10, g.coin() ? path("opole").c_str() : bad.c_str()), p(*s.opt); p = o; p = std::move(o); (void)p.stokes_coeffs(t, .1, .2, (int)g.in(0, 12), (int)g.in(0, 12)); break; }
    case 6: { std::vector<dso::OceanPoleTideDesaiCoeffs> v; dso::SphericalCrd q; q.lon() = g.real(-3, 7), q.lat() = g.real(-1.5, 1.5), q.r() = 6e6; (void)dso::get_desai_ocp_deformation_coeffs(g.coin() ? path("grid_cut").c_str() : bad.c_str(), {q, q, q}, v); break; }
    case 7: { dso::Icgem i(g.coin() ? path("gfc").c_str() : bad.c_str()); dso::StokesCoeffs c((int)g.in(0, 12)); (void)i.parse_data((int)g.in(-1, 14), (int)g.in(-1, 14), dso::Icgem::Datetime::min(), c); break; }
    case 8: { dso::Aod1bIn a(g.coin() ? path("aod_cut").c_str() : bad.c_str()); dso::Aod1bDataBlockIterator<dso::AOD1BCoefficientType::ATM> it(a); dso::StokesCoeffs c(6, 6); it.set_begin(); for (int j = 0; !j && !it.collect(c);) j = it.advance(); break; }
    case 9: { dso::Aod1bDataStream<dso::AOD1BCoefficientType::ATM> st(g.coin() ? path("AOD1B_2008-01-01_X_06.asc").c_str() : bad.c_str(), dir().c_str()); dso::StokesCoeffs c(6, 6); if (!st.initialize()) { auto e = s.aod->first_epoch(); for (int k = 0; k < 5; k++) (void)st.coefficients_at(e = e.add_seconds(dso::nanoseconds(g.in(1, 40000) * 1000000000L)), c); auto b = std::move(st); (void)b.coefficients_at(s.aod->first_epoch(), c); } break; }
    case 10: { dso::EopSeries e, h(s.eop); (void)dso::parse_iers_C04(g.coin() ? path("eop20").c_str() : bad.c_str(), dso::MjdEpoch(EOP0 - 9, dso::FractionalSeconds(0.)), dso::MjdEpoch(EOP0 + EOPN + 9, dso::FractionalSeconds(0.)), e); e = h; h = std::move(e); h.clear(); break; }
    case 11: { std::vector<dso::fcn::LambertCoefficients> v; (void)dso::parse_lambert_coefficients(bad.c_str(), v); break; }
    case 12: { dso::TideAtlas a(s.ocean->atlas()), b; a.append_wave(s.ocean->atlas().waves()[0]); b = a; break; } // refused
    case 13: { dso::TideAtlas a(s.ocean->atlas()); a.append_wave(dso::TidalWave(dso::DoodsonConstituent(3, 0, 0, 0, 0, 0)), 4, 4); dso::TideAtlas b(std::move(a)); a = b; break; }
    }
  } catch (std::exception &) { count("refused with an exception"); }
}
static void resources() {
  Rng g(S().seed + 3);
  Quiet q;
  Mute mute;
  make_files();
  const Shared s;
  const int kinds = OPS + EDGE;
  auto run = [&](int k, uint64_t seed) {
    Rng r(seed);
    if (k < OPS) {
      Log l;
      op(k, s, r, l);
    } else edge(k - OPS, s, r);
  };
  for (int k = 0; k < kinds; k++) // what is built on first use stays
    for (int i = 0; i < 30; i++) run(k, g.next());
  for (long t = 0, n = N(4, 40); t < n; t++)
    for (int k = 0; k < kinds; k++) {
      ctx("%s %d", k < OPS ? "operation" : "edge", k < OPS ? k : k - OPS);
      long grown = 0;
      int opened = 0, reps = 25;
      // what is kept grows with every repetition: anything built once (on a path not taken before) does not
      for (int again = 0; again < 3; again++, reps = 100) {
        const long b0 = live_bytes();
        const int f0 = open_files();
        for (int i = 0; i < reps; i++) run(k, g.next());
        opened = open_files() - f0, grown = live_bytes() - b0;
        if (opened <= 0 && grown <= 0) break;
      }
      check(opened <= 0, "files", "%d more files open after %d times", opened, reps);
      check(grown <= 0, "memory", "%ld more bytes alive after %d times", grown, reps);
      eval(hash(t, k));
      if (t == 0 && k % 6 == 0) sample("%s, %d times: %ld bytes, %d files more than before", S().ctx, reps, grown, opened);
    }
}
int main(int argc, char **argv) { return run(argc, argv, {{"shared", shared}, {"first_use", first_use}, {"resources", resources}}); }
