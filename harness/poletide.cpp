// Pole tide and ocean pole tide: geopotential and displacement (IERS 2010, 6.4, 6.5, 7.1.4, 7.1.5), model files.
#include "mon.hpp"
#include "pole_tide.hpp"
#include "poletide_tables.hpp"
#include <array>
#include <fstream>
#include <memory>
using namespace mon;
typedef long double LD;
using dso::MjdEpoch;
static const LD PI = 3.14159265358979323846264338327950288L;
static const LD AS = PI / 648000;

static MjdEpoch epoch(Rng &r) { return revisit<dso::FractionalSeconds>(r, MjdEpoch((int)r.in(40000, 70000), dso::FractionalSeconds(r.real(0, 86400)))); }
// the secular pole of the 2018 update of the conventions [arcsec]
static void m12(const MjdEpoch &t, double xp, double yp, LD &m1, LD &m2) {
  const LD y = ((LD)(t.imjd() - 51544) + ((LD)t.sec_of_day<dso::seconds>() - 43200) / 86400) / 365.25L;
  m1 = xp - (.055L + .001677L * y), m2 = -(yp - (.3205L + .00346L * y));
}
static void pole(Rng &r, double &xp, double &yp) {
  if (r.coin(.1)) xp = yp = 0;
  else if (r.coin(.1)) xp = r.real(-100, 100), yp = r.real(-100, 100);
  else xp = r.real(-.7, .7), yp = r.real(-.5, 1.);
}
static dso::SphericalCrd site(Rng &r) {
  double lat = r.real(-PI / 2, PI / 2), lon = r.real(-PI, PI);
  if (r.coin(.1)) lat = r.coin() ? (double)PI / 2 : (double)-PI / 2;
  if (r.coin(.1)) lat = 0;
  if (r.coin(.1)) lon = r.coin() ? 0 : (r.coin() ? (double)PI : (double)-PI);
  if (r.coin(.2)) lon = r.real(0, 2 * PI);
  return dso::SphericalCrd(r.real(6.3e6, 6.4e6), lat, lon);
}
static void solid() {
  Rng r(S().seed);
  for (long k = 0, n = N(60000, 2000000); k < n; k++) {
    const auto t = epoch(r);
    double xp, yp;
    pole(r, xp, yp);
    double at[3] = {0, 0, 0};
    {
      const auto z = site(r);
      at[0] = z.r(), at[1] = z.lat(), at[2] = z.lon();
    }
    static Stay<double> stay[10];
    const double often = k % 3 ? .1 : .7; // arguments change one at a time
    for (int i = 1; i < 3; i++) stay[i](r, at[i], often);
    stay[3](r, xp, often), stay[4](r, yp, often);
    const dso::SphericalCrd s(at[0], at[1], at[2]);
    ctx("mjd %d xp %.17g yp %.17g lat %.17g lon %.17g", t.imjd(), xp, yp, s.lat(), s.lon());
    LD m1, m2;
    m12(t, xp, yp, m1, m2);
    const double mag = (double)(fabsl(m1) + fabsl(m2) + 1e-3L);
    double c = NAN, d = NAN;
    check(dso::PoleTide::stokes_coeffs(t, xp, yp, c, d) == 0, "status", "solid earth");
    near(c, (double)(-1.333e-9L * (m1 + .0115L * m2)), 1e-9 * 1.4e-9 * mag, "solid-C21", "C21");
    near(d, (double)(-1.333e-9L * (m2 - .0115L * m1)), 1e-9 * 1.4e-9 * mag, "solid-S21", "S21");
    c = d = NAN;
    check(dso::OceanPoleTide::stokes_coeffs(t, xp, yp, c, d) == 0, "status", "ocean");
    near(c, (double)(-2.1778e-10L * (m1 - .01724L * m2)), 1e-9 * 2.2e-10 * mag, "ocean-C21", "C21");
    near(d, (double)(-1.7232e-10L * (m2 - .03365L * m1)), 1e-9 * 2.2e-10 * mag, "ocean-S21", "S21");
    // displacement, IERS 2010 eq. 26, along the unit vectors of the site [mm]
    const LD th = PI / 2 - (LD)s.lat(), l = s.lon();
    const LD a = m1 * cosl(l) + m2 * sinl(l), b = m1 * sinl(l) - m2 * cosl(l);
    const LD sr = -33 * sinl(2 * th) * a, st = -9 * cosl(2 * th) * a, sl = 9 * cosl(th) * b;
    const LD x = sr * sinl(th) * cosl(l) + st * cosl(th) * cosl(l) - sl * sinl(l);
    const LD y = sr * sinl(th) * sinl(l) + st * cosl(th) * sinl(l) + sl * cosl(l);
    const LD z = sr * cosl(th) - st * sinl(th);
    const auto q = dso::PoleTide::deformation(t, xp, yp, s);
    const double tol = 1e-10 * 40e-3 * mag;
    near(q.x(), (double)(x / 1000), tol, "solid-displacement", "X");
    near(q.y(), (double)(y / 1000), tol, "solid-displacement", "Y");
    near(q.z(), (double)(z / 1000), tol, "solid-displacement", "Z");
    // ocean pole tide loading, eq. 29
    dso::OceanPoleTideDesaiCoeffs f{r.sym(), r.sym(), r.sym(), r.sym(), r.sym(), r.sym()};
    const bool dflt = r.coin();
    double Re = dflt ? iers2010::Re : r.real(6.3e6, 6.4e6), GM = dflt ? iers2010::GMe : r.real(3.9e14, 4e14),
                 om = dflt ? iers2010::OmegaEarth : r.real(7e-5, 7.5e-5), G = dflt ? iers2010::G : r.real(6e-11, 7e-11),
                 ge = dflt ? iers2010::ge : r.real(9.7, 9.9);
    if (!dflt) stay[5](r, Re, often), stay[6](r, GM, often), stay[7](r, om, often), stay[8](r, G, often), stay[9](r, ge, often);
    const auto o = dflt ? dso::OceanPoleTide::deformation(t, xp, yp, s, f) : dso::OceanPoleTide::deformation(t, xp, yp, s, f, Re, GM, om, G, ge);
    LD e = Re, g = GM, w = om, bigG = G, eq = ge;
    if (dflt) e = 6378136.6L, g = 3.986004418e14L, w = 7.292115e-5L, bigG = 6.67428e-11L, eq = 9.7803278L;
    const LD Hp = sqrtl(8 * PI / 15) * w * w * e * e * e * e / g, K = 4 * PI * bigG * e * 1025 * Hp / (3 * eq);
    const LD fr = AS * (m1 * .6870L + m2 * .0036L), fi = AS * (m2 * .6870L - m1 * .0036L);
    const LD ur = K * (fr * f.rR + fi * f.rI), un = K * (fr * f.nR + fi * f.nI), ue = K * (fr * f.eR + fi * f.eI);
    const LD sf = sinl(s.lat()), cf = cosl(s.lat()), so = sinl(l), co = cosl(l);
    const LD ox = ur * cf * co - un * sf * co - ue * so, oy = ur * cf * so - un * sf * so + ue * co, oz = ur * sf + un * cf;
    const double rel = dflt ? 1e-6 : 1e-10, ot = rel * (double)(K * AS) * mag * 3 + 1e-20; // the conventions round Omega
    near(o.x(), (double)ox, ot, "ocean-displacement", "X");
    near(o.y(), (double)oy, ot, "ocean-displacement", "Y");
    near(o.z(), (double)oz, ot, "ocean-displacement", "Z");
    eval(hash(t.imjd(), bits(xp), bits(s.lat())));
    if (k < 3) sample("%s -> solid %.4g %.4g %.4g m", S().ctx, q.x(), q.y(), q.z());
  }
}

// ---------------------------------------------------------------- the Desai model of the geopotential
struct Coef {
  int n, m;
  double v[4]; // AR BR AI BI, in the order of the columns
};
static std::string model_text(Rng &r, const std::vector<Coef> &c) {
  std::string s = r.coin() ? "  n   m       Anm(Real)            Bnm(Real)            Anm(Imaginary)       Bnm(Imaginary)   \n"
                           : " n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)\n";
  char b[256];
  for (auto &k : c) {
    snprintf(b, sizeof b, "%3d %3d  %21.13e%21.13e%21.13e%21.13e\n", k.n, k.m, k.v[0], k.v[1], k.v[2], k.v[3]);
    s += b;
  }
  return s;
}
static double r13(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.13e", x);
  return strtod(b, nullptr);
}
static std::string put(const char *name, const std::string &t) {
  const std::string p = (S().scratch.empty() ? std::string("/tmp") : S().scratch) + "/" + name;
  std::ofstream o(p, std::ios::binary);
  o << t;
  return p;
}
static std::vector<Coef> rand_model(Rng &r, int deg, bool shuffle) {
  std::vector<Coef> c;
  for (int n = 1; n <= deg; n++)
    for (int m = 0; m <= n; m++) {
      Coef k{n, m, {}};
      for (auto &v : k.v) v = r13(r.wide(-6, 0));
      if (r.coin(.02)) continue; // not listed: zero
      c.push_back(k);
    }
  if (shuffle)
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[r.in(0, i - 1)]);
  return c;
}
typedef dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise> Tri;
static void model() {
  Rng r(S().seed);
  Quiet q;
  for (long k = 0, n = N(160, 4000); k < n; k++) {
    const int deg = k % 40 == 0 ? 360 : (int)r.in(2, 30);
    const auto c = rand_model(r, deg, r.coin());
    const auto p = put("desai", model_text(r, c));
    // matrices straight from the file
    const int pd = (int)r.in(0, deg), po = (int)r.in(0, pd);
    Tri M[4] = {Tri(1, 1), Tri(1, 1), Tri(1, 1), Tri(1, 1)};
    for (auto &m : M) { const int z = (int)r.in(1, 9); m = Tri(z, z); }
    ctx("model of degree %d, parsed to %d/%d", deg, pd, po);
    if (check(dso::pole_tide_details::parse_desai02_coeffs(p.c_str(), pd, po, M[0], M[2], M[1], M[3]) == 0, "parse", "refused")) {
      std::vector<std::array<double, 4>> ref((size_t)(pd + 1) * (pd + 1), std::array<double, 4>{});
      for (auto &x : c)
        if (x.n <= pd && x.m <= po)
          for (int j = 0; j < 4; j++) ref[x.n * (pd + 1) + x.m][j] = x.v[j];
      for (int j = 0; j < 4; j++) {
        if (!check(M[j].rows() == pd + 1, "parse-size", "%d rows for degree %d", M[j].rows(), pd)) continue;
        for (int a = 0; a <= pd; a++)
          for (int b = 0; b <= a; b++) same(M[j](a, b), ref[a * (pd + 1) + b][j], "parse-value", "coefficient");
      }
    }
    eval(hash(k, 0, pd, po));
    // an instance: a history of evaluations
    const int mo = r.coin() ? deg : (int)r.in(0, deg);
    std::unique_ptr<dso::OceanPoleTide> o;
    if (deg == 360 && mo == deg) o.reset(new dso::OceanPoleTide(p.c_str()));
    else if (mo == deg) o.reset(new dso::OceanPoleTide(deg, p.c_str()));
    else o.reset(new dso::OceanPoleTide(deg, mo, p.c_str()));
    check(o->max_degree() == deg && o->max_order() == mo, "instance-size", "%d/%d", o->max_degree(), o->max_order());
    std::vector<std::array<double, 4>> T((size_t)(deg + 1) * (deg + 1), std::array<double, 4>{});
    for (auto &x : c)
      if (x.m <= mo)
        for (int j = 0; j < 4; j++) T[x.n * (deg + 1) + x.m][j] = x.v[j];
    if (r.coin(.3)) {
      dso::OceanPoleTide cp(*o);
      *o = dso::OceanPoleTide();
      *o = cp;
    }
    for (int h = 0, nh = deg == 360 ? 2 : (int)r.in(1, 5); h < nh; h++) {
      const auto t = epoch(r);
      double xp, yp;
      pole(r, xp, yp);
      int d = r.coin(.3) ? -1 : (int)r.in(0, deg), w;
      if (d < 0) w = -1;
      else w = (int)r.in(0, std::min(d, mo));
      const bool dflt = r.coin();
      double om = dflt ? 7.292115e-5 : r.real(7e-5, 7.5e-5), G = dflt ? 6.67428e-11 : r.real(6e-11, 7e-11), ge = dflt ? 9.7803278 : r.real(9.7, 9.9);
      static Stay<double> stay[5];
      if (!dflt) stay[0](r, om, .5), stay[1](r, G, .5), stay[2](r, ge, .5);
      stay[3](r, xp), stay[4](r, yp);
      ctx("model %d/%d, evaluation %d to %d/%d, mjd %d, xp %.17g yp %.17g", deg, mo, h, d, w, t.imjd(), xp, yp);
      const int st = dflt ? o->stokes_coeffs(t, xp, yp, d, w) : o->stokes_coeffs(t, xp, yp, d, w, om, G, ge);
      if (!check(st == 0, "status", "returned %d", st)) continue;
      if (d < 0) d = deg, w = mo;
      const auto &cs = o->stokes_coeffs();
      if (!check(cs.max_degree() == deg, "size", "coefficients of degree %d", cs.max_degree())) continue;
      LD m1, m2;
      m12(t, xp, yp, m1, m2);
      const LD fr = AS * (m1 * .6870L + m2 * .0036L), fi = AS * (m2 * .6870L - m1 * .0036L);
      const LD a = cs.Re(), F = (LD)om * om * a * a * a * a / cs.GM() * 4 * PI * G * 1025 / ge;
      for (int m = 0; m <= cs.max_order(); m++)
        for (int l = m; l <= deg; l++) {
          LD C = 0, D = 0, mag = 0;
          if (l <= d && m <= w) {
            const auto &x = T[l * (deg + 1) + m];
            const LD R = F * (1 + (LD)KN[l]) / (2 * l + 1);
            C = R * (x[0] * fr + x[2] * fi), D = R * (x[1] * fr + x[3] * fi);
            mag = fabsl(R) * ((fabs(x[0]) + fabs(x[1])) * fabsl(fr) + (fabs(x[2]) + fabs(x[3])) * fabsl(fi));
          }
          // default Omega is rounded in the conventions
          const double tol = (double)mag * (dflt ? 1e-6 : 1e-11);
          check(fabsl((LD)cs.C(l, m) - C) <= tol, "geopotential-C", "C(%d,%d) got %.17g expected %.17g", l, m, cs.C(l, m), (double)C);
          check(fabsl((LD)cs.S(l, m) - D) <= tol, "geopotential-S", "S(%d,%d) got %.17g expected %.17g", l, m, cs.S(l, m), (double)D);
        }
      count("evaluations");
      eval(hash(k, h, d, w), d >= 2);
    }
    // requests beyond the model are refused
    double c21, s21;
    (void)c21, (void)s21;
    check(o->stokes_coeffs(epoch(r), .1, .2, deg + 1, 0) != 0, "refused-degree", "degree %d of a model of %d", deg + 1, deg);
    check(o->stokes_coeffs(epoch(r), .1, .2, 1, 2) != 0, "refused-order", "order above degree");
    if (mo < deg) check(o->stokes_coeffs(epoch(r), .1, .2, deg, mo + 1) != 0, "refused-order", "order %d of a model of %d", mo + 1, mo);
    if (k < 3) sample("%s", S().ctx);
  }
  dso::OceanPoleTide none;
  check(none.stokes_coeffs(epoch(r), .1, .2) != 0, "no-model", "evaluated without a model");
  eval(1);
}
static void model_files() {
  Rng r(S().seed);
  Quiet q;
  Tri M[4] = {Tri(1, 1), Tri(1, 1), Tri(1, 1), Tri(1, 1)};
  auto parse = [&](const std::string &t, int d, int o) {
    const auto p = put("desai", t);
    return dso::pole_tide_details::parse_desai02_coeffs(p.c_str(), d, o, M[0], M[2], M[1], M[3]);
  };
  for (long k = 0, n = N(6000, 200000); k < n; k++) {
    const int deg = (int)r.in(1, 6);
    const auto c = rand_model(r, deg, false);
    if (c.empty()) continue;
    auto t = model_text(r, c);
    const size_t hl = t.find('\n');
    const int kind = (int)r.in(0, 6);
    ctx("kind %d: file %s", kind, t.substr(0, 700).c_str());
    if (kind == 0) { // a wrong header
      t.erase(r.in(0, 1) ? t.find('n') : t.find("Anm"), 1);
      check(parse(t, deg, deg) != 0, "header", "accepted a wrong header");
    } else if (kind == 1) { // degree or order that does not exist
      char b[128];
      const int bad = (int)r.in(0, 2);
      snprintf(b, sizeof b, "%d %d 1. 2. 3. 4.\n", bad == 0 ? -(int)r.in(1, 1000) : (int)r.in(0, deg), bad == 0 ? 0 : bad == 1 ? -(int)r.in(1, 1000) : deg + 1);
      int l, m;
      sscanf(b, "%d %d", &l, &m);
      t.insert(hl + 1, b);
      check(parse(t, deg + 1, deg + 1) != 0, "bad-degree", "accepted %s", b);
    } else if (kind == 2) { // a field short
      const size_t e = t.find('\n', hl + 1);
      t.replace(hl + 1, e - hl - 1, "1 0 1.0e0 2.0e0 3.0e0");
      check(parse(t, deg, deg) != 0, "short-line", "accepted a line of five fields");
    } else if (kind == 3) {
      check(parse(t, deg, deg + 1) != 0, "order", "accepted order above degree");
      check(parse(t, 361, 0) != 0, "degree", "accepted degree 361");
      check(parse(t, -1, -1) != 0, "degree", "accepted a negative degree");
    } else { // anything: no access out of bounds (the sanitizer watches)
      for (long j = r.in(1, 5); j > 0; j--) {
        const size_t at = hl + 1 + r.in(0, t.size() - hl - 2);
        if (kind == 4) t[at] = (char)r.in(0, 255);
        else if (kind == 5) t.insert(at, std::string(r.in(1, 300), " 9-.e\n\t"[r.in(0, 6)]));
        else t.resize(at);
        if (t.size() <= hl + 2) break;
      }
      ctx("kind %d: file %s", kind, t.substr(0, 700).c_str());
      parse(t, (int)r.in(0, 8), 0);
    }
    eval(hash(k, kind, deg));
    count("files");
  }
  const auto p = put("desai", "");
  check(parse("", 2, 2) != 0, "empty", "accepted an empty file");
  check(dso::pole_tide_details::parse_desai02_coeffs("/nonexistent/x", 2, 2, M[0], M[2], M[1], M[3]) != 0, "missing", "accepted a missing file");
  bool threw = false;
  try { dso::OceanPoleTide o(3, p.c_str()); } catch (std::exception &) { threw = true; }
  check(threw, "constructor", "constructed from an empty file");
}

// ---------------------------------------------------------------- the grid of loading coefficients
struct Grid {
  int nx, ny;
  double x0, dx, y0, dy;
  std::vector<std::array<double, 6>> v;
};
static std::string grid_text(const Grid &g) {
  char b[512];
  snprintf(b, sizeof b,
           "Ocean Pole Load Tide Deformation Parameters from Self-Consistent\nEquilibrium Model of Ocean Pole Tide (Desai, 2002)\n"
           "Deformation Parameters Generated by S. Desai on March 28, 2006: CM correction applied\nNumber_longitude_Grid_Points = %9d\n"
           "First_longitude_degrees      = %9.4f\nLast_longitude_degrees       = %9.4f\nLongitude_step_degrees       = %9.4f\n",
           g.nx, g.x0, g.x0 + g.dx * (g.nx - 1), g.dx);
  std::string s = b;
  snprintf(b, sizeof b,
           "Number_latitude_grid_points  = %9d\nFirst_latitude_degrees       = %9.4f\nLast_latitude_degrees        = %9.4f\n"
           "Latitude_step_degrees        = %9.4f\nLongitude   Latitude   u_r^R       u_r^I       u_n^R       u_n^I       u_e^R       u_e^I\n"
           "(degrees)  (degrees)  (        )  (        )  (        )  (        )  (        )  (        )\n-----\n",
           g.ny, g.y0, g.y0 + g.dy * (g.ny - 1), g.dy);
  s += b;
  for (int j = 0; j < g.ny; j++)
    for (int i = 0; i < g.nx; i++) {
      auto &c = g.v[(size_t)j * g.nx + i];
      snprintf(b, sizeof b, "%10.4f %10.4f %11.6f %11.6f %11.6f %11.6f %11.6f %11.6f\n", g.x0 + g.dx * i, g.y0 + g.dy * j, c[0], c[1], c[2], c[3], c[4], c[5]);
      s += b;
    }
  return s;
}
static Grid rand_grid(Rng &r, bool global) {
  static const double D[] = {15, 7.5, 30, 22.5};
  Grid g;
  g.dx = D[r.in(0, 3)], g.dy = D[r.in(0, 3)];
  if (global) g.x0 = g.dx / 2, g.y0 = -90 + g.dy / 2, g.nx = (int)(360 / g.dx), g.ny = (int)(180 / g.dy);
  else g.nx = (int)r.in(2, 8), g.ny = (int)r.in(2, (long)(160 / g.dy) > 7 ? 7 : (long)(160 / g.dy)), g.x0 = 7.5 * r.in(0, 8), g.y0 = -90 + 2.5 * r.in(1, 6);
  g.v.resize((size_t)g.nx * g.ny);
  for (auto &c : g.v)
    for (auto &x : c) x = r.in(-999999, 999999) * 1e-6;
  return g;
}
static void loading() {
  Rng r(S().seed);
  Quiet q;
  for (long k = 0, n = N(1500, 40000); k < n; k++) {
    const auto g = rand_grid(r, r.coin());
    const auto p = put("opole", grid_text(g));
    std::vector<dso::SphericalCrd> st;
    std::vector<std::array<double, 2>> deg;
    bool off = false;
    const double xl = g.x0 + g.dx * (g.nx - 1), yl = g.y0 + g.dy * (g.ny - 1);
    const int order = r.coin(.6) ? 0 : (int)r.in(1, 2);
    for (long i = 0, ns = r.coin(.06) ? r.in(40, 300) : r.in(0, 12); i < ns; i++) {
      double x, y;
      if (r.coin(ns > 12 ? .0005 : .02)) { // outside the nodes
        do x = r.real(0, 360), y = r.real(-90, 90);
        while (x > g.x0 - 1e-3 && x < xl + 1e-3 && y > g.y0 - 1e-3 && y < yl + 1e-3);
        off = true;
      } else if (r.coin(.1) && !deg.empty()) x = deg.back()[0], y = deg.back()[1]; // the same cell twice
      else x = r.real(g.x0 + 1e-4, xl - 1e-4), y = r.real(g.y0 + 1e-4, yl - 1e-4);
      // any convention for the longitude
      const double lon = x - 360. * (x > 180 ? r.in(0, 1) : r.in(-1, 1) * (long)r.coin(.2));
      deg.push_back({x, y});
      st.emplace_back(6.37e6, y * (double)PI / 180, lon * (double)PI / 180);
    }
    if (order) { // as they come, or in the order of the file, or against it
      std::vector<size_t> p(st.size());
      for (size_t i = 0; i < p.size(); i++) p[i] = i;
      auto cell = [&](size_t i) { return std::floor((deg[i][1] - g.y0) / g.dy) * g.nx + std::floor((deg[i][0] - g.x0) / g.dx); };
      std::sort(p.begin(), p.end(), [&](size_t i, size_t j) { return order == 1 ? cell(i) < cell(j) : cell(j) < cell(i); });
      auto d0 = deg;
      auto s0 = st;
      for (size_t i = 0; i < p.size(); i++) deg[i] = d0[p[i]], st[i] = s0[p[i]];
    }
    ctx("grid %dx%d from (%g %g) step (%g %g), %zu sites, first (%.17g %.17g)", g.nx, g.ny, g.x0, g.y0, g.dx, g.dy, st.size(), deg.empty() ? 0 : deg[0][0], deg.empty() ? 0 : deg[0][1]);
    std::vector<dso::OceanPoleTideDesaiCoeffs> c(r.coin(.3) ? st.size() : (size_t)r.in(0, 3));
    const int e = dso::get_desai_ocp_deformation_coeffs(p.c_str(), st, c);
    eval(hash(k, st.size(), off), st.size() > 0);
    if (off) {
      check(e != 0, "off-grid", "site off the grid accepted");
      count("off grid");
      continue;
    }
    if (!check(e == 0, "loading-status", "returned %d", e) || !check(c.size() == st.size(), "loading-size", "%zu for %zu sites", c.size(), st.size())) continue;
    for (size_t i = 0; i < st.size(); i++) {
      LD u = (deg[i][0] - (LD)g.x0) / g.dx, v = (deg[i][1] - (LD)g.y0) / g.dy;
      const int a = (int)u, b = (int)v;
      u -= a, v -= b;
      const double got[6] = {c[i].rR, c[i].rI, c[i].nR, c[i].nI, c[i].eR, c[i].eI};
      for (int j = 0; j < 6; j++) {
        auto z = [&](int x, int y) { return (LD)g.v[(size_t)y * g.nx + x][j]; };
        const LD ref = z(a, b) * (1 - u) * (1 - v) + z(a + 1, b) * u * (1 - v) + z(a, b + 1) * (1 - u) * v + z(a + 1, b + 1) * u * v;
        near(got[j], (double)ref, 1e-9, "loading-value", "coefficient");
      }
      count("sites");
    }
    if (k < 3) sample("%s", S().ctx);
  }
}
static void loading_files() {
  Rng r(S().seed);
  Quiet q;
  for (long k = 0, n = N(3000, 100000); k < n; k++) {
    Grid g = rand_grid(r, false);
    auto t = grid_text(g);
    size_t hl = 0;
    for (int i = 0; i < 14; i++) hl = t.find('\n', hl) + 1;
    const double x = r.real(g.x0 + .1, g.x0 + g.dx * (g.nx - 1) - .1), y = r.real(g.y0 + .1, g.y0 + g.dy * (g.ny - 1) - .1);
    std::vector<dso::SphericalCrd> st{dso::SphericalCrd(6.37e6, y * (double)PI / 180, x * (double)PI / 180)};
    std::vector<dso::OceanPoleTideDesaiCoeffs> c;
    const int kind = (int)r.in(0, 5);
    bool mustfail = false;
    if (kind == 5) { // one of the four nodes around the site is not where the header says
      const int a = (int)((x - g.x0) / g.dx) + (int)r.in(0, 1), b = (int)((y - g.y0) / g.dy) + (int)r.in(0, 1);
      size_t e = hl;
      for (long i = (long)b * g.nx + a; i > 0; i--) e = t.find('\n', e) + 1;
      char w[32];
      const bool lon = r.coin();
      snprintf(w, sizeof w, "%10.4f", (lon ? g.x0 + g.dx * a : g.y0 + g.dy * b) + (r.coin() ? 1 : -1) * (r.coin() ? .25 : lon ? g.dx : g.dy));
      t.replace(e + (lon ? 0 : 11), 10, w), mustfail = true;
    } else if (kind == 0) { // ends before the lines that are needed
      const size_t need = (size_t)((int)((y - g.y0) / g.dy) + 1) * g.nx + (int)((x - g.x0) / g.dx) + 1;
      size_t e = hl;
      for (long i = r.in(0, (long)need); i > 0; i--) e = t.find('\n', e) + 1;
      t.resize(e), mustfail = true;
    } else if (kind == 1) t.resize(r.in(0, hl)), mustfail = true;
    else if (kind == 2) { // a header label is missing or misspelled
      static const char *L[] = {"Number_longitude", "First_longitude", "Last_longitude", "Longitude_step", "Number_latitude", "First_latitude", "Last_latitude", "Latitude_step", "(degrees)", "Longitude   Lat"};
      t[t.find(L[r.in(0, 9)])] = '#', mustfail = true;
    } else if (kind == 3) { // a header value is missing
      size_t at = 0;
      for (long i = r.in(0, 7); i >= 0; i--) at = t.find('=', at + 1);
      const size_t e = t.find('\n', at);
      const size_t f = r.coin() ? at : at + 1;
      t.erase(f, e - f), mustfail = true;
    } else
      for (long i = r.in(1, 5); i > 0; i--) t[r.in((long)hl, (long)t.size() - 1)] = (char)r.in(0, 255);
    ctx("kind %d, site (%g %g), file %s", kind, x, y, t.substr(0, 800).c_str());
    const auto p = put("opole", t);
    const int e = dso::get_desai_ocp_deformation_coeffs(p.c_str(), st, c);
    if (mustfail) check(e != 0, "damaged", "accepted, %zu coefficients", c.size());
    eval(hash(k, kind));
  }
  std::vector<dso::OceanPoleTideDesaiCoeffs> c;
  check(dso::get_desai_ocp_deformation_coeffs("/nonexistent/x", {}, c) != 0, "missing", "accepted a missing file");
}
int main(int c, char **v) {
  return run(c, v, {{"solid", solid}, {"model", model}, {"model_files", model_files}, {"loading", loading}, {"loading_files", loading_files}});
}
