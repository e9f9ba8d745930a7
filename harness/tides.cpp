// Ocean and atmospheric tides: atlases, synthesis with and without admittance, GROOPS and AOD1B model files.
#include "mon.hpp"
#include "atmospheric_tides.hpp"
#include "iau.hpp"
#include "ocean_tide.hpp"
#include <algorithm>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
using namespace mon;
typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L;
static std::string dir() { return S().scratch.empty() ? std::string("/tmp/tides_scratch") : S().scratch; }
static void put(const std::string &p, const std::string &t) {
  std::ofstream o(p, std::ios::binary);
  o << t;
}
struct Field { // coefficients up to (deg, ord)
  int deg = 0, ord = 0;
  std::map<std::pair<int, int>, std::pair<double, double>> v;
  std::pair<double, double> at(int n, int m) const {
    auto it = v.find({n, m});
    return it == v.end() ? std::pair<double, double>{0, 0} : it->second;
  }
};
static double r12(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.12e", x);
  return strtod(b, nullptr);
}
static Field rand_field(Rng &r, int deg, int ord) {
  Field f;
  f.deg = deg, f.ord = ord;
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= std::min(n, ord); m++)
      if (r.coin(.9)) f.v[{n, m}] = {r12(r.wide(-14, -9)), m ? r12(r.wide(-14, -9)) : 0};
  return f;
}
static void store(const Field &f, dso::StokesCoeffs &cs) {
  cs.resize(f.deg, f.ord);
  cs.clear();
  for (auto &e : f.v) cs.C(e.first.first, e.first.second) = e.second.first, cs.S(e.first.first, e.first.second) = e.second.second;
}
static bool same_field(const dso::StokesCoeffs &cs, const Field &f, int deg, int ord, const char *key) {
  if (!check(cs.max_degree() == deg && cs.max_order() == ord, key, "size %dx%d expected %dx%d", cs.max_degree(), cs.max_order(), deg, ord)) return false;
  for (int m = 0; m <= ord; m++)
    for (int n = m; n <= deg; n++)
      if (!check(cs.C(n, m) == f.at(n, m).first && cs.S(n, m) == f.at(n, m).second, key, "(%d,%d) got %.17g %.17g expected %.17g %.17g", n, m, cs.C(n, m), cs.S(n, m), f.at(n, m).first, f.at(n, m).second)) return false;
  return true;
}
struct Wave {
  int d[6];
  double pi = 0;
  Field c, s;
  std::string name;
};
static dso::DoodsonConstituent dood(const Wave &w) { return dso::DoodsonConstituent(w.d[0], w.d[1], w.d[2], w.d[3], w.d[4], w.d[5], w.pi); }
static std::vector<Wave> rand_waves(Rng &r, int n, int maxdeg, int mode) {
  std::vector<Wave> w;
  std::set<std::vector<int>> seen;
  const int d0 = (int)r.in(0, maxdeg), o0 = r.coin(.7) ? d0 : (int)r.in(0, d0);
  while ((int)w.size() < n) {
    Wave x;
    x.d[0] = (int)r.in(0, 4);
    for (int i = 1; i < 6; i++) x.d[i] = r.coin(.9) ? (int)r.in(-4, 4) : (int)r.in(-8, 12);
    if (!seen.insert(std::vector<int>(x.d, x.d + 6)).second) continue;
    x.pi = r.coin() ? 0 : (double)r.in(-2, 2);
    int dc = d0, oc = o0, ds = d0, os = o0;
    if (mode) dc = ds = (int)r.in(0, maxdeg), oc = os = (int)r.in(0, dc);
    if (mode == 2) ds = (int)r.in(0, maxdeg), os = (int)r.in(0, ds);
    x.c = rand_field(r, dc, oc), x.s = rand_field(r, ds, os);
    x.name = "w" + std::to_string(w.size());
    w.push_back(x);
  }
  return w;
}
static void size_of(const std::vector<Wave> &w, int &deg, int &ord) {
  deg = ord = 0;
  for (auto &x : w) deg = std::max({deg, x.c.deg, x.s.deg}), ord = std::max({ord, x.c.ord, x.s.ord});
}
static dso::TideAtlas make_atlas(Rng &r, const std::vector<Wave> &w) {
  dso::TideAtlas a;
  for (auto &x : w) {
    const dso::TidalWave tw(dood(x), r.real(0, 30), r.real(0, 1), x.name.c_str());
    if (r.coin()) {
      auto it = a.append_wave(tw, x.c.deg, x.c.ord);
      store(x.c, it->stokes_cos()), store(x.s, it->stokes_sin());
    } else {
      dso::TidalConstituent c(tw, x.c.deg, x.c.ord);
      store(x.c, c.stokes_cos()), store(x.s, c.stokes_sin());
      a.append_wave(c);
    }
  }
  return a;
}
struct Moment {
  dso::MjdEpoch tt, ut;
  double f[5];
};
static Moment moment(Rng &r) {
  Moment m;
  const int d = (int)r.in(41000, 65000);
  const double s = r.real(0, 86400);
  m.tt = revisit<dso::FractionalSeconds>(r, dso::MjdEpoch(d, dso::FractionalSeconds(s)));
  m.ut = m.tt.add_seconds(dso::FractionalSeconds(-r.real(20, 90)));
  for (int i = 0; i < 5; i++) m.f[i] = r.real(0, 2 * (double)PI);
  static Stay<double> stay[5];
  static Moment last = m;
  if (r.coin(.25)) { // some of the arguments of before
    if (r.coin(.8)) m.tt = last.tt, m.ut = last.ut;
    else if (r.coin()) m.tt = last.tt;
    for (int i = 0; i < 5; i++) stay[i](r, m.f[i], .6);
  }
  last = m;
  return m;
}
// the six astronomical variables of an epoch
static void beta(const Moment &m, LD *b) {
  const LD l = m.f[0], lp = m.f[1], F = m.f[2], D = m.f[3], om = m.f[4], g = dso::gmst(m.tt, m.ut);
  b[1] = F + om, b[2] = b[1] - D, b[3] = b[1] - l, b[4] = -om, b[5] = b[1] - D - lp, b[0] = g + PI - b[1];
}
// cos and sin factors per wave
static void compare(const dso::StokesCoeffs &cs, const std::vector<Wave> &w, const std::vector<std::pair<LD, LD>> &fac, const char *key) {
  int deg, ord;
  size_of(w, deg, ord);
  if (!check(cs.max_degree() == deg && cs.max_order() == ord, key, "size %dx%d, the waves have %dx%d", cs.max_degree(), cs.max_order(), deg, ord)) return;
  for (int m = 0; m <= ord; m++)
    for (int n = m; n <= deg; n++) {
      LD C = 0, Sn = 0, tc = 0, ts = 0;
      for (size_t i = 0; i < w.size(); i++) {
        const auto c = w[i].c.at(n, m), s = w[i].s.at(n, m);
        C += fac[i].first * c.first + fac[i].second * s.first, Sn += fac[i].first * c.second + fac[i].second * s.second;
        const LD mag = fabsl(fac[i].first) + fabsl(fac[i].second) + 1;
        tc += mag * (fabs(c.first) + fabs(s.first)), ts += mag * (fabs(c.second) + fabs(s.second));
      }
      if (!near(cs.C(n, m), (double)C, (double)(1e-11L * tc), key, "C") || !near(cs.S(n, m), (double)Sn, (double)(1e-11L * ts), key, "S")) return;
    }
}
static std::vector<std::pair<LD, LD>> direct(const std::vector<Wave> &w, const Moment &m, bool pifac) {
  LD b[6];
  beta(m, b);
  std::vector<std::pair<LD, LD>> f;
  for (auto &x : w) {
    LD a = pifac ? x.pi * PI / 2 : 0;
    for (int i = 0; i < 6; i++) a += x.d[i] * b[i];
    f.push_back({cosl(a), sinl(a)});
  }
  return f;
}
struct Admit {
  std::vector<std::array<int, 6>> d;
  std::vector<std::vector<double>> a; // k x f
  std::vector<std::pair<LD, LD>> factors(const Moment &m) const {
    LD b[6];
    beta(m, b);
    std::vector<std::pair<LD, LD>> f(a.size(), {0, 0});
    for (size_t j = 0; j < d.size(); j++) {
      LD t = 0;
      for (int i = 0; i < 6; i++) t += d[j][i] * b[i];
      for (size_t k = 0; k < a.size(); k++) f[k].first += a[k][j] * cosl(t), f[k].second += a[k][j] * sinl(t);
    }
    return f;
  }
  dso::GroopsTideModel model() const {
    Eigen::Matrix<int, Eigen::Dynamic, 6> D(d.size(), 6);
    Eigen::MatrixXd A(a.size(), d.size());
    for (size_t j = 0; j < d.size(); j++)
      for (int i = 0; i < 6; i++) D(j, i) = d[j][i];
    for (size_t k = 0; k < a.size(); k++)
      for (size_t j = 0; j < d.size(); j++) A(k, j) = a[k][j];
#ifdef SPARSE_ADMITTANCE_MATRIX
    Eigen::SparseMatrix<double> B = A.sparseView();
    return dso::GroopsTideModel(D, B);
#else
    return dso::GroopsTideModel(D, A);
#endif
  }
};
static Admit rand_admit(Rng &r, size_t k) {
  Admit a;
  const size_t f = k + r.in(0, r.coin(.1) ? 150 : 12);
  for (size_t j = 0; j < f; j++) {
    std::array<int, 6> d;
    d[0] = (int)r.in(0, 3);
    for (int i = 1; i < 6; i++) d[i] = (int)r.in(-5, 5);
    a.d.push_back(d);
  }
  for (size_t i = 0; i < k; i++) {
    a.a.push_back(std::vector<double>(f, 0.));
    for (size_t j = 0; j < f; j++)
      if (r.coin(.4)) a.a[i][j] = r12(r.sym());
  }
  return a;
}
static void drive(Rng &r, dso::OceanTide &o, const std::vector<Wave> &w, const Admit *adm, int queries, const char *key) {
  int deg, ord;
  size_of(w, deg, ord);
  check(o.max_degree() == deg && o.max_order() == ord, "ocean-size", "%dx%d expected %dx%d", o.max_degree(), o.max_order(), deg, ord);
  check(o.num_waves() == (int)(adm ? adm->d.size() : w.size()) && o.num_major_waves() == (int)w.size(), "ocean-waves", "%d %d", o.num_waves(), o.num_major_waves());
  for (int q = 0; q < queries; q++) {
    const Moment m = moment(r);
    check(o.stokes_coeffs(m.tt, m.ut, m.f) == 0, "ocean-ret", "refused");
    compare(o.stokes_coeffs(), w, adm ? adm->factors(m) : direct(w, m, false), key);
    eval(hash(w.size(), deg, ord, bits(m.f[0])));
  }
}
static void synthesis() {
  Rng r(S().seed);
  Quiet q;
  for (long k = 0, n = N(1500, 60000); k < n; k++) {
    const int mode = (int)r.in(0, 2);
    auto w = r.coin(.06) ? rand_waves(r, (int)r.in(20, 90), 2, mode) : r.coin(.005) ? rand_waves(r, (int)r.in(1, 2), 180, mode) : rand_waves(r, (int)r.in(0, 8), r.coin(.05) ? 40 : 8, mode);
    const auto a = make_atlas(r, w);
    ctx("case %ld: %zu waves, %s", k, w.size(), mode == 0 ? "equal sizes" : mode == 1 ? "mixed sizes" : "mixed sizes, also within a wave");
    { // the atlas itself
      int ord, deg, eo, ed = a.max_atlas_degree(eo);
      size_of(w, deg, ord);
      check(ed == deg && eo == ord && a.max_atlas_degree() == deg, "atlas-size", "%dx%d expected %dx%d", ed, eo, deg, ord);
      check(a.waves().size() == w.size(), "atlas-count", "%zu", a.waves().size());
      for (size_t i = 0; i < w.size() && i < a.waves().size(); i++) {
        auto it = a.find_tidal_wave(dood(w[i]));
        check(it - a.waves().begin() == (long)i && w[i].name == it->name(), "find", "wave %zu found at %ld", i, (long)(it - a.waves().begin()));
        same_field(it->stokes_cos(), w[i].c, w[i].c.deg, w[i].c.ord, "atlas-cos"), same_field(it->stokes_sin(), w[i].s, w[i].s.deg, w[i].s.ord, "atlas-sin");
      }
      dso::TideAtlas b(a);
      if (!w.empty()) {
        const Wave &x = w[r.in(0L, (long)w.size() - 1)];
        bool t1 = false, t2 = false;
        try { b.append_wave(dso::TidalWave(dood(x)), 2, 2); } catch (std::exception &) { t1 = true; }
        try { b.append_wave(dso::TidalConstituent(dso::TidalWave(dood(x)), 2, 2)); } catch (std::exception &) { t2 = true; }
        check(t1 && t2 && b.waves().size() == w.size(), "duplicate", "a wave was added twice");
      }
      check(b.find_tidal_wave(dso::DoodsonConstituent(9, 9, 9, 9, 9, 9)) == b.waves().end(), "find-none", "found a wave that is not there");
      for (int i = 0; i < 6; i++) { // none next to those that are there, in an atlas that may change and one that may not
        int z[6];
        if (w.empty()) break;
        const Wave &x = w[r.in(0L, (long)w.size() - 1)];
        for (int j = 0; j < 6; j++) z[j] = x.d[j];
        z[r.in(0, 5)] += r.coin() ? 1 : -1;
        bool there = false;
        for (auto &y : w) there = there || std::equal(z, z + 6, y.d);
        const dso::TideAtlas &ca = a;
        const dso::DoodsonConstituent dc(z);
        check(there || (b.find_tidal_wave(dc) == b.waves().end() && ca.find_tidal_wave(dc) == ca.waves().end()), "find-none", "found a wave that is not there");
      }
      // a constituent made from an entry of the tables
      const auto *e = r.coin() ? dso::find_wave_entry(r.coin() ? "S2" : "M2") : dso::detail::match_ocean_tide_wave(r.coin() ? "K1" : "Ssa");
      if (check(e != nullptr, "entry", "no entry")) {
        const int dg = (int)r.in(0, 9), od = (int)r.in(0, dg);
        dso::TidalConstituent c(e, dg, od);
        check(c.doodson() == e->doodson() && !strcmp(c.name(), e->name()) && !strcmp(c.wave().name(), e->name()) && c.stokes_cos().max_degree() == dg && c.stokes_cos().max_order() == od && c.stokes_sin().max_degree() == dg && c.stokes_sin().max_order() == od, "entry", "constituent of %s is [%s], %dx%d", e->name(), c.name(), c.stokes_cos().max_degree(), c.stokes_sin().max_order());
      }
      count("atlases");
    }
    const std::string name(r.in(0, 90), 'n');
    const bool nm = r.coin();
    dso::AtmosphericTide at(a, nm ? name.c_str() : nullptr);
    if (nm) check(at.atlas().name() == name.substr(0, 63), "name", "[%s]", at.atlas().name());
    for (int i = 0; i < 2; i++) {
      const Moment m = moment(r);
      check(at.stokes_coeffs(m.tt, m.ut, m.f) == 0, "atm-ret", "refused");
      compare(at.stokes_coeffs(), w, direct(w, m, true), "atmosphere");
      eval(hash(k, i));
    }
    int deg, ord;
    size_of(w, deg, ord);
    check(at.max_degree() == deg && at.max_order() == ord, "atm-size", "%dx%d", at.max_degree(), at.max_order());
    const Admit adm = rand_admit(r, w.size());
    const bool use = r.coin();
    std::unique_ptr<dso::OceanTide> o(use ? new dso::OceanTide(a, adm.model(), nm ? name.c_str() : nullptr) : new dso::OceanTide(a, nm ? name.c_str() : nullptr));
    if (nm) check(o->atlas().name() == name.substr(0, 63), "ocean-name", "[%s]", o->atlas().name());
    drive(r, *o, w, use ? &adm : nullptr, 1, "ocean");
    // copies and moves, with another model before and after
    auto w2 = rand_waves(r, (int)r.in(0, 4), 5, 1);
    const auto a2 = make_atlas(r, w2);
    const Admit adm2 = rand_admit(r, w2.size());
    const bool use2 = r.coin();
    dso::OceanTide p(use2 ? dso::OceanTide(a2, adm2.model()) : dso::OceanTide(a2));
    switch (r.in(0, 5)) {
    case 0: p = *o, drive(r, p, w, use ? &adm : nullptr, 1, "ocean-copy"), drive(r, *o, w, use ? &adm : nullptr, 1, "ocean-copied"); break;
    case 1: p = std::move(*o), drive(r, p, w, use ? &adm : nullptr, 1, "ocean-move"), o.reset(); break;
    case 2: {
      dso::OceanTide c(*o);
      o.reset(), drive(r, c, w, use ? &adm : nullptr, 1, "ocean-copy-ctor");
      break;
    }
    case 3: {
      dso::OceanTide c(std::move(*o));
      o.reset(), drive(r, c, w, use ? &adm : nullptr, 1, "ocean-move-ctor");
      break;
    }
    case 4: {
      auto &s = *o;
      *o = s, *o = std::move(s), drive(r, *o, w, use ? &adm : nullptr, 1, "ocean-self");
      break;
    }
    default:
      o->set_groops_admittance(adm.model()), drive(r, *o, w, &adm, 1, "ocean-admittance");
      { // columns of the admittance and rows of the Doodson matrix that do not match, in either direction
        const Admit more = rand_admit(r, w.size());
        if (more.d.size() != adm.d.size()) {
          const auto x = more.model(), y = adm.model();
          o->set_groops_admittance(dso::GroopsTideModel(x.doodson_matrix(), y.admittance_matrix()));
          const Moment m = moment(r);
          check(o->stokes_coeffs(m.tt, m.ut, m.f) != 0, "mismatch", "admittance of %zu columns was used with %zu Doodson numbers", adm.d.size(), more.d.size());
        }
      }
      if (w2.size() != w.size()) {
        o->set_groops_admittance(adm2.model());
        const Moment m = moment(r);
        check(o->stokes_coeffs(m.tt, m.ut, m.f) != 0, "mismatch", "admittance of %zu waves was used with %zu", w2.size(), w.size());
      }
    }
    sample("%zu waves, %s admittance, degree %d", w.size(), use ? "with" : "without", deg);
  }
}
// --- AOD1B waves appended to an atmospheric tide ------------------------------------------------------
static std::string aod_text(const Field &c, const Field &s, int deg, const std::string &wave) {
  auto L = [](const char *k, const std::string &v) { char b[128]; snprintf(b, sizeof b, "%-30s: ", k); return b + v + "\n"; };
  std::string t = L("PRODUCER AGENCY", "GFZ") + L("FILE TYPE ipAOD1BF", "999") + L("FILE FORMAT 0=BINARY 1=ASCII", "1") + L("NUMBER OF HEADER RECORDS", "29") + L("TIME FIRST OBS (YEAR START)", "2007") + L("TIME LAST OBS (YEAR END)", "2014") + L("PRESSURE TYPE (ATM OR OCN)", "ATM") + L("MAXIMUM DEGREE", std::to_string(deg)) + L("COEFF. NORMALIZED (YES/NO)", "YES") + L("PARTIAL TIDE", wave) + L("NUMBER OF DATA SETS", "2") + "END OF HEADER\n";
  for (int i = 0; i < 2; i++) {
    const Field &f = i ? s : c;
    t += "DATA SET 0" + std::to_string(i + 1) + ": " + std::to_string(f.v.size()) + " COEFFICIENTS OF TYPE " + (i ? "sin" : "cos") + "\n";
    for (auto &e : f.v) {
      char b[128];
      snprintf(b, sizeof b, "%3d %3d %.12e %.12e\n", e.first.first, e.first.second, e.second.first, e.second.second);
      t += b;
    }
  }
  return t;
}
static Field cut(const Field &f, int deg, int ord) {
  Field g;
  g.deg = deg, g.ord = ord;
  for (auto &e : f.v)
    if (e.first.first <= deg && e.first.second <= ord) g.v.insert(e);
  return g;
}
static void appended() {
  Rng r(S().seed + 1);
  Quiet q;
  static const char *W[] = {"S1", "S2", "S3", "M2", "P1", "K1", "R2", "T2", "L2", "N2"};
  const std::string fn = dir() + "/w.asc";
  for (long k = 0, n = N(700, 30000); k < n; k++) {
    dso::AtmosphericTide at(r.coin() ? "model" : nullptr);
    std::vector<Wave> w;
    const int steps = (int)r.in(1, 6);
    for (int i = 0; i < steps; i++) {
      const std::string name = W[r.in(0, 9)];
      const auto *e = dso::find_wave_entry(name.c_str());
      const int deg = (int)r.in(0, 8);
      const Field c = rand_field(r, deg, deg), s = rand_field(r, deg, deg);
      std::string t = aod_text(c, s, deg, name);
      const bool broken = r.coin(.25); // damage anywhere in the coefficients
      if (broken) {
        const size_t dl = t.find('\n', t.find("END OF HEADER")) + 1;
        std::vector<size_t> L;
        for (size_t p = dl; p < t.size(); p = t.find('\n', p) + 1) L.push_back(p);
        const size_t at = L[r.in(0L, (long)L.size() - 1)];
        switch (r.in(0, 3)) {
        case 0: t.erase(at); break;
        case 1: t.erase(at, t.find('\n', at) + 1 - at); break;
        case 2: t.insert(at, "  0   0 1.0 1.0\n"); break;
        default: t.replace(at, t.find('\n', at) - at, r.coin() ? "x" : "");
        }
      }
      put(fn, t);
      const int dn = r.coin() ? -1 : (int)r.in(0, deg + 1), dm = r.coin() ? -1 : (int)r.in(0, deg + 1), un = dn < 0 ? deg : dn, um = dm < 0 ? deg : dm;
      ctx("case %ld step %d: wave %s of degree %d asked %d %d", k, i, name.c_str(), deg, dn, dm);
      const int st = at.append_wave(fn.c_str(), dn, dm);
      const bool ok = e && um <= un && un <= deg && !broken;
      check((st == 0) == ok, "append-ret", "returned %d", st);
      eval(hash(k, i));
      if (!st && e) {
        Wave x;
        for (int j = 0; j < 6; j++) x.d[j] = e->_d(j);
        x.pi = e->_d.pifactor(), x.c = cut(c, un, um), x.s = cut(s, un, um);
        w.push_back(x), count("waves");
      } else
        count("refused waves");
      check(at.atlas().waves().size() == w.size(), "append-count", "%zu expected %zu", at.atlas().waves().size(), w.size());
      if (w.empty()) continue;
      int ed, eo;
      size_of(w, ed, eo);
      check(at.max_degree() == ed && at.max_order() == eo, "append-size", "%dx%d expected %dx%d", at.max_degree(), at.max_order(), ed, eo);
      const Moment m = moment(r);
      at.stokes_coeffs(m.tt, m.ut, m.f);
      compare(at.stokes_coeffs(), w, direct(w, m, true), "appended");
    }
  }
  dso::AtmosphericTide at;
  check(at.append_wave("/nonexistent/x", -1, -1) != 0 && at.atlas().waves().empty(), "append-missing", "accepted a missing file");
  { // a model without waves is the null expansion of degree zero
    Rng r(S().seed + 17);
    const Moment m = moment(r);
    check(at.stokes_coeffs(m.tt, m.ut, m.f) == 0 && at.stokes_coeffs().max_degree() == 0 && at.stokes_coeffs().C(0, 0) == 0 && at.stokes_coeffs().S(0, 0) == 0, "no-waves", "a model without waves is not null");
  }
  remove(fn.c_str());
}
// --- GROOPS model files ------------------------------------------------------------------------------
static char dchar(int d) { return d < 0 ? (char)('N' + d + 13) : d > 9 ? (char)('A' + d - 10) : (char)('0' + d); }
static std::string dstr(const Wave &w) {
  std::string s;
  for (int i = 0; i < 6; i++) s += (i == 3 ? "." : ""), s += dchar(w.d[i] + (i ? 5 : 0));
  return s;
}
static std::string gfc(const Field &f, int deg, const std::string &name) {
  std::string t = "product_type gravity_field\nmodelname " + name + "\nearth_gravity_constant 3.986004415e+14\nradius 6378136.3\nmax_degree " + std::to_string(deg) + "\nnorm fully_normalized\ntide_system tide_free\nerrors no\nend_of_head ===\n";
  for (auto &e : f.v) {
    char b[160];
    snprintf(b, sizeof b, "gfc %4d %4d %.12e %.12e\n", e.first.first, e.first.second, e.second.first, e.second.second);
    t += b;
  }
  return t;
}
struct Groops {
  std::string d, model, name, f1, f2, f3;
  std::vector<std::string> files;
  std::vector<Wave> w;
  Admit adm;
  ~Groops() {
    for (auto &f : files) remove((d + "/" + f).c_str());
    for (auto f : {f1, f2, f3}) remove(f.c_str());
    rmdir(d.c_str());
  }
};
static std::string list_text(Rng &r, const Groops &g) {
  std::string t;
  for (size_t i = 0; i < g.w.size(); i++) t += std::string(r.in(0, 2), ' ') + g.files[2 * i] + std::string(r.in(1, 3), ' ') + g.files[2 * i + 1] + (r.coin(.2) ? " " : "") + "\n";
  return t;
}
static std::string doodson_text(Rng &r, const Admit &a) {
  std::string t;
  for (auto &d : a.d) {
    for (int i = 0; i < 6; i++) t += std::string(r.in(1, 3), ' ') + std::to_string(d[i]);
    t += "\n";
  }
  return t;
}
static std::string admit_text(Rng &r, const Admit &a) {
  std::string t;
  const bool wide = r.coin(.3); // as the COST-G files are
  for (auto &l : a.a) {
    for (double v : l) {
      char b[64];
      if (wide) snprintf(b, sizeof b, "%27.18e", v);
      else snprintf(b, sizeof b, "%s%.12e", r.coin() ? " " : "  ", v);
      t += b;
    }
    t += "\n";
  }
  return t;
}
static void rand_groops(Rng &r, Groops &g, long k) {
  g.d = dir() + "/g" + std::to_string(k);
  if (r.coin(.1)) g.d += std::string(r.in(150, 220), 'd');
  mkdir(g.d.c_str(), 0777);
  static const char *M[] = {"FES2014b", "TiME22_ATM", "A", "EOT20_x_y"};
  g.model = r.coin(.9) ? M[r.in(0, 3)] : std::string(r.coin() ? 47 : r.in(30, 47), 'm');
  g.name = r.coin(.8) ? "model_name" : std::string(r.in(60, 120), 'n');
  g.w = r.coin(.01) ? rand_waves(r, (int)r.in(1, 2), r.coin(.2) ? 180 : 50, (int)r.in(0, 2)) : rand_waves(r, (int)r.in(1, 6), 7, (int)r.in(0, 2));
  static const char *N[] = {"m2", "s2", "psi1", "3a", "om1"};
  for (auto &x : g.w) {
    x.pi = 0, x.name = r.coin(.9) ? N[r.in(0, 4)] : std::string(r.in(6, 15), 'q');
    x.c.ord = x.c.deg, x.s.ord = x.s.deg;
    const bool swap = r.coin(.3);
    for (int i = 0; i < 2; i++) {
      const bool sin = (i == 1) != swap;
      g.files.push_back(g.model + "_" + dstr(x) + "_" + x.name + (sin ? "_sin.gfc" : "_cos.gfc"));
      put(g.d + "/" + g.files.back(), gfc(sin ? x.s : x.c, sin ? x.s.deg : x.c.deg, g.name));
    }
  }
  g.adm = rand_admit(r, g.w.size());
  g.f1 = dir() + "/l.txt", g.f2 = dir() + "/d.txt", g.f3 = dir() + "/a.txt";
  put(g.f1, list_text(r, g)), put(g.f2, doodson_text(r, g.adm)), put(g.f3, admit_text(r, g.adm));
}
static void groops() {
  Rng r(S().seed + 2);
  Quiet q;
  for (long k = 0, n = N(700, 30000); k < n; k++) {
    Groops g;
    rand_groops(r, g, k);
    int lo = 1000;
    for (auto &x : g.w) lo = std::min({lo, x.c.deg, x.s.deg});
    const int dn = r.coin(.6) ? -1 : (int)r.in(0, lo + 1), dm = r.coin(.6) ? -1 : (int)r.in(0, dn < 0 ? lo : dn + (r.coin(.2) ? 1 : 0));
    ctx("case %ld: %zu waves, model [%s], directory of %zu characters, asked %d %d", k, g.w.size(), g.model.c_str(), g.d.size(), dn, dm);
    const bool ok = dn <= lo && (dn < 0 || dm <= dn);
    std::unique_ptr<dso::TideAtlas> a;
    try { a.reset(new dso::TideAtlas(dso::groops_atlas(g.f1.c_str(), g.d.c_str(), dn, dm))); } catch (std::exception &) {}
    check(!!a == ok, "groops", "%s", a ? "accepted a degree and order the files do not have" : "refused well formed files");
    eval(hash(k, dn, dm));
    if (!a || !ok) { count("refused"); continue; }
    auto w = g.w;
    for (auto &x : w) {
      const int cd = dn < 0 ? x.c.deg : dn, sd = dn < 0 ? x.s.deg : dn;
      x.c = cut(x.c, cd, dm < 0 ? cd : dm), x.s = cut(x.s, sd, dm < 0 ? sd : dm);
    }
    for (auto &x : w) // files are read up to the last coefficient they list
      for (Field *f : {&x.c, &x.s}) {
        f->deg = f->ord = 0;
        for (auto &e : f->v) f->deg = std::max(f->deg, e.first.first), f->ord = std::max(f->ord, e.first.second);
      }
    check(a->waves().size() == w.size() && a->name() == g.name.substr(0, 63), "groops-atlas", "%zu waves [%s]", a->waves().size(), a->name());
    for (size_t i = 0; i < w.size() && i < a->waves().size(); i++) {
      const auto &x = a->waves()[i];
      check(x.doodson() == dood(w[i]) && x.name() == w[i].name.substr(0, 15), "groops-wave", "wave %zu is [%s]", i, x.name());
      same_field(x.stokes_cos(), w[i].c, w[i].c.deg, w[i].c.ord, "groops-cos"), same_field(x.stokes_sin(), w[i].s, w[i].s.deg, w[i].s.ord, "groops-sin");
    }
    try {
      if (r.coin()) {
        auto o = dso::groops_ocean_atlas(g.f1.c_str(), g.f2.c_str(), g.f3.c_str(), g.d.c_str(), dn, dm);
        const Eigen::MatrixXd A(o.admittance_matrix());
        const auto D = o.doodson_matrix();
        bool same = A.rows() == (long)g.adm.a.size() && A.cols() == (long)g.adm.d.size() && D.rows() == (long)g.adm.d.size();
        for (long i = 0; same && i < A.rows(); i++)
          for (long j = 0; j < A.cols(); j++) same = same && A(i, j) == g.adm.a[i][j];
        for (long j = 0; same && j < D.rows(); j++)
          for (int i = 0; i < 6; i++) same = same && D(j, i) == g.adm.d[j][i];
        check(same, "groops-matrices", "differ from the files");
        drive(r, o, w, &g.adm, 2, "groops-ocean-admittance"), count("with admittance");
      } else if (r.coin()) {
        auto o = dso::groops_ocean_atlas(g.f1.c_str(), g.d.c_str(), dn, dm);
        drive(r, o, w, nullptr, 2, "groops-ocean"), count("without admittance");
      } else {
        auto t = dso::groops_atmospheric_atlas(g.f1.c_str(), g.d.c_str(), dn, dm);
        const Moment m = moment(r);
        t.stokes_coeffs(m.tt, m.ut, m.f);
        compare(t.stokes_coeffs(), w, direct(w, m, true), "groops-atmosphere"), count("atmosphere");
      }
    } catch (std::exception &e) { check(false, "groops-model", "refused: %s", e.what()); }
  }
}
static void damaged() {
  Rng r(S().seed + 3);
  Quiet q;
  for (long k = 0, n = N(2000, 80000); k < n; k++) {
    Groops g;
    rand_groops(r, g, k);
    std::string l = list_text(r, g), d = doodson_text(r, g.adm), a = admit_text(r, g.adm);
    const int kind = (int)r.in(0, 13);
    bool mustthrow = true;
    auto line = [&](std::string &t, long i) { // drop line i
      size_t at = 0;
      while (i-- > 0) at = t.find('\n', at) + 1;
      t.erase(at, t.find('\n', at) + 1 - at);
    };
    switch (kind) {
    case 0: { // one part of a wave is missing from the list
      const std::string &f = g.files[r.in(0L, (long)g.files.size() - 1)];
      const size_t at = l.find(f);
      l.erase(at, f.size());
      break;
    }
    case 1: l += g.files[0] + " " + g.files[1] + "\n"; break; // twice
    case 2: l += "\n\n", mustthrow = false; break;             // empty lines
    case 10: { // blanks within a line; as many as there may be, all the waves or none
      const size_t at = l.find(' ', l.find("_cos"));
      if (at != std::string::npos) l.insert(at, std::string(r.in(1, 700), ' '));
      mustthrow = false;
      break;
    }
    case 3: {
      static const char *B[] = {"x", "x y", ".gfc .gfc", "_cos.gfc _sin.gfc", "__cos.gfc __sin.gfc", "a_b_c_cos.gfc a_b_c_sin.gfc", "m_255.55_x_cos.gfc m_255.55_x_sin.gfc", "m_255.555_x_cos.txt m_255.555_x_sin.txt", "m_255.555_x_tan.gfc m_255.555_x_cot.gfc", "cos.gfc sin.gfc"};
      l += std::string(B[r.in(0, 9)]) + "\n";
      break;
    }
    case 4: { // long names
      const std::string m(r.coin() ? (r.coin(.4) ? r.in(48, 50) : r.in(48, 600)) : 3, 'm'), c(m.size() == 3 ? (r.coin(.4) ? r.in(16, 18) : r.in(16, 600)) : 2, 'c');
      l += m + "_255.555_" + c + "_cos.gfc " + m + "_255.555_" + c + "_sin.gfc\n";
      break;
    }
    case 5: line(a, r.in(0L, (long)g.adm.a.size() - 1)); break; // a row too few
    case 6: a += a.substr(0, a.find('\n') + 1); break;          // a row too many
    case 7: line(d, r.in(0L, (long)g.adm.d.size() - 1)), mustthrow = g.adm.d.size() == 1; break;
    case 8: { // something that is not a number
      std::string &t = r.coin() ? a : d;
      const size_t at = t.find_first_of("0123456789", r.in(0L, (long)t.size() / 2));
      t[at] = 'x';
      if (&t == &a) mustthrow = false; // may end a number early
      mustthrow = mustthrow && &t == &d && (at == 0 || t[at - 1] == ' ' || t[at - 1] == '-');
      break;
    }
    case 11: break; // a file that is not there (below)
    case 12: { // an odd number of files, the odd one a repetition of neither
      const size_t at = l.rfind(' ', l.find_last_of('.'));
      l.erase(at), l += "\n";
      break;
    }
    case 13: { // a column too few
      size_t e = 0;
      for (long i = r.in(0L, (long)g.adm.a.size() - 1); i > 0; i--) e = a.find('\n', e) + 1;
      e = a.find('\n', e);
      const size_t b = a.find_last_of(' ', e);
      a.erase(b, e - b);
      break;
    }
    default:
      mustthrow = false;
      std::string &t = r.coin() ? l : r.coin() ? a : d;
      for (long i = r.in(1, 5); i > 0; i--) {
        const size_t at = r.in(0L, (long)t.size() - 1);
        if (r.coin()) t[at] = (char)r.in(0, 255);
        else t.insert(at, std::string(r.in(1, 8), "0123456789-+.e_ \n"[r.in(0, 16)]));
      }
    }
    put(g.f1, l), put(g.f2, d), put(g.f3, a);
    if (kind == 11) {
      const std::string F[] = {g.f1, g.f2, g.f3, g.d + "/" + g.files[r.in(0L, (long)g.files.size() - 1)]};
      remove(F[r.in(0, 3)].c_str());
    }
    ctx("kind %d: list %.300s doodson %.150s admittance %.200s", kind, l.c_str(), d.c_str(), a.c_str());
    eval(hash(k, kind));
    bool threw = false;
    try {
      auto o = dso::groops_ocean_atlas(g.f1.c_str(), g.f2.c_str(), g.f3.c_str(), g.d.c_str());
      if (kind == 10) check(o.atlas().waves().size() == g.w.size(), "blanks", "%zu of %zu waves", o.atlas().waves().size(), g.w.size());
      const Moment m = moment(r);
      (void)o.stokes_coeffs(m.tt, m.ut, m.f);
    } catch (std::exception &) { threw = true; }
    if (mustthrow) check(threw, "damaged", "accepted (kind %d)", kind);
    if (kind == 2) check(!threw, "empty-lines", "refused");
    count(threw ? "refused" : "accepted");
  }
}
int main(int c, char **v) { return run(c, v, {{"synthesis", synthesis}, {"appended", appended}, {"groops", groops}, {"damaged", damaged}}); }
