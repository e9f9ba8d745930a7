// AOD1B products: names, headers, block iteration, tidal waves, interpolated streams, damaged files.
#include "mon.hpp"
#include "aod1b.hpp"
#include "aod1b_data_stream.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <map>
#include <memory>
#include <sys/stat.h>
using namespace mon;
typedef dso::AOD1BCoefficientType Type;
typedef dso::Datetime<dso::nanoseconds> DT;

static std::string dir() { return S().scratch.empty() ? std::string("/tmp/aod1b_scratch") : S().scratch; }
static void put(const std::string &p, const std::string &t) {
  std::ofstream o(p, std::ios::binary);
  o << t;
}
// GPS seconds of day d (MJD) -> TT
static DT tt(long mjd, double sod) {
  const long ns = llround(sod * 1e9) + 51184000000L;
  return DT(dso::modified_julian_day((int)mjd), dso::nanoseconds(0)).add_seconds(dso::nanoseconds(ns));
}
static double r10(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.9e", v);
  return strtod(b, nullptr);
}
static std::string num(Rng &r, double v) {
  char b[64];
  snprintf(b, sizeof b, r.coin(.3) ? "%+.9e" : "%.9e", v);
  return b;
}
static std::string ymd(long mjd) {
  const auto d = dso::modified_julian_day((int)mjd).to_ymd();
  char b[32];
  snprintf(b, sizeof b, "%04d-%02d-%02d", d.yr().as_underlying_type(), d.mn().as_underlying_type(), d.dm().as_underlying_type());
  return b;
}
static std::string hms(long sod) {
  char b[32];
  snprintf(b, sizeof b, "%02ld:%02ld:%02ld", sod / 3600, sod / 60 % 60, sod % 60);
  return b;
}
struct Co {
  int n, m;
  double C, S;
};
struct Block {
  Type type;
  long mjd, sod;
  int nr;
  std::vector<Co> co;
  DT t() const { return tt(mjd, (double)sod); }
  int top(bool order) const {
    int k = 0;
    for (auto &c : co) k = std::max(k, order ? c.m : c.n);
    return k;
  }
};
struct File {
  std::string agency = "GFZ", satellite = "GRACE", sensor = "ACC", level = "1B", pressure = "SP";
  int deg = 4, errors = 0, norm = 1;
  double GM = .3986004415e15, Re = 6378136.3, flat = 298.257, omega = .7292115e-4;
  int nsets = -1;
  std::vector<Block> b;
};
static const char *TN[] = {"atm", "ocn", "glo", "oba"};
static std::string L(const char *k, const std::string &v) {
  char b[256];
  snprintf(b, sizeof b, "%-30s: ", k);
  return b + v + "\n";
}
static std::string g17(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.16e", v);
  return b;
}
static std::string stamp(long mjd, long sod) {
  char b[96];
  snprintf(b, sizeof b, "%.6f (%s %s.00)", (double)((mjd - 51544) * 86400L + sod - 43200), ymd(mjd).c_str(), hms(sod).c_str());
  return b;
}
static std::string header(Rng &r, const File &f, bool tidal, const std::string &wave) {
  std::string s = L("PRODUCER AGENCY", f.agency + std::string(r.in(0, 4), ' ')) + L("PRODUCER INSTITUTION", "GFZ") + L("FILE TYPE ipAOD1BF", "999") + L("FILE FORMAT 0=BINARY 1=ASCII", "1") + L("NUMBER OF HEADER RECORDS", "29") + L("SOFTWARE VERSION", "atm_ocean_dealise.06") + L("SOFTWARE LINK TIME", "Not Applicable") + L("REFERENCE DOCUMENTATION", "GRACE AOD1B PDD") + L("SATELLITE NAME", f.satellite) + L("SENSOR NAME", f.sensor);
  if (!tidal) {
    s += L("TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00");
    const Block &a = f.b.front(), &z = f.b.back();
    s += L("TIME FIRST OBS(SEC PAST EPOCH)", stamp(a.mjd, a.sod)) + L("TIME LAST OBS(SEC PAST EPOCH)", stamp(z.mjd, z.sod));
  } else
    s += L("TIME FIRST OBS (YEAR START)", "2007") + L("TIME LAST OBS (YEAR END)", "2014");
  long rec = 0;
  for (auto &b : f.b) rec += (long)b.co.size();
  s += L("NUMBER OF DATA RECORDS", std::to_string(rec)) + L("PRODUCT START CREATE TIME(UTC)", "2018-01-01 00:00:00.000") + L("PRODUCT END CREATE TIME(UTC)", "2018-01-01 00:00:00.000") + L("FILESIZE (BYTES)", "1234") + L("FILENAME", "AOD1B_2008-01-01_X_06.asc") + L("PROCESS LEVEL (1A OR 1B)", f.level);
  s += L(tidal ? "PRESSURE TYPE (ATM OR OCN)" : "PRESSURE TYPE (SP OR VI)", f.pressure) + L("MAXIMUM DEGREE", std::to_string(f.deg)) + L("COEFFICIENTS ERRORS (YES/NO)", f.errors ? "YES" : "NO") + L("COEFF. NORMALIZED (YES/NO)", f.norm ? "YES" : "NO");
  s += L("CONSTANT GM [M^3/S^2]", g17(f.GM)) + L("CONSTANT A [M]", g17(f.Re)) + L("CONSTANT FLAT [-]", g17(f.flat)) + L("CONSTANT OMEGA [RAD/S]", g17(f.omega));
  if (tidal) s += L("PARTIAL TIDE", wave);
  s += L("NUMBER OF DATA SETS", std::to_string(f.nsets < 0 ? (int)f.b.size() : f.nsets)) + L("DATA FORMAT (N,M,C,S)", "(2(I3,x),E15.9,x,E15.9)");
  return s + "END OF HEADER\n";
}
static std::string lines(Rng &r, const Block &b, bool sign) {
  std::string s;
  for (auto &c : b.co) {
    auto one = [&](double v) {
      if (sign) return num(r, v);
      char q[64];
      snprintf(q, sizeof q, "%.9e", v);
      return std::string(q);
    };
    char h[32];
    snprintf(h, sizeof h, "%3d %3d ", c.n, c.m);
    s += h + std::string(r.in(0, 2), ' ') + one(c.C) + std::string(r.in(1, 3), ' ') + one(c.S) + "\n";
  }
  return s;
}
static std::string text(Rng &r, const File &f) {
  std::string s = header(r, f, false, "");
  for (auto &b : f.b) {
    char h[128];
    snprintf(h, sizeof h, "DATA SET %02d: %7zu COEFFICIENTS FOR %s %s OF TYPE %s\n", b.nr, b.co.size(), ymd(b.mjd).c_str(), hms(b.sod).c_str(), TN[(int)b.type]);
    s += h + lines(r, b, true);
  }
  return s;
}
static void fill(Rng &r, Block &b, int deg, bool full) {
  b.co.clear();
  for (int n = 0; n <= deg; n++)
    for (int m = 0; m <= n; m++)
      if (full || r.coin(.9) || n == deg) b.co.push_back({n, m, r10(r.wide(-14, -8)), m ? r10(r.wide(-14, -8)) : 0});
  // the order of lines carries no meaning
  if (r.coin(.3))
    for (size_t i = b.co.size(); i > 1; i--) std::swap(b.co[i - 1], b.co[r.in(0L, (long)i - 1)]);
}
// epochs `step` seconds apart, `types` at each of them
static File rand_file(Rng &r, long mjd, long first, long step, int epochs, int deg, const std::vector<Type> &types, bool full) {
  File f;
  f.deg = deg;
  for (int e = 0; e < epochs; e++)
    for (auto ty : types) {
      Block b;
      const long s = first + e * step;
      b.type = ty, b.mjd = mjd + s / 86400, b.sod = s % 86400, b.nr = (int)f.b.size() + 1;
      fill(r, b, deg, full);
      f.b.push_back(b);
    }
  return f;
}
static std::vector<Type> some_types(Rng &r) {
  std::vector<Type> t{Type::ATM, Type::OCN, Type::GLO, Type::OBA};
  for (size_t i = 4; i > 1; i--) std::swap(t[i - 1], t[r.in(0L, (long)i - 1)]);
  t.resize(r.in(1, 4));
  return t;
}
static bool same_cs(const dso::StokesCoeffs &cs, const Block &b, int deg, int ord, const char *key) {
  std::map<std::pair<int, int>, Co> ref;
  for (auto &c : b.co)
    if (c.n <= deg && c.m <= ord) ref[{c.n, c.m}] = c;
  bool ok = true;
  for (int m = 0; m <= cs.max_order(); m++)
    for (int n = m; n <= cs.max_degree(); n++) {
      auto it = ref.find({n, m});
      const double C = it == ref.end() ? 0 : it->second.C, Sn = it == ref.end() ? 0 : it->second.S;
      ok = ok && cs.C(n, m) == C && cs.S(n, m) == Sn;
      if (!ok) {
        check(false, key, "(%d,%d) got %.17g %.17g, the file has %.17g %.17g", n, m, cs.C(n, m), cs.S(n, m), C, Sn);
        return false;
      }
    }
  return check(true, key, "-");
}
static void same_header(const dso::Aod1bIn &a, const File &f, const std::string &fn, bool tidal) {
  check(a.agency() == f.agency.substr(0, 19) && a.satellite() == f.satellite.substr(0, 19) && a.sensor() == f.sensor.substr(0, 19), "names", "agency [%s] satellite [%s] sensor [%s] expected [%s] [%s] [%s]", a.agency(), a.satellite(), a.sensor(), f.agency.c_str(), f.satellite.c_str(), f.sensor.c_str());
  check(a.process_level() == f.level && a.pressure_type() == f.pressure, "level", "[%s] [%s]", a.process_level(), a.pressure_type());
  check(a.file_type() == 999 && a.file_format() == 1 && a.num_header_records() == 29, "file-type", "%d %d %d", a.file_type(), a.file_format(), a.num_header_records());
  long rec = 0;
  for (auto &b : f.b) rec += (long)b.co.size();
  check(a.num_data_records() == rec && a.num_data_sets() == (int)f.b.size(), "records", "%d %d", a.num_data_records(), a.num_data_sets());
  check(a.max_degree() == f.deg && a.coeff_errors() == f.errors && a.coeff_normalized() == f.norm, "degree", "%d %d %d", a.max_degree(), a.coeff_errors(), a.coeff_normalized());
  check(a.GM() == f.GM && a.Re() == f.Re && a.flat() == f.flat && a.omega() == f.omega, "constants", "%.17g %.17g %.17g %.17g", a.GM(), a.Re(), a.flat(), a.omega());
  check(a.fn() == fn, "fn", "[%s]", a.fn().c_str());
  if (!tidal) {
    check(a.time_epoch() == tt(51544, 43200), "time-epoch", "reference epoch is not 2000-01-01 12:00 GPS in TT");
    check(a.first_epoch() == f.b.front().t() && a.last_epoch() == f.b.back().t(), "span", "first %.9f last %.9f expected %.9f %.9f", a.first_epoch().fmjd(), a.last_epoch().fmjd(), f.b.front().t().fmjd(), f.b.back().t().fmjd());
  }
}
template <Type T> static void iterate(Rng &r, const File &f, const dso::Aod1bIn &a) {
  std::vector<const Block *> mine;
  for (auto &b : f.b)
    if (b.type == T) mine.push_back(&b);
  dso::Aod1bDataBlockIterator<T> it(a);
  const int passes = (int)r.in(1, 2);
  for (int p = 0; p < passes; p++) {
    bool threw = false;
    try { it.set_begin(); } catch (std::exception &) { threw = true; }
    check(threw == mine.empty(), "begin", "set_begin %s for a file with %zu blocks of type %s", threw ? "failed" : "succeeded", mine.size(), TN[(int)T]);
    if (threw) return;
    check(&it.aod1b() == &a && std::string(it.fn()) == a.fn(), "bound", "iterator refers to another file");
    dso::StokesCoeffs cs(f.deg, f.deg), big(f.deg + 2, f.deg + 2), rs(2, 1);
    const int stop = p + 1 < passes ? (int)r.in(0L, (long)mine.size()) : -1;
    int j = 0;
    for (size_t i = 0; i < mine.size() && !j && (int)i != stop; i++) {
      const Block &b = *mine[i];
      const auto &h = it.header();
      check(h.mepoch == b.t() && h.mset_nr == b.nr && h.mnum_lines == (int)b.co.size() && h.mtype == T, "block", "block %zu: got epoch %.9f nr %d lines %d, expected %.9f %d %zu", i, h.mepoch.fmjd(), h.mset_nr, h.mnum_lines, b.t().fmjd(), b.nr, b.co.size());
      check(!it.is_eof(), "early-eof", "at block %zu of %zu", i, mine.size());
      const int how = (int)r.in(0, 4);
      bool good = true;
      if (how == 0) it.skip();
      else if (how == 1) {
        const bool exact = b.top(false) == f.deg && b.top(true) == f.deg;
        const int st = it.collect(cs);
        check((st == 0) == exact, "collect", "returned %d", st);
        if (!st) same_cs(cs, b, f.deg, f.deg, "collected");
      } else if (how == 2) { // part of the block, in larger storage
        const int n = (int)r.in(0, f.deg), m = (int)r.in(0, n);
        int tn = 0, tm = 0;
        for (auto &c : b.co)
          if (c.n <= n && c.m <= m) tn = std::max(tn, c.n), tm = std::max(tm, c.m);
        const int st = it.collect(big, n, m);
        check((st == 0) == (tn == n && tm == m), "collect-part", "returned %d", st);
        if (!st) same_cs(big, b, n, m, "collected-part"), check(big.max_degree() == f.deg + 2 && big.max_order() == f.deg + 2, "resized", "without being asked to");
      } else if (how == 3) { // resizing
        const int n = (int)r.in(0, f.deg), m = (int)r.in(0, n);
        int tn = 0, tm = 0;
        for (auto &c : b.co)
          if (c.n <= n && c.m <= m) tn = std::max(tn, c.n), tm = std::max(tm, c.m);
        const int st = it.collect(rs, n, m, true);
        check(st == 0, "collect-resize", "returned %d", st);
        if (!st) check(rs.max_degree() == tn && rs.max_order() == tm, "size", "%dx%d expected %dx%d", rs.max_degree(), rs.max_order(), tn, tm) && same_cs(rs, b, n, m, "collected-resize");
      } else { // refused requests consume nothing
        dso::StokesCoeffs small(f.deg ? f.deg - 1 : 0, 0);
        if (f.deg) good = check(it.collect(small) != 0, "too-small", "accepted storage that is too small");
        if (f.deg) { // enough degrees, too few orders
          dso::StokesCoeffs low(f.deg + 1, (int)r.in(0, f.deg - 1));
          good = good && check(it.collect(low, f.deg, f.deg) != 0, "too-small", "accepted storage with too few orders");
        }
        good = good && check(it.collect(big, f.deg + 1, 0) != 0, "too-high", "accepted a degree the file does not have");
        if (f.deg) good = good && check(it.collect(big, 0, 1) != 0, "order", "accepted order > degree");
        it.skip();
      }
      (void)good;
      count(how == 0 ? "skipped" : how < 4 ? "collected" : "refused request");
      j = it.advance();
      const bool last = i + 1 == mine.size();
      check(j == (last ? -1 : 0), "advance", "returned %d at block %zu of %zu", j, i, mine.size());
      if (last) check(it.is_eof(), "no-eof", "after the last block");
    }
    eval(hash(T, mine.size(), f.deg, p, stop, S().evals));
  }
}
static void iteration() {
  Rng r(S().seed);
  Quiet q;
  std::unique_ptr<dso::Aod1bIn> prev;
  for (long k = 0, n = N(3000, 60000); k < n; k++) {
    const bool full = r.coin(.003); // the size of the products
    const int deg = full ? (int)r.in(100, 180) : r.coin(.05) ? (int)r.in(20, 60) : (int)r.in(0, 8);
    File f = rand_file(r, r.in(47892, 62000), r.in(0, 86399), r.coin() ? 10800 : r.in(1, 40000), full ? 1 : (int)r.in(1, 9), deg, some_types(r), r.coin());
    if (r.coin(.3)) { // unequal numbers of blocks per type
      for (int i = (int)r.in(1, 3); i > 0 && f.b.size() > 1; i--) f.b.erase(f.b.begin() + r.in(0L, (long)f.b.size() - 1));
      for (size_t i = 0; i < f.b.size(); i++) f.b[i].nr = (int)i + 1;
    }
    f.GM = r.real(3.9e14, 4e14), f.Re = r.real(6.3e6, 6.4e6), f.flat = r.real(297, 299), f.omega = r.real(7e-5, 8e-5);
    f.errors = r.coin(.2), f.norm = !r.coin(.2);
    f.agency = std::string(r.in(1, 40), 'A'), f.satellite = std::string(r.in(1, 30), 'B'), f.sensor = std::string(r.in(1, 30), 'C'), f.pressure = r.coin() ? "SP" : "VI";
    char name[64];
    const std::string fn = dir() + "/" + (snprintf(name, sizeof name, "f%ld.asc", k % 7), name);
    put(fn, text(r, f));
    ctx("file %ld: degree %d, %zu blocks from %s %s", k, deg, f.b.size(), ymd(f.b[0].mjd).c_str(), hms(f.b[0].sod).c_str());
    std::unique_ptr<dso::Aod1bIn> a;
    try { a.reset(new dso::Aod1bIn(fn.c_str())); } catch (std::exception &e) { check(false, "refused", "a well formed file: %s", e.what()); continue; }
    same_header(*a, f, fn, false);
    { // copies carry everything
      dso::Aod1bIn c(*a), d(std::move(c));
      same_header(d, f, fn, false);
      dso::Aod1bIn e(prev ? *prev : *a);
      e = d, same_header(e, f, fn, false);
      dso::Aod1bIn g(prev ? *prev : *a);
      g = std::move(e), same_header(g, f, fn, false);
      auto &gr = g;
      g = gr, same_header(g, f, fn, false);
    }
    iterate<Type::ATM>(r, f, *a), iterate<Type::OCN>(r, f, *a), iterate<Type::GLO>(r, f, *a), iterate<Type::OBA>(r, f, *a);
    sample("degree %d, %zu blocks, agency of %zu characters", deg, f.b.size(), f.agency.size());
    remove(fn.c_str());
    prev = std::move(a); // what the next ones are assigned over
  }
}
static void tidal() {
  Rng r(S().seed + 1);
  Quiet q;
  static const char *W[] = {"S1", "S2", "S3", "M2", "P1", "K1", "R2", "T2", "L2", "N2"};
  for (long k = 0, n = N(3000, 60000); k < n; k++) {
    File f;
    f.deg = (int)r.in(0, 12), f.pressure = r.coin() ? "ATM" : "OCN";
    f.b.resize(2);
    fill(r, f.b[0], f.deg, r.coin()), fill(r, f.b[1], f.deg, r.coin());
    const std::string w = W[r.in(0, 9)];
    const auto *e = dso::find_wave_entry(w.c_str());
    const std::string fn = dir() + "/tide.asc";
    std::string t = header(r, f, true, w);
    for (int i = 0; i < 2; i++) {
      char h[128];
      snprintf(h, sizeof h, "DATA SET %02d: %7zu COEFFICIENTS OF TYPE %s\n", i + 1, f.b[i].co.size(), i ? "sin" : "cos");
      t += h + lines(r, f.b[i], false);
    }
    const bool trailing = r.coin(.1);
    if (trailing) t += "  0   0 1.0 1.0\n";
    put(fn, t);
    ctx("tidal file %ld: wave %s degree %d", k, w.c_str(), f.deg);
    std::unique_ptr<dso::Aod1bIn> a;
    try { a.reset(new dso::Aod1bIn(fn.c_str())); } catch (std::exception &x) {}
    eval(hash(k, f.deg));
    check(!!a == !!e, "wave-known", "%s: %s", w.c_str(), a ? "accepted" : "refused");
    if (!a || !e) { count("unknown wave"); continue; }
    same_header(*a, f, fn, true);
    dso::Aod1bIn moved(*a);
    *a = std::move(moved);
    check(a->tidal_wave().doodson() == e->_d, "wave", "%s", w.c_str());
    check(a->first_epoch() == DT(dso::year(2007), dso::month(1), dso::day_of_month(1)) && a->last_epoch() == DT(dso::year(2014), dso::month(1), dso::day_of_month(1)), "years", "%.9f", a->first_epoch().fmjd());
    const int dn = r.coin() ? -1 : (int)r.in(0, f.deg), dm = r.coin() ? -1 : (int)r.in(0, r.coin() ? std::max(dn, 0) : f.deg), un = dn < 0 ? f.deg : dn, um = dm < 0 ? f.deg : dm;
    const int cn = (int)r.in(r.coin() ? f.deg : 0, f.deg + 2), sn = (int)r.in(r.coin() ? f.deg : 0, f.deg + 2);
    const int co = r.coin(.6) ? cn : (int)r.in(0, cn), so = r.coin(.6) ? sn : (int)r.in(0, sn);
    dso::StokesCoeffs c(cn, co), s(sn, so);
    for (int i = 0; i <= cn; i++) c.C(i, 0) = 77;
    const int st = a->get_tidal_wave_coeffs(c, s, dn, dm);
    const bool ok = um <= un && cn >= un && sn >= un && co >= um && so >= um;
    check((st == 0) == (ok && !trailing), "tidal", "returned %d (storage %dx%d %dx%d, asked %d %d)", st, cn, co, sn, so, dn, dm);
    if (!st) same_cs(c, f.b[0], un, um, "cos"), same_cs(s, f.b[1], un, um, "sin"), count("waves read");
    else count("waves refused");
  }
}
static void names() {
  Rng r(S().seed + 2);
  Quiet q;
  for (long k = 0, n = N(20000, 400000); k < n; k++) {
    const long mjd = r.in(47892, 70000);
    const int rl = (int)r.in(0, 99);
    const char sat = r.coin() ? 'X' : (char)r.in('A', 'Z');
    const bool gz = r.coin();
    char b[64];
    memset(b, '#', sizeof b);
    char e[64];
    snprintf(e, sizeof e, "AOD1B_%s_%c_%02d.asc%s", ymd(mjd).c_str(), sat, rl, gz ? ".gz" : "");
    ctx("%s", e);
    const auto d = dso::modified_julian_day((int)mjd).to_ymd();
    const char *p = dso::Aod1bNonTidalProductNaming::filename(d, rl, b, sat, gz);
    check(p == b && !strcmp(b, e) && b[gz ? 29 : 26] == '#', "name", "got [%.40s]", b);
    check(dso::Aod1bNonTidalProductNaming::filename(d, rl, sat, gz) == e, "name-string", "differs");
    check(dso::Aod1bNonTidalProductNaming::filename(d, rl) == std::string(e).substr(0, 17) + "X" + std::string(e).substr(18, 7), "name-default", "differs");
    std::string path = e;
    if (r.coin()) path = std::string(r.in(0, 3) ? "/data_01/x.y/" : "./") + path;
    check(dso::Aod1bNonTidalProductNaming::resolve_rl(path.c_str()) == rl, "rl", "%s", path.c_str());
    std::string bad = std::string(e).substr(0, r.in(0, 20));
    if (r.coin()) bad = "/a/AOD1B_2008-01-01_X_06.asc/" + bad;
    check(dso::Aod1bNonTidalProductNaming::resolve_rl(bad.c_str()) < 0, "rl-bad", "%s", bad.c_str());
    eval(hash(mjd, rl, sat, gz));
  }
}
// --- streams ------------------------------------------------------------------------------------
struct World {
  std::string d;
  std::vector<File> days;
  std::vector<std::string> fn;
  long mjd0;
  ~World() {
    for (auto &f : fn) remove(f.c_str());
    rmdir(d.c_str());
  }
};
template <Type T> static std::vector<const Block *> of(const File &f) {
  std::vector<const Block *> v;
  for (auto &b : f.b)
    if (b.type == T) v.push_back(&b);
  return v;
}
template <Type T> static void expect(const std::vector<const Block *> &all, const DT &t, const dso::StokesCoeffs &cs, const char *key) {
  size_t i = 0;
  while (i + 1 < all.size() && !(t >= all[i]->t() && t < all[i + 1]->t())) ++i;
  if (i + 1 >= all.size()) {
    check(false, "no-interval", "coefficients for an epoch outside the data");
    return;
  }
  auto sec = [](const DT &a, const DT &b) { return (long double)(a.imjd().as_underlying_type() - b.imjd().as_underlying_type()) * 86400e9L + ((long double)a.sec().as_underlying_type() - (long double)b.sec().as_underlying_type()); };
  const long double w = sec(t, all[i]->t()) / sec(all[i + 1]->t(), all[i]->t());
  std::map<std::pair<int, int>, std::pair<Co, Co>> m;
  for (auto &c : all[i]->co) m[{c.n, c.m}].first = c;
  for (auto &c : all[i + 1]->co) m[{c.n, c.m}].second = c;
  for (int o = 0; o <= cs.max_order(); o++)
    for (int d = o; d <= cs.max_degree(); d++) {
      const auto &p = m[{d, o}];
      const long double C = (1 - w) * p.first.C + w * p.second.C, Sn = (1 - w) * p.first.S + w * p.second.S;
      const double tolC = 1e-12 * (fabs(p.first.C) + fabs(p.second.C)) + 1e-300, tolS = 1e-12 * (fabs(p.first.S) + fabs(p.second.S)) + 1e-300;
      if (!near(cs.C(d, o), (double)C, tolC, key, "C") || !near(cs.S(d, o), (double)Sn, tolS, key, "S")) return;
    }
}
template <Type T> static void stream_one(Rng &r, long k) {
  World w;
  w.mjd0 = r.in(50000, 60000);
  w.d = dir() + "/s" + std::to_string(k);
  if (r.coin(.2)) w.d += std::string(r.in(150, 230), 'd');
  mkdir(w.d.c_str(), 0777);
  const bool large = r.coin(.01);
  const int ndays = (int)r.in(1, large ? 2 : 4), deg = large ? (int)r.in(6, 60) : (int)r.in(1, 5), rl = (int)r.in(1, 9);
  // steps of hours, any, or such that the last block is in the last minute of its day (in TT, on the next day)
  const long step = r.coin(.6) ? 10800 : r.coin(.7) ? r.in(600, 20000) : 86399 / r.in(4, 40);
  auto types = some_types(r);
  if (std::find(types.begin(), types.end(), T) == types.end()) types[0] = T;
  for (int d = 0; d < ndays; d++) {
    const int epochs = (int)((86400 - 1) / step) + 1;
    int use = d ? (r.coin(.1) ? 1 : epochs) : std::max(3, r.coin(.2) ? 3 : epochs);
    if (!d && use > epochs) use = epochs;
    File f = rand_file(r, w.mjd0 + d, 0, step, use, deg, types, true);
    char b[64];
    dso::Aod1bNonTidalProductNaming::filename(dso::modified_julian_day((int)(w.mjd0 + d)).to_ymd(), rl, b);
    w.fn.push_back(w.d + "/" + b);
    std::string t = text(r, f);
    if (!d && r.coin(.2)) { // the span of the header begins before the first block
      const size_t at = t.find(':', t.find("TIME FIRST OBS")) + 2;
      t.replace(at, t.find('\n', at) - at, stamp(w.mjd0 - 1, 86400 - r.in(1, 4000)));
    }
    put(w.fn.back(), t);
    w.days.push_back(f);
  }
  const bool withdir = r.coin(.7);
  typedef dso::Aod1bDataStream<T> St;
  std::unique_ptr<St> s;
  ctx("stream %ld: %d days from %s, step %ld s, degree %d, %s, type %s", k, ndays, ymd(w.mjd0).c_str(), step, deg, withdir ? "with a directory" : "one file", TN[(int)T]);
  try {
    s.reset(withdir ? new St(w.fn[0].c_str(), w.d.c_str()) : new St(w.fn[0].c_str()));
  } catch (std::exception &e) {
    check(false, "stream-refused", "%s", e.what());
    return;
  }
  auto first = of<T>(w.days[0]);
  const int st0 = s->initialize();
  check((st0 == 0) == (first.size() >= 3), "initialize", "returned %d for %zu blocks", st0, first.size());
  if (st0) { count("too few blocks"); return; }
  size_t cur = 0;                     // the file the stream is in
  DT head = first[0]->t();            // earliest epoch it can answer for: the file's start, or the buffer's
  std::vector<const Block *> all;
  for (auto &d : w.days)
    for (auto *b : of<T>(d)) all.push_back(b);
  std::vector<size_t> endof; // index one past the last block of each day
  {
    size_t e = 0;
    for (auto &d : w.days) endof.push_back(e += of<T>(d).size());
  }
  DT t = first[0]->t();
  const int queries = (int)r.in(5, 60);
  bool fed = false;
  size_t buf_lo = 0;
  for (int i = 0; i < queries; i++) {
    const int how = (int)r.in(0, 9);
    const DT last = all[endof[cur] - 1]->t();
    if (how < 5) t = t.add_seconds(dso::nanoseconds(r.in(0L, 3 * step) * 1000000000L + r.in(0, 999999999)));
    else if (how < 7) t = all[r.in(0L, (long)endof[cur] - 1)]->t(); // exactly at a block
    else if (how == 7) t = all[r.in(0L, (long)endof[cur] - 1)]->t().add_seconds(dso::nanoseconds(r.in(-1000000000L, 1000000000L) * r.in(0, step)));
    else if (how == 8) t = all[0]->t().add_seconds(dso::nanoseconds(-1 - r.in(0L, 5000000000L)));
    else t = last.add_seconds(dso::nanoseconds(-1));
    const int sd = r.coin(.8) ? deg : (int)r.in(0, deg);
    dso::StokesCoeffs cs(sd, r.coin(.7) ? sd : (int)r.in(0, sd));
    if (r.coin(.05)) { // moving the stream about changes nothing
      if (r.coin()) {
        std::unique_ptr<St> s2(new St(std::move(*s)));
        s = std::move(s2);
      } else {
        std::unique_ptr<St> s2(new St(w.fn[r.in(0L, (long)w.fn.size() - 1)].c_str()));
        *s2 = std::move(*s);
        s = std::move(s2);
      }
      count("moves");
    }
    if (r.coin(.05)) {
      dso::StokesCoeffs big(deg + 1);
      // the answer for an epoch just answered or not is refused, as the file has no such degree
      if (t >= all[buf_lo]->t() && t < last) check(s->coefficients_at(t, big) != 0, "too-large", "accepted");
    }
    const int st = s->coefficients_at(t, cs);
    eval(hash(k, i, t.fmjd() * 1e6));
    // which answers are possible
    if (t < last && t >= all[cur ? endof[cur - 1] : 0]->t()) {
      check(st == 0, "in-file", "refused an epoch within the file (returned %d)", st);
      if (!st) expect<T>(all, t, cs, "interpolated"), count("answers");
    } else if (t >= last) {
      const bool can = withdir && cur + 1 < w.days.size();
      const bool inside = can && t < all[endof[cur + 1] - 1]->t();
      check((st == 0) == inside, "next-file", "returned %d (file %zu of %zu, %s)", st, cur, w.days.size(), inside ? "covered by the next file" : "not covered");
      if (!st) expect<T>(all, t, cs, "interpolated-next");
      if (can) ++cur, fed = true, count("files continued");
      else count("beyond the data");
    } else {
      // before the file: an answer is possible from what is still held; if there is one, it is right
      if (!st) expect<T>(all, t, cs, "interpolated-held"), count("answers from held blocks");
      else count("before the data");
      if (t < all[0]->t()) check(st != 0, "before", "an answer for an epoch before all data");
    }
    check(s->stream().fn() == w.fn[cur], "current-file", "%s expected %s", s->stream().fn().c_str(), w.fn[cur].c_str());
    buf_lo = cur ? endof[cur - 1] : 0;
  }
  (void)fed;
  (void)head;
  count("streams");
}
static void stream() {
  Rng r(S().seed + 3);
  Quiet q;
  FILE *old = stdout;
  FILE *nul = fopen("/dev/null", "w");
  stdout = nul;
  for (long k = 0, n = N(1200, 50000); k < n; k++) {
    switch (r.in(0, 3)) {
    case 0: stream_one<Type::ATM>(r, k); break;
    case 1: stream_one<Type::OCN>(r, k); break;
    case 2: stream_one<Type::GLO>(r, k); break;
    default: stream_one<Type::OBA>(r, k);
    }
  }
  stdout = old;
  fclose(nul);
}
static void damaged() {
  Rng r(S().seed + 4);
  Quiet q;
  FILE *old = stdout;
  FILE *nul = fopen("/dev/null", "w");
  stdout = nul;
  const std::string fn = dir() + "/AOD1B_2008-01-01_X_06.asc";
  for (long k = 0, n = N(6000, 250000); k < n; k++) {
    File f = rand_file(r, 54466, 0, 10800, (int)r.in(1, 5), (int)r.in(0, 4), some_types(r), true);
    const bool tide = r.coin(.3);
    std::string t;
    if (tide) {
      f.b.resize(2);
      fill(r, f.b[1], f.deg, true);
      t = header(r, f, true, "S2");
      for (int i = 0; i < 2; i++) t += "DATA SET 0" + std::to_string(i + 1) + ": " + std::to_string(f.b[i].co.size()) + " COEFFICIENTS OF TYPE " + (i ? "sin" : "cos") + "\n" + lines(r, f.b[i], false);
    } else
      t = text(r, f);
    const size_t hl = t.find("END OF HEADER"), dl = t.find('\n', hl) + 1;
    const int kind = (int)r.in(0, 10);
    bool mustthrow = false, mustfail = false;
    std::vector<size_t> H; // where the blocks start
    for (size_t p = dl; (p = t.find("DATA SET", p)) != std::string::npos; p++) H.push_back(p);
    const size_t bi = r.coin(.3) ? 0 : (size_t)r.in(0L, (long)H.size() - 1), bl = f.b[bi].co.size();
    auto line_at = [&](size_t j) { // start of the j-th line of the block
      size_t a = H[bi];
      while (j--) a = t.find('\n', a) + 1;
      return a;
    };
    auto line_of = [&](const char *key, const std::string &v) {
      const size_t a = t.find(key), b = t.find(':', a) + 2, e = t.find('\n', b);
      if (a != std::string::npos) t.replace(b, e - b, v);
      return a != std::string::npos;
    };
    if (kind == 0) {
      static const char *K[] = {"MAXIMUM DEGREE", "FILE TYPE", "FILE FORMAT", "NUMBER OF HEADER RECORDS", "NUMBER OF DATA RECORDS", "CONSTANT GM", "CONSTANT A", "CONSTANT FLAT", "CONSTANT OMEGA", "NUMBER OF DATA SETS", "COEFFICIENTS ERRORS", "COEFF. NORMALIZED"};
      static const char *B[] = {"", "x", "YESNO", "--", "N"};
      mustthrow = line_of(K[r.in(0, 11)], B[r.in(0, 4)]);
    } else if (kind == 1) {
      static const char *K[] = {"TIME EPOCH", "TIME FIRST OBS", "TIME LAST OBS", "PARTIAL TIDE"};
      static const char *B[] = {"", "x", "0.0", "1e300 (", "252460800.0 (2008-13-01 00:00:00)", "2008-02-30 00:00:00", "(", "2008"};
      const int key = (int)r.in(0, 3), b = (int)r.in(0, 7);
      const bool there = line_of(K[key], B[b]);
      mustthrow = there && (!tide || b < 2 || key == 3);
    } else if (kind == 2) {
      static const char *K[] = {"PRODUCER AGENCY", "SATELLITE NAME", "SENSOR NAME", "PROCESS LEVEL", "PRESSURE TYPE"};
      line_of(K[r.in(0, 4)], r.coin() ? std::string(r.in(0, 140), ' ') : std::string(r.in(1, 140), 'y'));
    } else if (kind == 3) t.erase(hl), mustthrow = true;
    else if (kind == 4) { // a bad line within a block
      static const char *B[] = {"  0   1 1.0 1.0", " -1   0 1.0 1.0", "  0  -1 1.0 1.0", "x", "", "  0", "  0   0", "  0   0 1.0", "DATA SET 99:", "  0   0 x 1.0"};
      const size_t a = line_at((size_t)r.in(1L, (long)bl)), e = t.find('\n', a);
      t.replace(a, e - a, B[r.in(0, 9)]), mustfail = true;
    } else if (kind == 5) { // a bad header of a block
      static const char *B[] = {"DATA SET", "DATA SET 01", "DATA SET 01:", "DATA SET 01: x", "DATA SET 01: -5 COEFFICIENTS FOR 2008-01-01 00:00:00 OF TYPE atm", "DATA SET 01: 1 COEFFICIENTS", "DATA SET 01: 1 COEFFICIENTS FOR 2008-13-01 00:00:00 OF TYPE atm", "DATA SET 01: 1 COEFFICIENTS FOR 2008-01-01", "DATA SET 01: 1 COEFFICIENTS FOR 2008-01-01 00:00:00 OF TYPE xyz", "DATA SET 01: 1 COEFFICIENTS OF TYPE", "", "DATA SET 01: 1 COEFFICIENTS FOR 2008-01-01 00:00:00 OF_TYPE atm", "DATA SET 01: 1 COEFFICIENTZ FOR 2008-01-01 00:00:00 OF TYPE atm", "DATA SET O1: 1 COEFFICIENTS FOR 2008-01-01 00:00:00 OF TYPE atm", "DATA SET 01 1 COEFFICIENTS FOR 2008-01-01 00:00:00 OF TYPE atm", "DATA SET 01; 1 COEFFICIENTS FOR 2008-01-01 00:00:00 OF TYPE atm"};
      const size_t e = t.find('\n', H[bi]);
      t.replace(H[bi], e - H[bi], B[r.in(0, 15)]), mustfail = true;
    } else if (kind == 9) t.erase(line_at((size_t)r.in(tide ? 0L : 1L, (long)bl))), mustfail = true; // cut within the block
    else if (kind == 10) { // a count of lines that is not the block's
      const size_t a = t.find(':', H[bi]) + 1, e = t.find(" COEFF", a);
      const long c = (long)bl + (r.coin() ? 1 : -1);
      t.replace(a, e - a, " " + std::to_string(c)), mustfail = tide || c > (long)bl;
    } else if (kind == 6) t.resize(r.in(0L, (long)t.size()));
    else
      for (long i = r.in(1, 6); i > 0; i--) {
        const size_t at = r.in(kind == 7 ? 0L : (long)dl, (long)t.size() - 1);
        if (r.coin()) t[at] = (char)r.in(0, 255);
        else t.insert(at, std::string(r.in(1, 8), "0123456789-+.eD \n:"[r.in(0, 17)]));
      }
    put(fn, t);
    ctx("kind %d, file %s", kind, t.substr(kind >= 4 && kind != 6 ? dl : 0, 900).c_str());
    eval(hash(k, kind));
    std::unique_ptr<dso::Aod1bIn> a;
    try { a.reset(new dso::Aod1bIn(fn.c_str())); } catch (std::exception &) {}
    if (mustthrow) check(!a, "bad-header", "accepted");
    if (!a) { count("refused header"); continue; }
    check(strlen(a->agency()) < 20 && strlen(a->satellite()) < 20 && strlen(a->sensor()) < 20 && strlen(a->process_level()) < 4 && strlen(a->pressure_type()) < 16, "unterminated", "header text");
    if (a->max_degree() > 500) continue;
    dso::StokesCoeffs c(a->max_degree(), a->max_degree()), s(a->max_degree(), a->max_degree());
    if (tide) {
      if (r.coin(.1)) {
        remove(fn.c_str());
        check(a->get_tidal_wave_coeffs(c, s) != 0, "file-gone", "coefficients of a file that is not there");
        count("file gone");
        continue;
      }
      const int st = a->get_tidal_wave_coeffs(c, s);
      if (mustfail) check(st != 0, "bad-data", "accepted");
      count(st ? "refused data" : "accepted data");
      continue;
    }
    if (r.coin(.05)) { // the file goes away after its header has been read
      remove(fn.c_str());
      bool refused = false;
      try {
        dso::Aod1bDataBlockIterator<Type::ATM> it(*a);
        it.set_begin();
        refused = it.collect(c) != 0;
      } catch (std::exception &) { refused = true; }
      check(refused, "file-gone", "a block of a file that is not there");
      count("file gone");
      continue;
    }
    auto run = [&](auto tag) {
      constexpr Type T = decltype(tag)::value;
      dso::Aod1bDataBlockIterator<T> it(*a);
      int j = 0, bad = 0, blocks = 0;
      try { it.set_begin(); } catch (std::exception &) { bad = 1; }
      while (!bad && !j && blocks < 100) {
        if (r.coin()) bad = it.collect(c, -1, -1, r.coin());
        else it.skip();
        if (!bad) j = it.advance();
        ++blocks;
      }
      if (mustfail) { // what comes before the damage is delivered as it is, the damaged block never
        dso::Aod1bDataBlockIterator<T> i2(*a);
        std::vector<size_t> mine;
        for (size_t i = 0; i < f.b.size(); i++)
          if (f.b[i].type == T) mine.push_back(i);
        size_t done = 0;
        int end = 0;
        dso::StokesCoeffs d(a->max_degree(), a->max_degree());
        try {
          i2.set_begin();
          while (!end) {
            if ((end = i2.collect(d))) { end = 1; break; }
            if (done >= mine.size() || (f.b[mine[done]].type == T && mine[done] == bi)) { check(false, "damaged-block", "kind %d: block %zu of %s delivered, %zu damaged", kind, done, TN[(int)T], bi); break; }
            if (mine[done] < bi || kind == 4) same_cs(d, f.b[mine[done]], f.deg, f.deg, "before-damage");
            ++done;
            end = i2.advance();
          }
        } catch (std::exception &) { end = 1; }
        const bool later = !mine.empty() && mine.back() > bi, own = f.b[bi].type == T;
        // running off the end of a cut file cannot be told from its end, except within a block
        if (own || (kind == 5 && later)) check(end > 0, "damage-unreported", "kind %d in block %zu: the iteration over %s ended with %d", kind, bi, TN[(int)T], end);
        if (end > 0) count("reported damage");
      }
      count(bad || j > 0 ? "refused data" : "accepted data");
      try {
        dso::Aod1bDataStream<T> st(fn.c_str(), dir().c_str());
        if (!st.initialize()) {
          dso::StokesCoeffs e(a->max_degree(), a->max_degree());
          DT t = tt(54466, 0);
          for (int i = 0; i < 12; i++) (void)st.coefficients_at(t.add_seconds(dso::nanoseconds(r.in(-20, 200000) * 1000000000L)), e);
        }
      } catch (std::exception &) {}
    };
    run(std::integral_constant<Type, Type::ATM>()), run(std::integral_constant<Type, Type::OCN>()), run(std::integral_constant<Type, Type::GLO>()), run(std::integral_constant<Type, Type::OBA>());
  }
  bool threw = false;
  try { dso::Aod1bIn g("/nonexistent/x"); } catch (std::exception &) { threw = true; }
  check(threw, "missing", "accepted a missing file");
  remove(fn.c_str());
  stdout = old;
  fclose(nul);
}
// ---- the command line tools: the real scripts, run as a user runs them
static std::string q(const std::string &s) { return "'" + s + "'"; }
static int sh(const std::string &cmd) {
  fflush(stdout);
  const int st = system((cmd + " >/dev/null 2>&1 </dev/null").c_str());
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static std::string slurp(const std::string &p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
static std::map<std::string, std::string> tree(const std::string &d) {
  std::map<std::string, std::string> m;
  for (auto &e : std::filesystem::recursive_directory_iterator(d))
    if (e.is_regular_file()) m[std::filesystem::relative(e.path(), d).string()] = slurp(e.path().string());
  return m;
}
static void fresh(const std::string &d) {
  std::filesystem::remove_all(d);
  std::filesystem::create_directories(d);
}
static void merge() {
  Rng r(S().seed + 5);
  Quiet qq;
  const std::string base = dir() + "/merge";
  for (long k = 0, n = N(120, 3000); k < n; k++) {
    fresh(base), fresh(base + "/cwd"), fresh(base + "/out"), fresh(base + "/in");
    // consecutive files of unequal length, before or after 2000
    const int nf = (int)r.in(1, 5), deg = (int)r.in(0, 3);
    const auto types = some_types(r);
    long mjd = r.coin(.3) ? r.in(43000, 51500) : r.in(51600, 60000), first = r.in(0, 86399);
    const long step = r.coin() ? 10800 : r.in(1, 40000);
    std::vector<File> f;
    File all;
    const bool absolute = r.coin(), sub = r.coin(), ext = r.coin(.8);
    std::vector<std::string> arg;
    for (int i = 0; i < nf; i++) {
      File g = rand_file(r, mjd, first, step, (int)r.in(1, 4), deg, types, true);
      if (i) g.nsets = -1;
      first += step * (long)(g.b.size() / types.size()) + r.in(0, 100000);
      if (!i) all = g;
      else all.b.insert(all.b.end(), g.b.begin(), g.b.end());
      char nm[64];
      snprintf(nm, sizeof nm, "AOD1B_%c_%03ld%s", (char)('A' + (i * 7 + k) % 26), r.in(0, 999), ext ? ".asc" : ".txt");
      const std::string rel = sub ? std::string("../in/") + nm : std::string(nm);
      const std::string path = base + "/cwd/" + rel;
      put(path, text(r, g));
      arg.push_back(absolute ? std::filesystem::canonical(path).string() : rel);
      f.push_back(g);
    }
    const std::string firstname = std::filesystem::path(arg[0]).filename().string();
    for (size_t i = arg.size(); i > 1; i--) std::swap(arg[i - 1], arg[r.in(0L, (long)i - 1)]);
    // sometimes one that must not be merged
    const int bad = nf > 1 && r.coin(.25) ? (int)r.in(1, 3) : 0;
    if (bad) {
      const std::string p = absolute ? arg[0] : base + "/cwd/" + arg[0];
      std::string t = slurp(p);
      const char *key = bad == 1 ? "CONSTANT GM" : bad == 2 ? "MAXIMUM DEGREE" : "END OF HEADER";
      const size_t at = t.find(key);
      if (bad == 3) t.resize(at);
      else {
        const size_t c = t.find(": ", at);
        t.replace(c + 2, t.find('\n', at) - c - 2, "7");
      }
      put(p, t);
    }
    auto before = tree(base);
    const bool out = r.coin(.7);
    std::string cmd = "cd " + q(base + "/cwd") + " && timeout 30 python3 " + q(std::string(VERIF_REPO) + "/bin/mergeAod1b.py") + " -f";
    for (auto &a : arg) cmd += " " + q(a);
    if (out) cmd += " -o " + q(r.coin() ? "../out" : base + "/out");
    ctx("%d files of %zu types, step %ld s: %s", nf, types.size(), step, cmd.c_str());
    const int e = sh(cmd);
    if (!check(e != 124, "hangs", "still running after 30 s")) break;
    const auto after = tree(base);
    for (auto &b : before) {
      auto it = after.find(b.first);
      check(it != after.end() && it->second == b.second, "input-changed", "%s", b.first.c_str());
    }
    if (bad) {
      check(e != 0, "mismatch-accepted", "kind %d merged", bad);
      count("refused merges");
      eval(hash(k, 7));
      continue;
    }
    if (!check(e == 0, "merge-failed", "exit status %d", e)) continue;
    const std::string want = (out ? "out/" : "cwd/") + firstname.substr(0, firstname.size() - 4) + ".merged" + (ext ? ".asc" : ".txt");
    if (!check(after.count(want) && after.size() == before.size() + 1, "outputs", "%zu files before, %zu after, %s %s", before.size(), after.size(), want.c_str(), after.count(want) ? "there" : "missing")) continue;
    // read back with the library: the blocks of all files, in time
    const std::string fn = base + "/" + want;
    bool threw = false;
    try {
      dso::Aod1bIn a(fn.c_str());
      same_header(a, all, fn, false);
      iterate<Type::ATM>(r, all, a), iterate<Type::OCN>(r, all, a), iterate<Type::GLO>(r, all, a), iterate<Type::OBA>(r, all, a);
    } catch (std::exception &) { threw = true; }
    check(!threw, "unreadable", "the library refuses the merged file");
    count("merged files");
    eval(hash(k, nf, all.b.size()), nf > 1);
    if (k % 40 == 0) sample("%d files, %zu blocks -> %s", nf, all.b.size(), want.c_str());
  }
}
static std::string gz(const std::string &s) {   // stored blocks
  uint32_t crc = ~0u;
  for (unsigned char ch : s) {
    crc ^= ch;
    for (int i = 0; i < 8; i++) crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0);
  }
  crc = ~crc;
  std::string o("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03", 10);
  size_t at = 0;
  do {
    const size_t len = std::min<size_t>(65535, s.size() - at);
    o += (char)(at + len == s.size()), o += (char)(len & 255), o += (char)(len >> 8), o += (char)(~len & 255), o += (char)(~len >> 8 & 255);
    o.append(s, at, len), at += len;
  } while (at < s.size());
  for (uint32_t v : {crc, (uint32_t)s.size()})
    for (int i = 0; i < 4; i++) o += (char)(v >> 8 * i & 255);
  return o;
}
// a stand-in of the FTP client: serves a directory, keeps a log, fails or dies where it is told to
static const char *FTPLIB = R"(import os
class Error(Exception): pass
error_perm = error_temp = error_reply = error_proto = Error
all_errors = (Error, OSError, EOFError)
n = 0
class FTP:
    def __init__(self, host='', *a, **k): self.h = host; self.d = '/'; self.log('connect ' + host)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def log(self, s):
        with open(os.environ['FAKE_LOG'], 'a') as f: f.write(s + '\n')
    def connect(self, host='', *a, **k): self.h = host; self.log('connect ' + host)
    def login(self, *a, **k): pass
    def cwd(self, d): self.d = os.path.join(self.d, d)
    def retrbinary(self, cmd, cb, blocksize=8192, rest=None):
        global n
        n += 1
        p = os.path.join(self.d, cmd.split(None, 1)[1])
        self.log('retr ' + p)
        try: s = open(os.environ['FAKE_ROOT'] + p, 'rb').read()
        except OSError: raise Error('550 no such file')
        if rest: s = s[rest:]
        how, nth, size = os.environ['FAKE_FAULT'].split()
        at = int(size) % (len(s) + 1) if n == int(nth) else len(s)
        step = max(1, min(blocksize, 97))
        for i in range(0, at, step): cb(s[i:min(i + step, at)])
        if n == int(nth):
            if how == 'raise': raise EOFError('lost connection')
            if how == 'kill': os.kill(os.getpid(), 9)
        return '226'
    def transfercmd(self, *a, **k): raise Error('502')
    def quit(self): self.log('quit')
    def close(self): pass
)";
static std::string noise(Rng &r, long n) { // does not compress
  std::string s(n, 0);
  for (auto &c : s) c = (char)r.in(32, 126);
  return s;
}
static void download() {
  Rng r(S().seed + 6);
  Quiet qq;
  const std::string base = dir() + "/download";
  for (long k = 0, n = N(110, 2500); k < n; k++) {
    fresh(base), fresh(base + "/out"), fresh(base + "/root"), fresh(base + "/py");
    put(base + "/py/ftplib.py", FTPLIB);
    const int rl = r.coin(.7) ? 6 : (int)r.in(4, 7), days = (int)r.in(1, 5);
    const long d0 = r.coin(.3) ? 51543 + 365 * r.in(-20, 20) : r.in(43000, 60000);
    struct Day { std::string name, path, gz, asc; int have; bool served, bad = false; };
    std::vector<Day> day;
    for (int i = -1; i <= days; i++) {   // and one day on either side
      Day d;
      const std::string y = ymd(d0 + i);
      char nm[64], rls[8];
      snprintf(rls, sizeof rls, "%02d", rl);
      snprintf(nm, sizeof nm, "AOD1B_%s_X_%s.asc", y.c_str(), rls);
      d.name = nm, d.path = std::string("/grace/Level-1B/GFZ/AOD/RL") + rls + "/" + y.substr(0, 4) + "/" + nm + ".gz";
      d.asc = "content of " + d.name + (r.coin(.7) ? std::string(r.in(0, 700), 'x') : noise(r, r.in(0, 300000))) + "\n", d.gz = gz(d.asc);
      if (r.coin(.06)) { // an archive that is broken where it comes from
        d.bad = true;
        if (r.coin()) d.gz.resize(r.in(0L, (long)d.gz.size() - 1));
        else d.gz[r.coin() ? r.in(15L, 34L) : (long)d.gz.size() - r.in(5L, 8L)] ^= (char)(1 << r.in(0, 7));
        if (d.gz.empty()) d.gz = "x";
      }
      d.served = r.coin(.97);
      std::filesystem::create_directories(std::filesystem::path(base + "/root" + d.path).parent_path());
      if (d.served) put(base + "/root" + d.path, d.gz);
      d.have = i < 0 || i == days ? 0 : r.coin(.2) ? (int)r.in(1, 3) : 0;   // already here: compressed, plain or both
      if (d.have & 1) put(base + "/out/" + d.name + ".gz", d.gz);
      if (d.have & 2) put(base + "/out/" + d.name, d.asc);
      if (i >= 0 && i < days) day.push_back(d);
    }
    const bool dcmp = r.coin(), noend = days == 1 && r.coin();
    std::string args = " -f " + ymd(d0) + (noend ? "" : " -t " + ymd(d0 + days)) + (rl == 6 && r.coin() ? "" : " -n " + std::to_string(rl)) + (dcmp ? " --decompress" : "") + " -o " + q(base + "/out");
    // an interrupted run first, then runs without faults until the files are there
    const int faults = (int)r.in(0, 2);
    for (int run = 0; run <= faults; run++) {
      const bool fault = run < faults;
      const auto before = tree(base + "/out");
      const std::string log = base + "/log";
      put(log, "");
      const std::string how = fault ? (r.coin() ? "raise " : "kill ") + std::to_string(r.in(1, days)) + " " + std::to_string(r.in(0, 2000)) : "none 0 0";
      const std::string cmd = "cd " + q(base) + " && FAKE_LOG=" + q(log) + " FAKE_ROOT=" + q(base + "/root") + " FAKE_FAULT=" + q(how) + " PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" + q(base + "/py") + " timeout 30 python3 " + q(std::string(VERIF_REPO) + "/bin/getAod1b.py") + args;
      ctx("%s", cmd.c_str());
      const int e = sh(cmd);
      if (!check(e != 124, "hangs", "still running after 30 s")) return;
      const auto after = tree(base + "/out");
      const std::string lg = slurp(log);
      bool all = true;
      long asked = 0;
      for (auto &d : day) {
        const bool had = before.count(d.name + ".gz") || before.count(d.name);
        size_t reqs = 0;
        for (size_t at = 0; (at = lg.find("retr " + d.path + "\n", at)) != std::string::npos; at++) reqs++;
        asked += (long)reqs;
        check(!had || reqs == 0, "fetched-twice", "%s was here", d.name.c_str());
        check(reqs <= 1, "fetched-twice", "%s asked for %zu times", d.name.c_str(), reqs);
        // whatever happened, a file with the name of a product is the product
        auto g = after.find(d.name + ".gz"), p = after.find(d.name);
        if (g != after.end()) check(g->second == d.gz, "incomplete", "%s.gz has %zu bytes of %zu", d.name.c_str(), g->second.size(), d.gz.size());
        if (p != after.end()) check(p->second == d.asc, "incomplete", "%s has %zu bytes of %zu", d.name.c_str(), p->second.size(), d.asc.size());
        const bool there = g != after.end() || p != after.end();
        all = all && there;
        if (e == 0) check(there && (!dcmp || p != after.end()), "missing", "%s after a successful run", d.name.c_str());
        for (auto x : {d.name, d.name + ".gz"}) check(!before.count(x) || after.count(x), "deleted", "%s", x.c_str());
      }
      size_t total = 0;
      for (size_t at = 0; (at = lg.find("retr ", at)) != std::string::npos; at++) total++;
      check((long)total == asked, "wrong-request", "%zu requests, %ld of them for the days asked: %s", total, asked, lg.c_str());
      check(lg.empty() || lg.find("connect isdcftp.gfz-potsdam.de\n") == 0, "wrong-server", "%s", lg.substr(0, 60).c_str());
      for (auto &a : after) {
        bool known = before.count(a.first) > 0;
        for (auto &d : day) known = known || a.first.compare(0, d.name.size(), d.name) == 0;
        check(known, "stray", "%s", a.first.c_str());
      }
      bool can = true;
      for (auto &d : day) {
        const bool g = before.count(d.name + ".gz"), p = before.count(d.name);
        can = can && (g || p || d.served) && !(dcmp && d.bad && (g || !p));
      }
      if (!fault) check((e == 0) == can, "status", "exit status %d, all files %s", e, can ? "available" : "not available");
      else if (!all) check(e != 0, "status", "success, but not all files are here");
      count(fault ? "interrupted runs" : "runs");
      eval(hash(k, run), days > 1 || fault);
    }
  }
}
int main(int c, char **v) { return run(c, v, {{"iteration", iteration}, {"tidal", tidal}, {"names", names}, {"stream", stream}, {"damaged", damaged}, {"merge", merge}, {"download", download}}); }
