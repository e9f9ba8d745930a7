// Earth orientation parameters: C04 files, interpolation, regularisation, tidal variations.
#include "mon.hpp"
#include "doodson.hpp"
#include "eop.hpp"
#include "fundarg.hpp"
#include "eop_tables.hpp"
#include <fstream>
#include <memory>
using namespace mon;
typedef long double LD;
using dso::EopRecord;
using dso::EopSeries;
using dso::MjdEpoch;
typedef EopSeries::EopInterpolationResult Res;
static const LD PI = 3.14159265358979323846264338327950288L;
static const LD AS = PI / 648000;

static LD days(const MjdEpoch &a, const MjdEpoch &b) {
  return (LD)(a.imjd() - b.imjd()) + ((LD)a.sec_of_day<dso::seconds>() - (LD)b.sec_of_day<dso::seconds>()) / 86400;
}
static const double *vals(const EopRecord &r) {
  static double v[8];
  v[0] = r.xp(), v[1] = r.yp(), v[2] = r.dut(), v[3] = r.lod(), v[4] = r.dX(), v[5] = r.dY(), v[6] = r.xp_rate(), v[7] = r.yp_rate();
  return v;
}
static const char *NAME[8] = {"xp", "yp", "dut", "lod", "dX", "dY", "xp_rate", "yp_rate"};
static EopRecord record(Rng &r, const MjdEpoch &t) {
  EopRecord e;
  e.t() = t;
  e.xp() = r.sym() * .5, e.yp() = r.sym() * .5, e.dut() = r.sym() * .9, e.lod() = r.sym() * 3e-3;
  e.dX() = r.sym() * 1e-3, e.dY() = r.sym() * 1e-3, e.xp_rate() = r.sym() * 1e-2, e.yp_rate() = r.sym() * 1e-2;
  e.dat() = dso::dat(dso::modified_julian_day(t.tt2utc().imjd()));
  return e;
}
static EopRecord fresh() {
  EopRecord e;
  e.xp() = e.yp() = e.dut() = e.lod() = e.dX() = e.dY() = e.xp_rate() = e.yp_rate() = e.dat() = 1e30;
  return e;
}

// ------------------------------------------------------------------ interpolation
typedef std::vector<EopRecord> Vec;
static void check_query(const EopSeries &s, const Vec &v, const MjdEpoch &t, int degree) {
  EopRecord e = fresh();
  const Res res = s.interpolate(t, e, degree);
  check(e.t() == t, "epoch", "result has another epoch");
  const int n = (int)v.size();
  int hi = 0; // first record later than t
  while (hi < n && !(t < v[hi].t())) ++hi;
  bool exact = false;
  for (auto &r : v) exact = exact || r.t() == t;
  if (hi == 0 || hi == n) {
    const EopRecord &b = hi ? v[n - 1] : v[0];
    check(res == (hi ? Res::OutOfBoundsLater : Res::OutOfBoundsPrior), "bounds-status", "status %d outside the series", (int)res);
    check(EopSeries::out_of_bounds(res), "out_of_bounds", "out_of_bounds() is false");
    double x[8];
    memcpy(x, vals(b), sizeof x);
    for (int i = 0; i < 8; i++) same(vals(e)[i], x[i], "bounds-value", NAME[i]);
    count("outside");
    return;
  }
  const bool first = t == v[0].t(); // documented as a query prior to the series, where the nearest record is given
  int k = (degree + 1) / 2;
  const int want = k;
  while (k > hi || hi + k > n) --k;
  if (k < want) count("window_reduced");
  if (!(first && res == Res::OutOfBoundsPrior)) {
    const Res ex = k == 1 ? Res::Linear : (2 * k == degree + 1 ? Res::PolyDegreeRequested : Res::PolyDegreeDescreased);
    check(res == ex, "status", "status %d, expected %d (n=%d later=%d degree=%d)", (int)res, (int)ex, n, hi, degree);
    check(!EopSeries::out_of_bounds(res), "out_of_bounds", "out_of_bounds() is true");
  }
  LD sum[8] = {0}, mag[8] = {0};
  for (int j = hi - k; j < hi + k; j++) {
    LD L = 1;
    for (int m = hi - k; m < hi + k; m++)
      if (m != j) L *= days(t, v[m].t()) / days(v[j].t(), v[m].t());
    double x[8];
    memcpy(x, vals(v[j]), sizeof x);
    x[2] -= v[j].dat();
    for (int i = 0; i < 8; i++) sum[i] += L * (LD)x[i], mag[i] += fabsl(L * x[i]);
  }
  sum[2] += dso::dat(dso::modified_julian_day(t.tt2utc().imjd()));
  mag[2] += 40;
  for (int i = 0; i < 8; i++)
    near(vals(e)[i], (double)sum[i], 1e-11 * (double)mag[i] + 1e-16, (std::string("interp-") + NAME[i]).c_str(), NAME[i]);
  if (exact) count("node");
  count("inside");
}
static void check_linear(const EopSeries &s, const Vec &v, const MjdEpoch &t) {
  double d = 1e30;
  const Res res = s.approx_dut1(t, d);
  const int n = (int)v.size();
  int hi = 0;
  while (hi < n && !(t < v[hi].t())) ++hi;
  if (hi == 0 || hi == n) {
    check(res == (hi ? Res::OutOfBoundsLater : Res::OutOfBoundsPrior), "approx-status", "status %d", (int)res);
    same(d, hi ? v[n - 1].dut() : v[0].dut(), "approx-bounds", "UT1-UTC");
    return;
  }
  check(res == Res::Linear || (t == v[0].t() && res == Res::OutOfBoundsPrior), "approx-status", "status %d", (int)res);
  const EopRecord &a = v[hi - 1], &b = v[hi];
  LD f = days(t, a.t()) / days(b.t(), a.t());
  LD x = ((LD)a.dut() - a.dat()) * (1 - f) + ((LD)b.dut() - b.dat()) * f + dso::dat(dso::modified_julian_day(t.tt2utc().imjd()));
  near(d, (double)x, 1e-12, "approx", "UT1-UTC");
  count("linear");
}
static MjdEpoch some_epoch(Rng &r, const Vec &v) {
  const int n = (int)v.size();
  const MjdEpoch &a = v[r.in(0, n - 1)].t();
  switch (r.in(0, 5)) {
  case 0: return a;
  case 1: return a.add_seconds(dso::FractionalSeconds(r.coin() ? 1e-3 : -1e-3));
  case 2: return MjdEpoch(v[0].t().imjd() + (int)r.in(-40, 0), dso::FractionalSeconds(r.real(0, 86400)));
  case 3: return MjdEpoch(v[n - 1].t().imjd() + (int)r.in(0, 40), dso::FractionalSeconds(r.real(0, 86400)));
  default: return a.add_seconds(dso::FractionalSeconds(r.real(-2, 2) * 86400));
  }
}
static Vec make_vec(Rng &r, int n) {
  Vec v;
  static const int at[] = {41499, 45151, 49169, 51179, 53736, 54832, 56109, 57204, 57754};
  int mjd = r.coin(.5) ? at[r.in(0, 8)] - (int)r.in(0, n) : (int)r.in(41400, 61000);
  const int kind = (int)r.in(0, 3); // daily at 0h UTC, six hourly, irregular, daily TT
  MjdEpoch t;
  double step = 0;
  for (int i = 0; i < n; i++) {
    if (kind == 0) t = dso::TwoPartDateUTC(mjd + i, dso::FractionalSeconds(0)).utc2tt();
    else if (kind == 1) t = dso::TwoPartDateUTC(mjd + i / 4, dso::FractionalSeconds((i % 4) * 21600.)).utc2tt();
    else if (kind == 2) { t = MjdEpoch(mjd, dso::FractionalSeconds(step)); step += r.real(.2, 2.) * 86400; }
    else t = MjdEpoch(mjd + i, dso::FractionalSeconds(0));
    v.push_back(record(r, t));
  }
  return v;
}
static void interp() {
  Rng r(S().seed);
  for (long i = 0, n = N(900, 20000); i < n; i++) {
    struct Obj { std::unique_ptr<EopSeries> s; Vec v; };
    std::vector<Obj> pool;
    auto add = [&] {
      Obj o;
      o.s.reset(new EopSeries);
      o.v = make_vec(r, (int)r.in(1, r.coin() ? 4 : 30));
      if (r.coin()) o.s->reserve((int)r.in(0, 40));
      for (auto &e : o.v) o.s->push_back(e);
      pool.push_back(std::move(o));
    };
    add();
    uint64_t h = hash(i);
    for (int st = 0, m = (int)r.in(10, 60); st < m; st++) {
      const int k = (int)r.in(0, pool.size() - 1), op = (int)r.in(0, 12);
      Obj &o = pool[k];
      ctx("history %ld step %d op %d object %d records %zu", i, st, op, k, o.v.size());
      if (op == 0 && pool.size() < 4) add();
      else if (op == 1 && pool.size() < 5) { // a copy, the original may go away later
        Obj c;
        c.s.reset(new EopSeries(*o.s)), c.v = o.v;
        pool.push_back(std::move(c));
      } else if (op == 2 && pool.size() > 1) pool.erase(pool.begin() + k);
      else if (op == 3) { // append, which may reallocate
        EopRecord e = record(r, o.v.back().t().add_seconds(dso::FractionalSeconds(r.real(.2, 2.) * 86400)));
        o.s->push_back(e), o.v.push_back(e);
      } else if (op == 4) { // refill
        o.s->clear();
        check(o.s->num_entries() == 0, "clear", "%d entries left", o.s->num_entries());
        { // no record at all: out of bounds
          EopRecord e = fresh();
          double d = 0;
          const MjdEpoch t = some_epoch(r, o.v);
          EopSeries none;
          if (r.coin()) o.s->clear();
          const EopSeries &w = r.coin() ? *o.s : none;
          const Res a = w.interpolate(t, e, (int)r.in(1, 9)), b = w.approx_dut1(t, d);
          check(EopSeries::out_of_bounds(a) && EopSeries::out_of_bounds(b), "empty", "status %d %d of an empty series", (int)a, (int)b);
          count("empty");
        }
        o.v = make_vec(r, (int)r.in(1, 30));
        for (auto &e : o.v) o.s->push_back(e);
        if (r.coin()) o.s->reset_vec_iterator();
      } else if (op == 12 && r.coin()) { // moved or swapped; the moved-from one is refilled
        const int q = (int)r.in(0, pool.size() - 1);
        if (q == k) continue;
        if (r.coin()) std::swap(*o.s, *pool[q].s), std::swap(o.v, pool[q].v);
        else {
          if (r.coin()) *pool[q].s = std::move(*o.s);
          else pool[q].s.reset(new EopSeries(std::move(*o.s)));
          pool[q].v = o.v;
          o.s->clear();
          o.v = make_vec(r, (int)r.in(1, 30));
          for (auto &e : o.v) o.s->push_back(e);
        }
      } else if (op == 5) { // assignment, also to itself
        const int q = (int)r.in(0, pool.size() - 1);
        const EopSeries &src = *pool[q].s;
        *o.s = src;
        if (q != k) o.v = pool[q].v;
      } else {
        check(o.s->num_entries() == (int)o.v.size(), "entries", "%d entries, not %zu", o.s->num_entries(), o.v.size());
        check(o.s->first_epoch() == o.v.front().t() && o.s->last_epoch() == o.v.back().t(), "ends", "first or last epoch");
        MjdEpoch t = some_epoch(r, o.v);
        for (int q = (int)r.in(1, 6); q--;) {
          const int deg = (int)r.in(1, 9);
          ctx("history %ld step %d records %zu t=%d+%.6fs degree %d", i, st, o.v.size(), t.imjd(), t.sec_of_day<dso::seconds>(), deg);
          if (r.coin(.2)) check_linear(*o.s, o.v, t);
          else check_query(*o.s, o.v, t, deg);
          if (r.coin(.1)) {
            EopRecord a = fresh(), b = fresh();
            const Res ra = o.s->interpolate(t, a), rb = o.s->interpolate(t, b, 5);
            double x[8];
            memcpy(x, vals(a), sizeof x);
            check(ra == rb && !memcmp(x, vals(b), sizeof x), "default-degree", "differs from degree 5");
          }
          auto ub = static_cast<const EopSeries &>(*o.s).upper_bound(t);
          const long idx = ub - o.s->give_me_the_vector().begin();
          long ex = 0;
          while (ex < (long)o.v.size() && !(t < o.v[ex].t())) ++ex;
          check(idx == ex, "upper_bound", "upper_bound %ld, expected %ld", idx, ex);
          h = hash(h, bits(t.sec_of_day<dso::seconds>()), deg);
          eval(h, o.v.size() > 1);
          t = r.coin(.7) ? t.add_seconds(dso::FractionalSeconds(r.real(-1, 5) * 3600)) : some_epoch(r, o.v);
        }
      }
    }
    if (i < 2) sample("%s", S().ctx);
  }
}
// a smooth function is reproduced: polynomials up to the degree exactly, also across a leap second
static void poly() {
  Rng r(S().seed + 1);
  for (long i = 0, n = N(3000, 50000); i < n; i++) {
    const int deg = 1 + 2 * (int)r.in(0, 4), mjd = (int)(r.coin() ? 57754 - r.in(2, 20) : r.in(42000, 60000)), cnt = (int)r.in(12, 24);
    double c[8][10];
    for (auto &a : c)
      for (int j = 0; j < 10; j++) a[j] = j <= deg ? r.sym() / std::pow(8., j) : 0;
    auto f = [&](int q, const MjdEpoch &t) {
      LD x = days(t, MjdEpoch(mjd + 10, dso::FractionalSeconds(0))), s = 0;
      for (int j = 9; j >= 0; j--) s = s * x + c[q][j];
      return s;
    };
    EopSeries s;
    for (int j = 0; j < cnt; j++) {
      EopRecord e;
      e.t() = dso::TwoPartDateUTC(mjd + j, dso::FractionalSeconds(0)).utc2tt();
      e.dat() = dso::dat(dso::modified_julian_day(mjd + j));
      e.xp() = f(0, e.t()), e.yp() = f(1, e.t()), e.dut() = f(2, e.t()) + e.dat(), e.lod() = f(3, e.t());
      e.dX() = f(4, e.t()), e.dY() = f(5, e.t()), e.xp_rate() = f(6, e.t()), e.yp_rate() = f(7, e.t());
      s.push_back(e);
    }
    const MjdEpoch t(mjd + (int)r.in(5, cnt - 6), dso::FractionalSeconds(r.real(100, 86000)));
    ctx("series %ld degree %d from %d t=%d+%.3fs", i, deg, mjd, t.imjd(), t.sec_of_day<dso::seconds>());
    EopRecord e = fresh();
    const Res res = s.interpolate(t, e, deg);
    check(res == (deg == 1 ? Res::Linear : Res::PolyDegreeRequested), "poly-status", "status %d", (int)res);
    for (int q = 0; q < 8; q++) {
      double x = (double)(f(q, t) + (q == 2 ? dso::dat(dso::modified_julian_day(t.tt2utc().imjd())) : 0));
      near(vals(e)[q], x, 1e-11 * (1 + std::abs(x)) + 2e-12 * 40, "poly", NAME[q]);
    }
    eval(hash(i, mjd, deg));
    if (i < 2) sample("%s", S().ctx);
  }
}

// ------------------------------------------------------------------ tides
static void fargs_ref(const MjdEpoch &tt, LD *f) {
  LD t = ((LD)(tt.imjd() - 51544) + ((LD)tt.sec_of_day<dso::seconds>() - 43200) / 86400) / 36525;
  static const LD c[5][5] = {{485868.249036L, 1717915923.2178L, 31.8792L, 0.051635L, -0.00024470L},
                             {1287104.79305L, 129596581.0481L, -0.5532L, 0.000136L, -0.00001149L},
                             {335779.526232L, 1739527262.8478L, -12.7512L, -0.001037L, 0.00000417L},
                             {1072260.70369L, 1602961601.2090L, -6.3706L, 0.006593L, -0.00003169L},
                             {450160.398036L, -6962890.5431L, 7.4722L, 0.007702L, -0.00005939L}};
  for (int i = 0; i < 5; i++) f[i] = fmodl((((c[i][4] * t + c[i][3]) * t + c[i][2]) * t + c[i][1]) * t + c[i][0], 1296000) * AS;
}
template <class T> static void zont(const T *f, LD *o) {
  o[0] = o[1] = o[2] = 0;
  for (auto &z : ZONT) {
    LD a = 0;
    for (int i = 0; i < 5; i++) a += z.k[i] * (LD)f[i];
    o[0] += z.us * sinl(a) + z.uc * cosl(a), o[1] += z.ls * cosl(a) + z.lc * sinl(a), o[2] += z.os * cosl(a) + z.oc * sinl(a);
  }
  o[0] *= 100, o[1] *= 10; // microseconds, microseconds/day, 1e-14 rad/s
}
static void regularize() {
  Rng r(S().seed + 2);
  for (long i = 0, n = N(300, 5000); i < n; i++) {
    Vec v = make_vec(r, (int)r.in(1, 20));
    EopSeries s;
    for (auto &e : v) s.push_back(e);
    ctx("series %ld of %zu from %d", i, v.size(), v[0].t().imjd());
    s.regularize();
    for (size_t k = 0; k < v.size(); k++) {
      const EopRecord &e = s.give_me_the_vector()[k];
      LD f[5], o[3];
      fargs_ref(v[k].t(), f);
      zont(f, o);
      near(e.dut(), v[k].dut() - (double)o[0] * 1e-6, 2e-11, "regularize-dut", "UT1R");
      near(e.lod(), v[k].lod() - (double)o[1] * 1e-6, 2e-12, "regularize-lod", "LODR");
      check(e.t() == v[k].t(), "regularize-other", "epoch changed");
      double x[8];
      memcpy(x, vals(v[k]), sizeof x);
      for (int q : {0, 1, 4, 5, 6, 7}) same(vals(e)[q], x[q], "regularize-other", NAME[q]);
      same(e.dat(), v[k].dat(), "regularize-other", "dat");
    }
    s.deregularize();
    for (size_t k = 0; k < v.size(); k++) {
      near(s.give_me_the_vector()[k].dut(), v[k].dut(), 1e-14, "deregularize", "UT1");
      near(s.give_me_the_vector()[k].lod(), v[k].lod(), 1e-15, "deregularize", "LOD");
    }
    eval(hash(i, v.size(), v[0].t().imjd()));
    if (i < 2) sample("%s", S().ctx);
  }
  // secular pole
  for (long i = 0, n = N(2000, 20000); i < n; i++) {
    const MjdEpoch t = revisit<dso::FractionalSeconds>(r, MjdEpoch((int)r.in(40000, 65000), dso::FractionalSeconds(r.real(0, 86400))));
    ctx("secular pole at %d+%.3fs", t.imjd(), t.sec_of_day<dso::seconds>());
    auto p = dso::secular_pole(t);
    LD y = days(t, MjdEpoch(51544, dso::FractionalSeconds(43200))) / 365.25L;
    near(p.xs, (double)(55 + 1.677L * y), 1e-10, "secular", "xs");
    near(p.ys, (double)(320.5L + 3.460L * y), 1e-10, "secular", "ys");
    eval(hash(7, t.imjd(), bits(t.sec_of_day<dso::seconds>())));
  }
}
static void zonal() {
  Rng r(S().seed + 3);
  static const double RATE[5] = {1717915923.2178, 129596581.0481, 1739527262.8478, 1602961601.2090, -6962890.5431};
  { // RG_ZONT2 check values
    const double t = .07995893223819302;
    LD f[5];
    LD d = (LD)t * 36525 + 51544.5L;
    MjdEpoch e((int)d, dso::FractionalSeconds((double)((d - (int)d) * 86400)));
    fargs_ref(e, f);
    double g[5], u, l, o;
    for (int i = 0; i < 5; i++) g[i] = (double)f[i];
    check(dso::deop_zonal_tide(g, u, l, o) == 0, "rc", "status");
    near(u, 7.983287678576557467e-2 * 1e6, 1e-3, "published", "UT1");
    near(l, 5.035331113978199288e-5 * 1e6, 1e-6, "published", "LOD");
    near(o, -4.249711616463017e-14 * 1e14, 1e-6, "published", "omega");
    eval(1);
  }
  for (long i = 0, n = N(20000, 400000); i < n; i++) {
    double f[5], u = 1e30, l = 1e30, o = 1e30;
    for (double &x : f) x = r.coin(.9) ? r.real(0, 6.283185307179586) : r.real(-20, 20);
    static Stay<double> stay[5];
    for (int k = 0; k < 5; k++) stay[k](r, f[k], i % 3 ? .1 : .8);
    ctx("fargs %.17g %.17g %.17g %.17g %.17g", f[0], f[1], f[2], f[3], f[4]);
    check(dso::deop_zonal_tide(f, u, l, o) == 0, "rc", "status");
    LD e[3];
    zont(f, e);
    near(u, (double)e[0], 1e-5, "zonal-ut1", "UT1 [us]");
    near(l, (double)e[1], 1e-6, "zonal-lod", "LOD [us/d]");
    near(o, (double)e[2], 1e-8, "zonal-omega", "omega [1e-14 rad/s]");
    if (i < n / 8) { // LOD is minus the rate of UT1; omega follows LOD (62 terms, each rounded to 1e-4)
      double up[5], um[5], a, b, c, d, x;
      const double h = 0.002; // days
      for (int k = 0; k < 5; k++) {
        double w = RATE[k] * (double)AS / 36525 * h;
        up[k] = f[k] + w, um[k] = f[k] - w;
      }
      dso::deop_zonal_tide(up, a, x, d), dso::deop_zonal_tide(um, b, c, d);
      near(-(a - b) / (2 * h), l, .1, "lod-rate", "LOD against the rate of UT1 [us/d]");
      near(o, -.8439e-1 * l, 4e-3 + 2e-5 * std::abs(l), "omega-lod", "omega against LOD");
    }
    eval(hash(bits(f[0]), bits(f[1])));
    if (i < 2) sample("%s", S().ctx);
  }
}
// least squares identification of the sine and cosine coefficients of given lines in a function of the angles
typedef std::vector<std::vector<double>> Mat;
static void solve(Mat &A, Mat &B) { // Cholesky, B: columns of right hand sides
  const int n = (int)A.size();
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++) {
      double s = A[i][j];
      for (int k = 0; k < j; k++) s -= A[i][k] * A[j][k];
      A[i][j] = i == j ? std::sqrt(s) : s / A[j][j];
    }
  for (auto &b : B) {
    for (int i = 0; i < n; i++) {
      for (int k = 0; k < i; k++) b[i] -= A[i][k] * b[k];
      b[i] /= A[i][i];
    }
    for (int i = n; i--;) {
      for (int k = i + 1; k < n; k++) b[i] -= A[k][i] * b[k];
      b[i] /= A[i][i];
    }
  }
}
// coef[4][2*lines]: xp, yp, ut1, lod; sine then cosine of every line
static Mat identify(int (*fn)(const double *, double, double &, double &, double &, double &) noexcept,
                    const std::vector<std::array<int, 6>> &lines, Rng &r, int samples) {
  const int n = 2 * (int)lines.size();
  Mat A(n, std::vector<double>(n, 0)), B(4, std::vector<double>(n, 0));
  std::vector<std::pair<std::vector<double>, std::array<double, 4>>> obs;
  for (int s = 0; s < samples; s++) {
    double f[5], g = r.real(0, 6.283185307179586);
    for (double &x : f) x = r.real(0, 6.283185307179586);
    static Stay<double> stay[6];
    const double p = s % 3 ? .1 : .8; // others change one at a time
    for (int k = 0; k < 5; k++) stay[k](r, f[k], p);
    stay[5](r, g, p);
    std::array<double, 4> y{1e30, 1e30, 1e30, 1e30};
    ctx("fargs %.17g %.17g %.17g %.17g %.17g gmst %.17g", f[0], f[1], f[2], f[3], f[4], g);
    check(fn(f, g, y[0], y[1], y[2], y[3]) == 0, "rc", "status");
    std::vector<double> row(n);
    for (size_t l = 0; l < lines.size(); l++) {
      LD a = lines[l][0] * ((LD)g + PI);
      for (int k = 0; k < 5; k++) a += (LD)lines[l][k + 1] * f[k];
      row[2 * l] = (double)sinl(a), row[2 * l + 1] = (double)cosl(a);
    }
    for (int i = 0; i < n; i++) {
      for (int j = 0; j <= i; j++) A[i][j] += row[i] * row[j];
      for (int q = 0; q < 4; q++) B[q][i] += row[i] * y[q];
    }
    obs.push_back({row, y});
    eval(hash(bits(f[0]), bits(g)));
  }
  solve(A, B);
  for (auto &o : obs)
    for (int q = 0; q < 4; q++) {
      double v = 0;
      for (int i = 0; i < n; i++) v += o.first[i] * B[q][i];
      near(o.second[q], v, 1e-6, "other-lines", "value not explained by the lines of the model");
    }
  return B;
}
// multipliers of GMST+pi, l, l', F, D, Om of a Doodson number
static std::array<int, 6> delaunay(const int *n) {
  // tau = th - s, s = F + Om, h = s - D, p = s - l, N' = -Om, ps = s - D - l'
  const int t = n[0], s = n[1] - n[0], h = n[2], p = n[3], N = n[4], q = n[5];
  const int S_ = s + h + p + q; // multiplier of F + Om
  return {t, -p, -q, S_, -h - q, S_ - N};
}
// The published coefficients of the ocean tide lines (Tables 8.2 and 8.3 of the conventions), in the order of CNM:
// sine and cosine of xp, yp [uas], UT1, LOD [us]. What they are is derived above; this is to their last digit.
static const double OCEAN_TABLE[71][8] = {
  {0, 0.9, -0.9, -0.1, 0.4, -0.08, -0.4, -2.1},
  {0.1, 0.6, -0.6, 0.1, 0.19, -0.06, -0.3, -1.1},
  {0.3, 3.4, -3.4, 0.3, 1.03, -0.31, -1.7, -5.6},
  {0.1, 0.8, -0.8, 0.1, 0.22, -0.07, -0.4, -1.2},
  {0.5, 4.2, -4.1, 0.5, 1.19, -0.39, -2.1, -6.4},
  {1.2, 5, -5, 1.2, 0.97, -0.47, -2.7, -5.4},
  {6.2, 26.3, -26.3, 6.2, 5.12, -2.5, -14, -28.7},
  {0.2, 0.9, -0.9, 0.2, 0.17, -0.09, -0.5, -1},
  {1.3, 5, -5, 1.3, 0.91, -0.47, -2.7, -5.1},
  {-0.3, -0.8, 0.8, -0.3, -0.09, 0.07, 0.4, 0.5},
  {9.2, 25.1, -25.1, 9.2, 3.03, -2.28, -13.3, -17.7},
  {48.8, 132.9, -132.9, 48.8, 16.02, -12.07, -70.5, -93.6},
  {-0.3, -0.9, 0.9, -0.3, -0.1, 0.08, 0.5, 0.6},
  {-0.7, -1.7, 1.7, -0.7, -0.19, 0.15, 0.9, 1.1},
  {-0.4, -0.9, 0.9, -0.4, -0.08, 0.07, 0.5, 0.5},
  {-0.3, -0.6, 0.6, -0.3, -0.06, 0.05, 0.3, 0.4},
  {-1.6, -3.5, 3.5, -1.6, -0.31, 0.27, 1.7, 1.9},
  {-4.5, -9.6, 9.6, -4.5, -0.86, 0.75, 4.6, 5.2},
  {-0.9, -1.9, 1.9, -0.9, -0.17, 0.15, 0.9, 1},
  {-0.9, -1.8, 1.8, -0.9, -0.16, 0.14, 0.8, 1},
  {1.5, 3, -3, 1.5, 0.31, -0.19, -1.2, -2},
  {-0.3, -0.6, 0.6, -0.3, -0.06, 0.03, 0.2, 0.4},
  {26.1, 51.2, -51.2, 26.1, 5.51, -3.1, -19.4, -34.5},
  {-0.2, -0.4, 0.4, -0.2, -0.05, 0.02, 0.2, 0.3},
  {-0.6, -1.2, 1.2, -0.6, -0.13, 0.07, 0.4, 0.8},
  {1.5, 3, -3, 1.5, 0.35, -0.17, -1.1, -2.2},
  {-77.5, -151.7, 151.7, -77.5, -17.62, 8.55, 53.9, 111},
  {-10.5, -20.6, 20.6, -10.5, -2.39, 1.16, 7.3, 15.1},
  {0.2, 0.4, -0.4, 0.2, 0.05, -0.03, -0.2, -0.3},
  {-0.6, -1.2, 1.2, -0.6, -0.14, 0.06, 0.4, 0.9},
  {-1.1, -2.1, 2.1, -1.1, -0.27, 0.11, 0.7, 1.7},
  {-0.7, -1.4, 1.4, -0.7, -0.29, 0.04, 0.3, 1.9},
  {-3.5, -7.3, 7.3, -3.5, -1.61, 0.19, 1.2, 10.5},
  {-0.7, -1.4, 1.4, -0.7, -0.32, 0.04, 0.2, 2.1},
  {-0.4, -1.1, 1.1, -0.4, -0.41, -0.01, 0, 2.7},
  {-0.2, -0.5, 0.5, -0.2, -0.21, -0.01, 0, 1.4},
  {-1.1, -3.4, 3.4, -1.1, -1.44, -0.04, -0.3, 9.7},
  {-0.7, -2.2, 2.2, -0.7, -0.92, -0.02, -0.2, 6.2},
  {-0.1, -0.5, 0.5, -0.1, -0.19, 0, 0, 1.3},
  {0, -0.6, 0.6, 0, -0.4, -0.02, -0.2, 2.8},
  {0, -0.4, 0.4, 0, -0.25, -0.02, -0.1, 1.8},
  {-0.5, 0, 0.6, 0.2, -0.09, -0.01, -0.1, 1},
  {-1.3, -0.2, 1.5, 0.7, -0.22, -0.03, -0.4, 2.6},
  {-6.1, -1.6, 3.1, 3.4, -0.64, -0.18, -2.1, 7.4},
  {-7.6, -2, 3.4, 4.2, -0.74, -0.22, -2.6, 8.7},
  {-0.5, -0.1, 0.2, 0.3, -0.05, -0.02, -0.2, 0.6},
  {0.5, 0.1, -0.1, -0.3, 0.03, 0.01, 0.2, -0.4},
  {2.1, 0.5, -0.4, -1.2, 0.14, 0.06, 0.7, -1.7},
  {-56.9, -12.9, 11.1, 32.9, -3.79, -1.56, -18.6, 45.2},
  {-0.5, -0.1, 0.1, 0.3, -0.03, -0.01, -0.2, 0.4},
  {-11, -2.4, 1.9, 6.4, -0.7, -0.3, -3.6, 8.3},
  {-0.5, -0.1, 0.1, 0.3, -0.03, -0.01, -0.2, 0.4},
  {1, 0.1, -0.1, -0.6, 0.05, 0.02, 0.3, -0.6},
  {1.1, 0.1, -0.1, -0.7, 0.06, 0.03, 0.3, -0.7},
  {12.3, 1, -1.4, -7.3, 0.6, 0.27, 3.2, -7.3},
  {-330.2, -27, 37.6, 195.9, -16.19, -7.25, -86.8, 196.6},
  {-1, -0.1, 0.1, 0.6, -0.05, -0.02, -0.3, 0.6},
  {2.5, -0.3, -0.4, -1.5, 0.11, 0.03, 0.4, -1.4},
  {9.4, -1.4, -1.9, -5.6, 0.42, 0.12, 1.4, -5.3},
  {-2.4, 0.4, 0.5, 1.4, -0.11, -0.03, -0.4, 1.3},
  {-1, 0.2, 0.2, 0.6, -0.05, -0.01, -0.2, 0.6},
  {-8.5, 3.5, 3.3, 5.1, -0.44, -0.02, -0.2, 5.5},
  {-144.1, 63.6, 59.2, 86.6, -7.55, -0.16, -2, 94.8},
  {1.2, -0.6, -0.5, -0.7, 0.06, 0, 0, -0.8},
  {0.5, -0.2, -0.2, -0.3, 0.03, 0, 0, -0.3},
  {-38.5, 19.1, 17.7, 23.1, -2.1, 0.04, 0.5, 26.5},
  {-11.4, 5.8, 5.3, 6.9, -0.63, 0.01, 0.2, 7.9},
  {-1.2, 0.6, 0.6, 0.7, -0.07, 0, 0, 0.9},
  {-1.8, 1.8, 1.7, 1, -0.15, 0.04, 0.5, 1.9},
  {-0.8, 0.8, 0.8, 0.5, -0.06, 0.02, 0.2, 0.8},
  {-0.3, 0.6, 0.7, 0.2, -0.05, 0.02, 0.2, 0.6},
};
static void ocean() {
  Rng r(S().seed + 4);
  std::vector<std::array<int, 6>> lines;
  for (auto &c : CNM) lines.push_back(delaunay(c.n));
  // phase of every line at the reference epoch of the published spectrum
  const MjdEpoch t0 = dso::TwoPartDateUTC(37076, dso::FractionalSeconds(43200)).utc2tt();
  LD f0[5];
  fargs_ref(t0, f0);
  LD d = 37076.5L - 51544.5L, th = 2 * PI * (0.7790572732640L + 1.00273781191135448L * d), T = d / 36525;
  th += (0.014506L + 4612.156534L * T + 1.3915817L * T * T) * AS + PI;
  const int rep = (int)N(4, 20);
  for (int it = 0; it < rep; it++) {
    Mat B = identify(dso::deop_ocean_tide, lines, r, 700);
    for (size_t l = 0; l < lines.size(); l++) {
      const Cnm &c = CNM[l];
      const double *s = ORTHO_SP[c.m - 1];
      LD a0 = lines[l][0] * th;
      for (int k = 0; k < 5; k++) a0 += lines[l][k + 1] * f0[k];
      LD off = c.ph - (c.m % 2) * PI / 2 - a0;
      off = roundl(off / (PI / 2)) * (PI / 2);
      double co[3][2];
      for (int w = 0; w < 2; w++) { // argument at pi/2 and at 0
        LD al = (w ? 0 : PI / 2) + off;
        auto A = [&](int k) { return (double)(c.hs * cosl(al - 2 * k * (LD)c.fr)); };
        auto Bq = [&](int k) { return (double)(-c.hs * sinl(al - 2 * k * (LD)c.fr)); };
        double ap = A(1) + A(-1), am = A(1) - A(-1), bp = Bq(1) + Bq(-1), bm = Bq(1) - Bq(-1);
        double h[6] = {s[0] * A(0), s[0] * Bq(0), s[1] * A(0) - s[2] * ap, s[1] * Bq(0) - s[2] * bp,
                       s[3] * A(0) - s[4] * ap + s[5] * bm, s[3] * Bq(0) - s[4] * bp - s[5] * am};
        for (int q = 0; q < 3; q++) {
          co[q][w] = 0;
          for (int k = 0; k < 6; k++) co[q][w] += ORTHO_W[12 * q + 6 * (c.m - 1) + k] * h[k];
        }
      }
      ctx("ocean tide line %d%+d%+d%+d%+d%+d", c.n[0], c.n[1], c.n[2], c.n[3], c.n[4], c.n[5]);
      for (int q = 0; q < 3; q++) {
        double amp = std::hypot(co[q][0], co[q][1]), tol = q < 2 ? .15 + .006 * amp : .012 + .006 * amp;
        for (int w = 0; w < 2; w++)
          near(B[q][2 * l + w], co[q][w], tol, q == 0 ? "ocean-xp" : q == 1 ? "ocean-yp" : "ocean-ut1", w ? "cosine coefficient" : "sine coefficient");
      }
      for (int q = 0; q < 8; q++) near(B[q / 2][2 * l + q % 2], OCEAN_TABLE[l][q], 1e-3, "ocean-table", q % 2 ? "cosine coefficient" : "sine coefficient");
      // LOD = -dUT1/dt: of u sin + v cos with rate w it is w v sin - w u cos
      double amp = std::hypot(co[2][0], co[2][1]) * c.fr;
      near(B[3][2 * l], c.fr * co[2][1], .15 + .007 * amp, "ocean-lod", "sine coefficient");
      near(B[3][2 * l + 1], -c.fr * co[2][0], .15 + .007 * amp, "ocean-lod", "cosine coefficient");
      count("lines");
    }
  }
  sample("%s", S().ctx);
}
static void libration() {
  Rng r(S().seed + 5);
  std::vector<std::array<int, 6>> lines;
  for (auto &c : LIBR) lines.push_back({c.k[0], c.k[1], c.k[2], c.k[3], c.k[4], c.k[5]});
  const int rep = (int)N(10, 60);
  for (int it = 0; it < rep; it++) {
    Mat B = identify(dso::deop_libration, lines, r, 300);
    for (size_t l = 0; l < lines.size(); l++) {
      const Libr &c = LIBR[l];
      const double ex[4][2] = {{c.xs, c.xc}, {c.ys, c.yc}, {c.us, c.uc}, {c.ls, c.lc}};
      static const double tol[4] = {1e-3, 1e-3, 1e-3, 1e-3};
      static const char *key[4] = {"libration-xp", "libration-yp", "libration-ut1", "libration-lod"};
      ctx("libration line %d %d %d %d %d %d", c.k[0], c.k[1], c.k[2], c.k[3], c.k[4], c.k[5]);
      for (int q = 0; q < 4; q++)
        for (int w = 0; w < 2; w++) near(B[q][2 * l + w], ex[q][w], tol[q], key[q], w ? "cosine coefficient" : "sine coefficient");
      count("lines");
    }
  }
  sample("%s", S().ctx);
}

// ------------------------------------------------------------------ files
static std::string path(const char *n) { return (S().scratch.empty() ? std::string("/tmp") : S().scratch) + "/" + n; }
struct Line { std::string text; EopRecord rec; bool data; size_t mjd_end; };
static const char *H14[] = {"               EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)",
                            "                      INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE",
                            "                                    EOP (IERS) 14 C04 TIME SERIES                 "};
static const char *H20[] = {"# EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY) - INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE  ",
                            "# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled at 0h UTC     "};
static std::string text_of(const std::vector<Line> &ls) {
  std::string s;
  for (auto &l : ls) s += l.text + "\n";
  return s;
}
static void put(const std::string &p, const std::string &s) {
  std::ofstream o(p, std::ios::binary);
  o.write(s.data(), (std::streamsize)s.size());
}
static std::vector<Line> make_file(Rng &r, bool c20, int mjd, int n) {
  std::vector<Line> v;
  auto comment = [&](const std::string &t) { v.push_back({t, EopRecord(), false, 0}); };
  if (c20) for (auto t : H20) comment(t);
  else for (auto t : H14) comment(t);
  for (int i = (int)r.in(0, 8); i--;) comment(c20 ? "#  more text 12345" : r.coin() ? "   FORMAT(3(I4),I7,2(F11.6))" : "");
  const bool six = c20 && r.coin(.3);
  for (int i = 0; i < n; i++) {
    const int hr = six ? 6 * (i % 4) : 0, day = mjd + (six ? i / 4 : i);
    int y, m, d;
    dso::shim::ymd_of(day, y, m, d);
    auto six6 = [](double x) { return std::round(x * 1e6) / 1e6; };
    auto six7 = [](double x) { return std::round(x * 1e7) / 1e7; };
    EopRecord e;
    e.t() = dso::TwoPartDateUTC(day, dso::FractionalSeconds(hr * 3600.)).utc2tt();
    e.dat() = dso::dat(dso::modified_julian_day(day));
    e.xp() = six6(r.sym()), e.yp() = six6(r.sym()), e.dut() = six7(r.sym()), e.lod() = six7(r.sym() * 5e-3);
    e.dX() = six6(r.sym() * 1e-2), e.dY() = six6(r.sym() * 1e-2);
    e.xp_rate() = c20 ? six6(r.sym() * 1e-2) : 0, e.yp_rate() = c20 ? six6(r.sym() * 1e-2) : 0;
    char b[400];
    int k = c20 ? snprintf(b, sizeof b, "%4d%4d%4d%4d%10.2f", y, m, d, hr, day + hr / 24.) : snprintf(b, sizeof b, "%4d%4d%4d%7d", y, m, d, day);
    if (c20)
      snprintf(b + k, sizeof b - k, "%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f%12.6f%12.6f%12.7f%12.6f%12.6f%12.6f%12.6f%12.7f", e.xp(), e.yp(),
               e.dut(), e.dX(), e.dY(), e.xp_rate(), e.yp_rate(), e.lod(), .03, .03, .002, .0047, .002, 0., 0., .0014);
    else
      snprintf(b + k, sizeof b - k, "%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f", e.xp(), e.yp(), e.dut(), e.lod(), e.dX(),
               e.dY(), .03, .03, .002, .0014, .0047, .002);
    v.push_back({b, e, true, (size_t)k});
    if (r.coin(.03)) comment(r.coin() ? "" : "# remark 2000");
  }
  return v;
}
static void compare(const EopSeries &s, const std::vector<EopRecord> &ex, const char *key) {
  const auto &v = s.give_me_the_vector();
  if (!check(v.size() == ex.size(), key, "%zu records, expected %zu", v.size(), ex.size())) return;
  for (size_t i = 0; i < ex.size(); i++) {
    double x[8];
    memcpy(x, vals(ex[i]), sizeof x);
    check(std::abs((double)days(v[i].t(), ex[i].t())) < 1e-12, key, "record %zu: epoch %d+%.9f", i, v[i].t().imjd(), v[i].t().sec_of_day<dso::seconds>());
    for (int q = 0; q < 8; q++) near(vals(v[i])[q], x[q], 1e-15, key, NAME[q]);
    same(v[i].dat(), ex[i].dat(), key, "dat");
  }
}
static int parse(Rng &r, bool c20, const std::string &p, const MjdEpoch &a, const MjdEpoch &b, EopSeries &s) {
  if (r.coin()) return dso::parse_iers_C04(p.c_str(), a, b, s);
  return c20 ? dso::details::parse_iers_C0420(p.c_str(), a, b, s) : dso::details::parse_iers_C0414(p.c_str(), a, b, s);
}
static void files() {
  Rng r(S().seed + 6);
  Quiet q;
  const std::string p = path("eop");
  for (long i = 0, n = N(400, 6000); i < n; i++) {
    const bool c20 = r.coin();
    static const int at[] = {41499, 45151, 53736, 57754};
    const int cnt = (int)r.in(0, 60), mjd = r.coin(.3) ? at[r.in(0, 3)] - (int)r.in(0, 20) : (int)r.in(41400, 61000);
    auto f = make_file(r, c20, mjd, cnt);
    put(p, text_of(f));
    EopSeries s;
    for (int rep = 0; rep < 4; rep++) {
      MjdEpoch a, b;
      auto pick = [&] {
        std::vector<const Line *> d;
        for (auto &l : f) if (l.data) d.push_back(&l);
        if (!d.empty() && r.coin(.6)) { // at, just before or just after a record
          MjdEpoch t = d[r.in(0, d.size() - 1)]->rec.t();
          long w = r.in(-1, 1);
          return w ? t.add_seconds(dso::FractionalSeconds(w * 1e-3)) : t;
        }
        return MjdEpoch(mjd + (int)r.in(-10, 70), dso::FractionalSeconds(r.real(0, 86400)));
      };
      a = pick(), b = pick();
      if (b < a) std::swap(a, b);
      if (rep == 0) a = MjdEpoch(mjd - 10, dso::FractionalSeconds(0)), b = MjdEpoch(mjd + 100, dso::FractionalSeconds(0));
      ctx("C04/%d file %ld from %d, %d records, range %d+%.4f .. %d+%.4f", c20 ? 20 : 14, i, mjd, cnt, a.imjd(), a.sec_of_day<dso::seconds>(), b.imjd(), b.sec_of_day<dso::seconds>());
      std::vector<EopRecord> ex;
      for (auto &l : f) if (l.data && l.rec.t() >= a && l.rec.t() < b) ex.push_back(l.rec);
      const int rc = parse(r, c20, p, a, b, s);
      if (b <= a) check(rc != 0, "empty-range", "range accepted");
      else if (check(rc == 0, "rc", "status %d", rc)) {
        compare(s, ex, "parsed");
        if (!ex.empty()) check_query(s, ex, some_epoch(r, ex), (int)r.in(1, 9));
      }
      eval(hash(i, rep, bits(a.sec_of_day<dso::seconds>()), ex.size()), !ex.empty());
    }
    dso::details::IersEopFormat ft;
    check(dso::details::choose_c04_series(p.c_str(), ft) == 0 && ft == (c20 ? dso::details::IersEopFormat::C0420 : dso::details::IersEopFormat::C0414), "format",
          "wrong format");
    if (i < 2) sample("%s", S().ctx);
  }
  unlink(p.c_str());
}
static void damaged() {
  Rng r(S().seed + 7);
  Quiet q;
  const std::string p = path("eopbad");
  for (long i = 0, n = N(3000, 60000); i < n; i++) {
    const bool c20 = r.coin();
    const int cnt = (int)r.in(3, 12), mjd = (int)r.in(41400, 61000), kind = (int)r.in(0, 7);
    auto f = make_file(r, c20, mjd, cnt);
    std::vector<int> d;
    for (size_t k = 0; k < f.size(); k++) if (f[k].data) d.push_back((int)k);
    std::string &l = f[d[r.in(0, d.size() - 1)]].text;
    const size_t head = c20 ? 26 : 19;
    bool must = true;
    ctx("file %ld C04/%d kind %d", i, c20 ? 20 : 14, kind);
    if (kind == 0) { // ends inside the required fields, between two of them
      const int nf = c20 ? 8 : 6;
      std::vector<size_t> e; // ends of fields
      for (size_t k = head, fld = 0; k < l.size() && (int)fld < nf; k++)
        if (l[k] != ' ' && (k + 1 == l.size() || l[k + 1] == ' ')) fld++, e.push_back(k + 1);
      l.resize(r.coin(.3) ? head : e[r.in(0, nf - 2)]);
    } else if (kind == 1) l.resize(r.in(1, 12)); // not even the date
    else if (kind == 2) { // letters in a required field
      size_t k = head + r.in(0, 40);
      while (l[k] == ' ' || l[k - 1] != ' ') ++k;
      l.replace(k, 1, "x");
    } else if (kind == 3) l.replace(12, c20 ? 14 : 7, c20 ? "   ?  37665.00" : "      ?");
    else if (kind == 4 && c20) l.replace(12, 4, "  12"), must = l.substr(23, 3) != ".50";
    else if (kind == 4) l = l.substr(0, 19) + std::string(300, '1');
    else if (kind == 7) { // a date that no int holds (the day of the record, several times 2^32 later, or worse)
      const long far = std::atol(l.c_str() + (c20 ? 16 : 12)) + 4294967296L * r.in(1, 3);
      const std::string h = l.substr(12, 4), tail = c20 ? l.substr(26) : l.substr(19), frac = c20 ? l.substr(l.find('.', 16), 3) : "";
      l = l.substr(0, 12) + (c20 ? h + " " : "") + (r.coin(.2) ? std::string(c20 ? "1e300" : "99999999999999999999") : std::to_string(far) + frac) + tail;
    } else must = false;
    std::string t = text_of(f);
    if (kind == 5)
      for (int k = (int)r.in(1, 8); k--;) {
        size_t at = r.in(0, t.size() - 1);
        static const char alpha[] = "0123456789 .-+eEx\n\t#";
        switch (r.in(0, 3)) {
        case 0: t[at] = alpha[r.in(0, sizeof alpha - 2)]; break;
        case 1: t.erase(at, r.in(1, 20)); break;
        case 2: t.insert(at, std::string(r.in(1, 5), alpha[r.in(0, sizeof alpha - 2)])); break;
        default: t[at] = (char)r.in(1, 255);
        }
      }
    if (kind == 6) t.resize(r.in(0, t.size()));
    put(p, t);
    EopSeries s;
    EopRecord old = record(r, MjdEpoch(40000, dso::FractionalSeconds(0)));
    s.push_back(old);
    const MjdEpoch a(mjd - 5, dso::FractionalSeconds(0)), b(mjd + 50, dso::FractionalSeconds(0));
    const int rc = parse(r, c20, p, a, b, s);
    if (must) check(rc != 0, "damaged-accepted", "a file with a damaged record was accepted");
    if (rc == 0)
      for (auto &e : s.give_me_the_vector()) check(e.t() >= a && e.t() < b, "outside-range", "record at %d", e.t().imjd());
    eval(hash(i, kind, rc));
    count(rc ? "refused" : "accepted");
    if (i < 2) sample("%s", S().ctx);
  }
  // files of no known format, or no file
  for (const char *t : {"", "\n", "hello\n", "# EARTH ORIENTATION PARAMETER\n", " EOP (IERS) 14 C04 TIME SERIES\n"}) {
    put(p, t);
    EopSeries s;
    dso::details::IersEopFormat ft;
    check(dso::details::choose_c04_series(p.c_str(), ft) != 0, "unknown-format", "accepted");
    check(dso::parse_iers_C04(p.c_str(), MjdEpoch(50000, dso::FractionalSeconds(0)), MjdEpoch(50010, dso::FractionalSeconds(0)), s) != 0, "unknown-format", "accepted");
  }
  unlink(p.c_str());
  EopSeries s;
  for (int c = 0; c < 6; c++) check(parse(r, c & 1, p, MjdEpoch(50000, dso::FractionalSeconds(0)), MjdEpoch(50010, dso::FractionalSeconds(0)), s) != 0, "no-file", "accepted");
}
static void real_files() {
  Rng r(S().seed + 8);
  Quiet q;
  for (int c20 = 0; c20 < 2; c20++) {
    const std::string p = std::string(VERIF_REPO) + (c20 ? "/data/test_data/eopc04.1962-now" : "/data/test_data/eopc04_IAU2000.62-now");
    std::ifstream in(p);
    std::string l;
    std::vector<EopRecord> all;
    while (std::getline(in, l)) {
      if (l.size() < 60 || !isdigit(l[0])) continue;
      double v[14];
      int n = 0;
      const char *c = l.c_str();
      for (char *e; n < 14; n++, c = e) {
        v[n] = strtod(c, &e);
        if (e == c) break;
      }
      EopRecord e;
      const int day = (int)v[c20 ? 4 : 3];
      e.t() = dso::TwoPartDateUTC(day, dso::FractionalSeconds(0)).utc2tt();
      e.dat() = dso::dat(dso::modified_julian_day(day));
      const double *w = v + (c20 ? 5 : 4);
      e.xp() = w[0], e.yp() = w[1], e.dut() = w[2];
      if (c20) e.dX() = w[3], e.dY() = w[4], e.xp_rate() = w[5], e.yp_rate() = w[6], e.lod() = w[7];
      else e.lod() = w[3], e.dX() = w[4], e.dY() = w[5], e.xp_rate() = 0, e.yp_rate() = 0;
      all.push_back(e);
    }
    if (all.empty()) continue;
    for (int k = 0; k < 50; k++) {
      MjdEpoch a(all[0].t().imjd() + (int)r.in(-5, all.size()), dso::FractionalSeconds(r.coin() ? 0 : r.real(0, 86400)));
      MjdEpoch b(a.imjd() + (int)r.in(1, 60), dso::FractionalSeconds(r.real(0, 86400)));
      ctx("%s range %d..%d", p.c_str(), a.imjd(), b.imjd());
      std::vector<EopRecord> ex;
      for (auto &e : all) if (e.t() >= a && e.t() < b) ex.push_back(e);
      EopSeries s;
      if (check(dso::parse_iers_C04(p.c_str(), a, b, s) == 0, "real-rc", "status")) compare(s, ex, "real");
      eval(hash(c20, k, ex.size()), !ex.empty());
    }
    sample("%s: %zu records", p.c_str(), all.size());
  }
}
int main(int c, char **v) {
  return run(c, v, {{"interp", interp}, {"poly", poly}, {"regularize", regularize}, {"zonal", zonal}, {"ocean", ocean},
                    {"libration", libration}, {"files", files}, {"damaged", damaged}, {"real_files", real_files}});
}
