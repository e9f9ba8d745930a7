// C11 KahanSum, C12 TwoDimGrid, C13 Clock, C14 GroopsTideModel container.
#include <cstdio>
#include "clock.hpp"
#include <unistd.h>
#include <cmath>
#include "groops_tide_model.hpp"
#include "grid.hpp"
#include "kahan.hpp"
#include "mon.hpp"
#include <algorithm>
#include <thread>

using mon::check;

// ---------------------------------------------------------------- C11
// exact sum by non-overlapping expansions (Shewchuk), rounded once
static long double exact(const std::vector<double> &v) {
  std::vector<double> p;
  for (double x : v) {
    size_t k = 0;
    for (double y : p) {
      if (std::abs(x) < std::abs(y)) std::swap(x, y);
      double hi = x + y, lo = y - (hi - x);
      if (lo != 0) p[k++] = lo;
      x = hi;
    }
    p.resize(k);
    p.push_back(x);
  }
  long double s = 0;
  for (double y : p) s += y; // smallest first
  return s;
}
static void kahan_case(const std::vector<double> &v, int how, double start) {
  std::vector<double> all(v);
  all.insert(all.begin(), start);
  dso::KahanSum k(start);
  switch (how) {
  case 0:
    for (double x : v) k += x;
    break;
  case 1: // chained
    for (size_t i = 0; i + 1 < v.size(); i += 2) (k += v[i]) += v[i + 1];
    if (v.size() % 2) k += v.back();
    break;
  case 2: { // copies are independent values
    for (size_t i = 0; i < v.size(); i++) {
      dso::KahanSum c(k);
      double before = (double)k;
      c += 1e10;
      c += -3.3;
      mon::same((double)k, before, "copy");
      k += v[i];
      if (i % 7 == 3) {
        dso::KahanSum d;
        d = k;
        k = d;
      }
    }
    break;
  }
  case 3: // reading in between has no effect
    for (double x : v) {
      (void)(double)k;
      k += x;
    }
    break;
  }
  long double ref = exact(all), mag = 0;
  for (double x : all) mag += std::abs(x);
  const double n = all.size(), eps = 1.1102230246251565e-16;
  // Neumaier's bound, slack factor 8
  double tol = 8 * (2 * eps * (double)std::abs(ref) + n * n * eps * eps * (double)mag) + 1e-320;
  double got = (double)k;
  check(std::abs(got - (double)ref) <= tol, "kahan",
        "sum of %zu terms is %.17g exact %.17Lg (|err| %.3g > %.3g)", all.size(), got, ref,
        std::abs(got - (double)ref), tol);
}
void s_kahan() {
  MON_KEY_RNG(g);
  long n = mon::N(1500, 20000);
  for (long t = 0; t < n; t++) {
    int len = t % 50 == 0 ? g.in(1000, 20000) : g.in(0, 60), style = t % 7;
    std::vector<double> v;
    for (int i = 0; i < len; i++) {
      switch (style) {
      case 0: v.push_back(g.sym()); break;
      case 1: v.push_back(g.wide(-20, 20)); break;
      case 2: v.push_back(i % 3 == 0 ? 1e16 : i % 3 == 1 ? 1. : -1e16); break;
      case 3: v.push_back(0.1); break;
      case 4: v.push_back(i % 2 ? -std::abs(g.wide(0, 12)) : std::abs(g.wide(0, 12))); break;
      case 5: v.push_back(g.wide(-300, 290)); break;
      case 6: v.push_back(g.real(.5, 1) * (i + 1)); break;
      }
    }
    if (style == 4 || style == 1) { // make it cancel: append the negatives shuffled
      auto w = v;
      for (auto &x : w) x = -x;
      for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[g.next() % i]);
      v.insert(v.end(), w.begin(), w.end());
      v.push_back(g.sym());
    }
    if (style == 6 && g.coin()) std::sort(v.rbegin(), v.rend());
    double start = g.coin() ? 0. : g.wide(-5, 17);
    mon::ctx("style %d len %zu start %.17g case %ld", style, v.size(), start, t);
    if (start == 0 && g.coin()) {
      dso::KahanSum k;
      mon::same((double)k, 0, "default");
      dso::KahanSum c;
      for (double x : v) c += x;
      dso::KahanSum d(0e0);
      for (double x : v) d += x;
      mon::same((double)c, (double)d, "default");
    }
    kahan_case(v, g.in(0, 3), start);
    mon::eval(mon::hash(style, v.size(), t), v.size() > 1);
    if (t < 4) mon::sample("%s", mon::S().ctx);
  }
}

// ---------------------------------------------------------------- C12
using mon::Quiet;
template <dso::GridAxis A> void grid_cases() {
  mon::Rng g(mon::hash(mon::S().seed, 90, (int)A));
  Quiet q;
  constexpr bool X = A == dso::GridAxis::X;
  long n = mon::N(600, 6000);
  for (long t = 0; t < n; t++) {
    bool big = t % 20 == 0, exact = g.coin();
    long nx = big ? g.in(30000, 80000) : g.in(1, 40), ny = big ? g.in(30000, 80000) : g.in(1, 40);
    if (!big && g.coin(.5) && nx == ny) ny++;
    double sx = exact ? std::ldexp(1., g.in(-6, 3)) : g.real(.01, 5),
           sy = exact ? std::ldexp(1., g.in(-6, 3)) : g.real(.01, 5);
    double x0 = exact ? g.in(-400, 400) * .25 : g.real(-200, 200),
           y0 = exact ? g.in(-400, 400) * .25 : g.real(-200, 200);
    mon::ctx("%s-leading grid x=%.17g+%.17g*%ld y=%.17g+%.17g*%ld", X ? "X" : "Y", x0, sx, nx, y0, sy, ny);
    dso::TwoDimGrid<A> G(x0, sx, nx, y0, sy, ny);
    mon::same(G.xstep(), sx, "step");
    mon::same(G.ystep(), sy, "step");
    mon::near(G.xstop(), x0 + nx * sx, 1e-12 * (std::abs(x0) + nx * sx), "stop");
    mon::near(G.ystop(), y0 + ny * sy, 1e-12 * (std::abs(y0) + ny * sy), "stop");
    auto idx = [&](long i, long j) { return X ? i * ny + j : j * nx + i; };
    // every node of a small grid, random ones of a large one
    std::vector<std::pair<long, long>> ij;
    if (!big)
      for (long i = 0; i < nx; i++)
        for (long j = 0; j < ny; j++) ij.push_back({i, j});
    else {
      for (int k = 0; k < 60; k++) ij.push_back({g.in(0, nx - 1), g.in(0, ny - 1)});
      ij.push_back({nx - 1, ny - 1});
      ij.push_back({0, 0});
      ij.push_back({nx - 2, ny - 2});
    }
    for (auto [i, j] : ij) {
      long k = idx(i, j);
      auto nd = G.xyindex2node(k);
      double ex = 1e-12 * (std::abs(x0) + nx * sx), ey = 1e-12 * (std::abs(y0) + ny * sy);
      check(std::abs(nd.x - (x0 + i * sx)) <= ex && std::abs(nd.y - (y0 + j * sy)) <= ey, "node",
            "node of index %ld is (%.12g,%.12g) expected (%.12g,%.12g)", k, nd.x, nd.y, x0 + i * sx, y0 + j * sy);
      // a point of cell (i,j): inside, or on the node itself (exact grids)
      bool on = exact && g.coin(.3);
      double fx = on ? 0 : g.real(.02, .98), fy = on ? 0 : g.real(.02, .98);
      double x = x0 + (i + fx) * sx, y = y0 + (j + fy) * sy;
      long l = G.line(x, y);
      check(l == k, "line", "(%.17g,%.17g) is in cell (%ld,%ld), index %ld, got %ld", x, y, i, j, k, l);
      if (i + 1 < nx && j + 1 < ny) {
        long bl = -9, br = -9, tl = -9, tr = -9;
        G.surrounding_nodes(x, y, bl, br, tl, tr);
        check(bl == idx(i, j) && br == idx(i + 1, j) && tl == idx(i, j + 1) && tr == idx(i + 1, j + 1),
              "surrounding", "(%.17g,%.17g): bl,br,tl,tr=%ld,%ld,%ld,%ld expected %ld,%ld,%ld,%ld", x, y, bl, br, tl,
              tr, idx(i, j), idx(i + 1, j), idx(i, j + 1), idx(i + 1, j + 1));
        auto a = G.xyindex2node(bl), b = G.xyindex2node(tr);
        check(a.x <= x + ex && a.y <= y + ey && b.x > x && b.y > y, "bracket",
              "nodes (%g,%g)-(%g,%g) do not bracket (%g,%g)", a.x, a.y, b.x, b.y, x, y);
        mon::count("bracketed_points");
      }
      mon::eval(mon::hash((int)A, nx, ny, i, j, on), nx * ny > 1);
    }
    // next to the borders of the cells and of the grid: the cell to either side, up to rounding, and of the grid
    for (int k = 0; k < 12; k++) {
      long i = k < 6 ? nx : g.in(0, nx), j = k < 6 && k > 2 ? ny : g.in(0, ny);
      double x = i == nx ? G.xstop() : x0 + i * sx, y = j == ny ? G.ystop() : y0 + j * sy;
      if (k != 1) x = std::nextafter(x, i == nx || k % 2 ? -HUGE_VAL : HUGE_VAL);
      if (k != 4) y = std::nextafter(y, j == ny || k % 3 ? -HUGE_VAL : HUGE_VAL);
      if (!(x >= x0 && x < G.xstop() && y >= y0 && y < G.ystop())) {
        check(G.line(x, y) == -1, "outside", "(%.17g,%.17g) is outside but line=%ld", x, y, G.line(x, y));
        continue;
      }
      double ex = 1e-12 * (std::abs(x0) + nx * sx), ey = 1e-12 * (std::abs(y0) + ny * sy);
      long l = G.line(x, y);
      if (!check(l >= 0 && l < nx * ny, "border", "(%.17g,%.17g) inside, index %ld of %ld", x, y, l, nx * ny)) continue;
      auto nd = G.xyindex2node(l);
      check(x >= nd.x - ex && x <= nd.x + sx + ex && y >= nd.y - ey && y <= nd.y + sy + ey, "border",
            "(%.17g,%.17g) is not in the cell at (%.17g,%.17g)", x, y, nd.x, nd.y);
      mon::count("border_points");
    }
    // outside on any side: no index, no nodes
    for (int k = 0; k < 10; k++) {
      double x = x0 + g.u() * nx * sx, y = y0 + g.u() * ny * sy;
      switch (k) {
      case 0: x = x0 - .3 * sx; break;
      case 1: x = x0 + (nx + .3) * sx; break;
      case 2: y = y0 - .3 * sy; break;
      case 3: y = y0 + (ny + .3) * sy; break;
      case 4: x = x0 - 1e6; y = y0 + 1e7; break;
      case 5: x = std::nan(""); break;
      case 6: y = std::nan(""); break;
      case 7: x = HUGE_VAL; break;
      case 8: y = -HUGE_VAL; break;
      case 9: if (!exact) continue; x = x0 + nx * sx; break; // first point past the end
      }
      long bl = 5, br = 5, tl = 5, tr = 5;
      check(G.line(x, y) == -1, "outside", "(%g,%g) is outside but line=%ld", x, y, G.line(x, y));
      G.surrounding_nodes(x, y, bl, br, tl, tr);
      check(bl == -1 && br == -1 && tl == -1 && tr == -1, "outside_nodes",
            "(%g,%g) is outside but nodes=%ld,%ld,%ld,%ld", x, y, bl, br, tl, tr);
    }
    if (t % 200 == 1) mon::sample("%s", mon::S().ctx);
  }
  dso::TwoDimGrid<A> E;
  check(E.line(0, 0) == -1, "empty", "empty grid has points");
}
void s_grid() {
  grid_cases<dso::GridAxis::X>();
  grid_cases<dso::GridAxis::Y>();
}

// ---------------------------------------------------------------- C13
template <class F>
std::string captured(F f) {
  std::fflush(stdout);
  int save = dup(1);
  FILE *t = std::tmpfile();
  dup2(fileno(t), 1);
  f();
  std::fflush(stdout);
  dup2(save, 1);
  close(save);
  std::rewind(t);
  char b[512] = {0};
  size_t k = std::fread(b, 1, sizeof(b) - 1, t);
  std::fclose(t);
  return std::string(b, k);
}
void s_clock() {
  MON_KEY_RNG(g);
  long n = mon::N(2000, 20000);
  using D = Clock::duration_t;
  for (long t = 0; t < n; t++) {
    int len = g.in(0, 60);
    std::string nm;
    for (int i = 0; i < len; i++) nm += (char)g.in('a', 'z');
    mon::ctx("name '%s'", nm.c_str());
    // exactly sized heap copy: overlong reads are visible too
    char *h = new char[len + 1];
    std::memcpy(h, nm.c_str(), len + 1);
    Clock c(h);
    delete[] h;
    std::string got = c.name();
    check(nm.compare(0, got.size(), got) == 0 && got.size() >= std::min<size_t>(len, 23), "name",
          "name is '%s'", got.c_str());
    check(c.msamples == 0 && c.total_duration == D::zero(), "fresh", "not zero initially");
    long s = 0;
    D tot = D::zero();
    for (int k = 0, m = g.in(1, 6); k < m; k++) {
      auto w0 = Clock::clock_t::now();
      c.start();
      auto s1 = Clock::clock_t::now();
      volatile double z = 1;
      for (int i = 0, e = g.in(0, 300); i < e; i++) z = z * 1.0001;
      auto in0 = Clock::clock_t::now();
      auto el = c.get_elapsed_time();
      D before = c.total_duration;
      c.stop();
      auto w1 = Clock::clock_t::now();
      D inc = c.total_duration - before;
      s++;
      tot += inc;
      check(inc >= D::zero() && inc <= w1 - w0 && inc >= in0 - s1 && el <= inc && el >= in0 - s1, "interval",
            "stop() added %ld ns, wall %ld ns", (long)std::chrono::nanoseconds(inc).count(),
            (long)std::chrono::nanoseconds(w1 - w0).count());
      check(c.msamples == s && c.total_duration == tot, "accumulate", "%d samples, %ld expected", c.msamples, s);
    }
    // a virtual clock: set the state, so that the verdict is not about time
    long ns = (long)std::pow(10., g.real(3, 12));
    c.msamples = g.in(1, 50);
    c.total_duration = std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns));
    check(c.get_total_duration<std::chrono::nanoseconds>().count() == ns, "total_ns", "total");
    check(c.get_total_duration().count() == ns / 1000, "total_us", "total");
    check(c.get_total_duration<std::chrono::milliseconds>().count() == ns / 1000000, "total_ms", "total");
    check(std::abs(c.average_running_time<std::chrono::nanoseconds>() - (double)ns / c.msamples) < 1e-9 * ns, "avg_ns",
          "average %.17g of %ld ns / %d", c.average_running_time<std::chrono::nanoseconds>(), ns, c.msamples);
    check(std::abs(c.average_running_time() - ns * 1e-3 / c.msamples) <= 1. / c.msamples + 1e-9 * ns, "avg_us",
          "average %.17g of %ld ns / %d", c.average_running_time(), ns, c.msamples);
    // copies carry everything and are independent
    Clock a(c), b(std::move(a)), d("other");
    d = c;
    Clock e(c);
    e = *&e;
    for (Clock *p : {&b, &d, &e}) {
      check(p->msamples == c.msamples && p->total_duration == c.total_duration && p->start_time == c.start_time &&
                !std::strcmp(p->name(), c.name()),
            "copy", "copy differs");
      p->msamples++;
      p->total_duration += D(5);
    }
    check(c.msamples == b.msamples - 1, "copy_indep", "copy shares state");
    // ordering by average
    Clock f("f");
    f.msamples = g.in(1, 50);
    long ns2 = (long)std::pow(10., g.real(3, 12));
    f.total_duration = std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns2));
    double av1 = (double)ns / c.msamples, av2 = (double)ns2 / f.msamples;
    if (std::abs(av1 - av2) > 2000) {
      check(c.is_faster(f) == (av1 < av2) && f.is_faster(c) == (av2 < av1), "faster", "averages %g %g ns", av1, av2);
      mon::count("ordered_pairs");
    }
    check(!c.is_faster(c), "faster_self", "faster than itself");
    if (t % 8 == 0) {
      // the printed comparison: both names, and the signed relative difference in percent
      std::string out = captured([&] { c.compare(f); });
      double pc = 1e2 * (c.average_running_time() / f.average_running_time() - 1), got = NAN;
      std::string head = std::string(c.name()) + " wrt f : ";
      bool ok = !out.compare(0, head.size(), head) && std::sscanf(out.c_str() + head.size(), "%lf", &got) == 1;
      check(ok && std::abs(got - pc) <= 0.06 + 1e-9 * std::abs(pc), "compare", "printed '%s', %.3f %% expected", out.c_str(), pc);
      mon::count("printed_comparisons");
    }
    mon::eval(mon::hash(len, ns, ns2), true);
    if (t < 3) mon::sample("%s total %ld ns over %d samples", mon::S().ctx, ns, c.msamples);
  }
}
// without any sample: no trap, the average is not negative
void s_clock_empty() {
  Clock c("empty");
  mon::ctx("no samples");
  double a = c.average_running_time();
  check(a == 0, "no_samples", "average of no samples is %g", a);
  check(!c.is_faster(c), "no_samples", "is_faster");
  mon::eval(1);
  mon::sample("average over zero samples");
}

// ---------------------------------------------------------------- C14
void s_groops() {
  MON_KEY_RNG(g);
  typedef Eigen::Matrix<int, Eigen::Dynamic, 6> Doo;
  long n = mon::N(300, 3000);
  for (long t = 0; t < n; t++) {
    int waves = g.in(1, 60), major = g.in(1, waves), cols = waves;
    if (g.coin(.2)) waves = g.in(0, 60), major = g.in(0, 60), cols = g.in(0, 60); // the counts do not depend on each other
    Doo d(waves, 6);
    Eigen::MatrixXd a(major, cols);
    for (int i = 0; i < waves; i++)
      for (int j = 0; j < 6; j++) d(i, j) = g.in(-9, 9);
    for (int i = 0; i < major; i++)
      for (int j = 0; j < cols; j++) a(i, j) = g.sym();
    mon::ctx("%d major of %d waves, %d columns", major, waves, cols);
    Doo d0 = d;
    Eigen::MatrixXd a0 = a;
#ifdef SPARSE_ADMITTANCE_MATRIX
    for (int i = 0; i < major; i++)
      for (int j = 0; j < cols; j++)
        if (g.coin(.6)) a(i, j) = a0(i, j) = 0;
    Eigen::SparseMatrix<double> b = a.sparseView();
    if (g.coin()) b.makeCompressed();
    dso::GroopsTideModel m(d, b);
    b.setZero();
#else
    dso::GroopsTideModel m(d, a);
#endif
    d.setZero();
    a.setZero();
    auto ok = [&](const dso::GroopsTideModel &x, const char *key) {
      check(x.num_waves() == waves && x.num_major_waves() == major, key, "%d/%d waves", x.num_major_waves(),
            x.num_waves());
      check(x.doodson_matrix().rows() == waves && (x.doodson_matrix().array() == d0.array()).all(), key, "doodson");
      check(x.admittance_matrix().rows() == major && x.admittance_matrix().cols() == cols &&
                (Eigen::MatrixXd(x.admittance_matrix()).array() == a0.array()).all(),
            key, "admittance");
    };
    ok(m, "stored");
    dso::GroopsTideModel c(m), e;
    check(e.num_waves() == 0 && e.num_major_waves() == 0, "empty", "default not empty");
    e = c;
    ok(e, "assigned");
    dso::GroopsTideModel f(std::move(e));
    e = dso::GroopsTideModel();
    ok(f, "moved");
    ok(m, "source");
    mon::eval(mon::hash(waves, major, t));
    if (t < 2) mon::sample("%s", mon::S().ctx);
  }
}

int main(int argc, char **argv) {
  return mon::run(argc, argv,
                  {{"kahan", s_kahan}, {"grid", s_grid}, {"clock", s_clock}, {"clock_empty", s_clock_empty},
                   {"groops", s_groops}});
}
