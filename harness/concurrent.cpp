// C15: concurrent use.  Built with ThreadSanitizer (races) and also compares
// every thread's results with those of a later single-threaded replay.
#include "gravity.hpp"
#include "grid.hpp"
#include "kahan.hpp"
#include "mon.hpp"
#include "stokes_coefficients.hpp"
#include <atomic>
#include <thread>

using namespace dso;
using mon::check;
typedef CoeffMatrix2D<MatrixStorageType::LwTriangularColWise> Mat;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;

static void fill(StokesCoeffs &cs, mon::Rng &g) {
  for (int m = 0; m <= cs.max_degree(); m++)
    for (int n = m; n <= cs.max_degree(); n++) {
      cs.C(n, m) = g.sym() * (n ? 1e-6 : 1e6);
      cs.S(n, m) = m ? g.sym() * 1e-6 : 0;
    }
}

struct Shared {
  StokesCoeffs cs;
  Mat A, B;
  CoeffMatrix2D<MatrixStorageType::RowWise> R;
  TwoDimGrid<GridAxis::X> grid;
  KahanSum k;
  explicit Shared(mon::Rng &g)
      : cs(24, 24), A(20, 20), B(20, 20), R(7, 9), grid(-5, .5, 30, 3, .25, 50), k(1e9) {
    fill(cs, g);
    for (int i = 0; i < 20; i++)
      for (int j = 0; j <= i; j++) {
        A(i, j) = g.sym();
        B(i, j) = g.sym();
      }
    for (int i = 0; i < 7; i++)
      for (int j = 0; j < 9; j++) R(i, j) = g.sym();
    k += 1e-3;
  }
};

typedef std::vector<double> Log;
static void put(Log &l, double x) { l.push_back(x); }
static void put(Log &l, const V3 &a, const M3 &J) {
  for (int i = 0; i < 3; i++) put(l, a(i));
  for (int i = 0; i < 9; i++) put(l, J(i / 3, i % 3));
}

// one operation of thread program; touches only const shared state and
// objects it owns
static void op(int what, const Shared &s, mon::Rng &g, Log &l) {
  switch (what) {
  case 0:
  case 1: {
    V3 r(g.real(6.5e6, 9e6), g.real(-9e6, 9e6), g.real(-9e6, 9e6)), a;
    M3 J;
    int n = g.coin(.3) ? -1 : g.in(0, 24), m = n < 0 ? -1 : (int)g.in(0, n);
    if (what) {
      Mat W(28, 28), M(28, 28);
      put(l, sh2gradient_cunningham(s.cs, r, a, J, n, m, -1, -1, &W, &M));
    } else
      put(l, sh2gradient_cunningham(s.cs, r, a, J, n, m));
    put(l, a, J);
    break;
  }
  case 2: {
    int n = g.in(1, 40), m = g.in(0, n);
    Mat P(n + 1, n + 1), D(n + 1, n + 1);
    double lat = g.real(-1.5, 1.5);
    bool d = g.coin();
    put(l, d ? normalised_associated_legendre_functions(lat, n, m, P, D)
             : normalised_associated_legendre_functions(lat, n, m, P));
    for (int j = 0; j <= m; j++)
      for (int i = j; i <= n; i++) {
        put(l, P(i, j));
        if (d) put(l, D(i, j));
      }
    break;
  }
  case 3: {
    Mat X = s.A + 2. * s.B;
    Mat Y(s.A);
    Y += s.B;
    X = 3. * s.A;
    X += s.A.reduced_view(10, 10);
    for (int j = 0; j < 20; j++)
      for (int i = j; i < 20; i++) {
        put(l, X(i, j));
        put(l, Y(i, j));
      }
    break;
  }
  case 4: {
    auto q = s.cs.to_anm();
    auto b = StokesCoeffs::from_anm(q);
    b += s.cs;
    b.scale(.5);
    int n = g.in(0, 24), m = g.in(0, n);
    put(l, b.C(n, m));
    put(l, b.S(n, m));
    break;
  }
  case 5: {
    StokesCoeffs c(s.cs), d(24, 24);
    fill(d, g);
    c = s.cs;
    c += d;
    c.shrink_dimensions(12, 8);
    c.cresize(15, 15);
    put(l, c.C(g.in(0, 12), 0));
    StokesCoeffs e(std::move(c));
    put(l, e.C(8, g.in(0, 8)));
    put(l, e.max_degree());
    break;
  }
  case 6: {
    long a, b, c, d;
    s.grid.surrounding_nodes(g.real(-4.9, 9), g.real(3.1, 15), a, b, c, d);
    for (long x : {a, b, c, d}) put(l, x);
    KahanSum k(s.k);
    k += g.wide(-8, 8);
    put(l, (double)k + (double)s.k);
    break;
  }
  case 7: {
    V3 r(g.real(6.5e6, 9e6), g.sym() * 1e6, g.sym() * 1e6), b(g.sym() * 4e8, 3e8, g.sym() * 1e8);
    M3 J;
    V3 a = point_mass_acceleration(r, b, 4.9e12, J);
    put(l, a, J);
    a = point_mass_acceleration(r, b, 4.9e12);
    put(l, a(0));
    break;
  }
  case 8: {
    for (int k = 0; k < 30; k++) {
      int i = g.in(0, 6), j = g.in(0, 8);
      put(l, s.R(i, j) + s.R.row(i)[j] + s.cs.C(i + j, j) + s.A.column(j)[i]);
    }
    break;
  }
  }
}

static void jitter(mon::Rng &g) {
  long k = g.in(0, 9);
  if (k == 0) std::this_thread::yield();
  if (k == 1) std::this_thread::sleep_for(std::chrono::microseconds(g.in(1, 60)));
  if (k == 2)
    for (volatile int i = 0; i < 300; i = i + 1) {}
}

static void compare(const Log &par, const Log &seq, const char *key, int th) {
  if (!check(par.size() == seq.size(), key, "thread %d recorded %zu values, alone %zu", th, par.size(), seq.size()))
    return;
  for (size_t i = 0; i < par.size(); i++) {
    bool ok = mon::bits(par[i]) == mon::bits(seq[i]) || std::abs(par[i] - seq[i]) <= 1e-12 * std::abs(seq[i]);
    if (!check(ok, key, "thread %d value %zu is %.17g, alone %.17g", th, i, par[i], seq[i])) return;
  }
}

// Threads run their own seeded programs against one shared const state.
static void round_(uint64_t seed, int T, int ops, int force_first, const char *key) {
  mon::Rng g(seed);
  Shared s(g);
  std::vector<Log> logs(T);
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  std::atomic<long> tick{0};
  std::vector<std::vector<int>> order(T);
  auto prog = [&](int t, Log &l, bool par) {
    mon::Rng r(mon::hash(seed, t, 5)), jr(mon::hash(seed, t, 6));
    for (int k = 0; k < ops; k++) {
      int w = k == 0 && force_first >= 0 ? force_first : (int)r.in(0, 8);
      if (par) {
        if (k) jitter(jr);
        order[t].push_back((int)tick.fetch_add(1, std::memory_order_relaxed));
      }
      op(w, s, r, l);
    }
  };
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++)
    th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
      prog(t, logs[t], true);
    });
  while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto &x : th) x.join();
  // the interleaving actually observed
  std::vector<int> who((size_t)T * ops);
  for (int t = 0; t < T; t++)
    for (int k : order[t]) who[k] = t;
  uint64_t h = 7;
  int sw = 0;
  for (size_t i = 0; i < who.size(); i++) {
    h = mon::mix(h, who[i]);
    sw += i && who[i] != who[i - 1];
  }
  mon::eval(h, sw >= T);
  mon::count("operations", (long)T * ops);
  mon::count("context_switches_between_operations", sw);
  if (mon::S().evals < 3) {
    std::string o;
    for (size_t i = 0; i < who.size() && i < 60; i++) o += (char)('A' + who[i]);
    mon::sample("%d threads x %d operations, observed order %s", T, ops, o.c_str());
  }
  for (int t = 0; t < T; t++) {
    Log l;
    prog(t, l, false);
    compare(logs[t], l, key, t);
  }
}
void s_shared() {
  MON_KEY_RNG(g);
  long n = mon::N(40, 600);
  for (long t = 0; t < n; t++) {
    int T = g.in(2, 8);
    mon::ctx("round %ld, %d threads on shared const objects", t, T);
    round_(g.next(), T, g.in(10, 40), -1, "shared");
  }
}
// The very first call in a process is made by several threads at once.
void s_first_use() {
  MON_KEY_RNG(g);
  long n = mon::N(40, 400);
  std::vector<uint64_t> seeds;
  for (long t = 0; t < n; t++) {
    uint64_t seed = g.next();
    int T = g.in(2, 8), first = t % 9;
    mon::ctx("first use by %d threads of operation %d (case %ld)", T, first, t);
    fflush(stdout);
    int fd[2];
    if (pipe(fd)) exit(97);
    pid_t p = fork();
    if (p < 0) exit(97);
    if (p == 0) {
      close(fd[0]);
      auto &S = mon::S();
      S.viols.clear();
      S.evals = S.checks = 0;
      S.distinct.clear();
      round_(seed, T, 4, first, "first_use");
      std::string o = std::to_string(S.checks) + " " + std::to_string(S.distinct.empty() ? 0 : *S.distinct.begin());
      for (auto &v : S.viols) o += " " + v.second.detail;
      (void)!write(fd[1], o.data(), o.size());
      _exit(S.viols.empty() ? 0 : 3);
    }
    close(fd[1]);
    std::string o;
    char b[4096];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    check(ok, "first_use", "status %d: %s", st, o.c_str());
    unsigned long c = 0, h = 0;
    if (sscanf(o.c_str(), "%lu %lu", &c, &h) == 2) {
      mon::S().checks += c;
      mon::eval(h ? h : 1, h != 0);
    }
    if (t < 3) mon::sample("fresh process, %d threads, first operation %d", T, first);
  }
}
// Different elements of one matrix / different objects: no interference.
void s_disjoint() {
  MON_KEY_RNG(g);
  long n = mon::N(60, 600);
  for (long t = 0; t < n; t++) {
    int T = g.in(2, 8), N = g.in(8, 40);
    mon::ctx("round %ld, %d threads on disjoint columns of %dx%d and own objects", t, T, N, N);
    Mat A(N, N);
    StokesCoeffs cs(N, N);
    A.fill_with(-1);
    uint64_t seed = g.next();
    std::vector<Log> logs(T);
    auto own = [&](int th, Log &l) { // private history of a StokesCoeffs
      mon::Rng r(mon::hash(seed, th));
      StokesCoeffs x(10, 10);
      fill(x, r);
      for (int k = 0; k < 6; k++) {
        StokesCoeffs y(r.in(5, 10));
        fill(y, r);
        x += y;
        x.scale(r.real(.5, 2));
        put(l, x.C(r.in(0, 5), 0));
        V3 a;
        M3 J;
        V3 pos(7e6, r.sym() * 1e6, r.sym() * 1e6);
        put(l, sh2gradient_cunningham(x, pos, a, J));
        put(l, a, J);
      }
    };
    std::vector<std::thread> th;
    for (int k = 0; k < T; k++)
      th.emplace_back([&, k] {
        mon::Rng r(mon::hash(seed, k, 2));
        for (int j = k; j < N; j += T) {
          if (r.coin()) std::this_thread::yield();
          for (int i = j; i < N; i++) {
            A(i, j) = i * 100 + j;
            cs.C(i, j) = i + j * .5;
            cs.S(i, j) = i - j * .5;
          }
        }
        own(k, logs[k]);
      });
    for (auto &x : th) x.join();
    for (int j = 0; j < N; j++)
      for (int i = j; i < N; i++) {
        check(A(i, j) == i * 100 + j, "disjoint", "A(%d,%d)=%g", i, j, A(i, j));
        check(cs.C(i, j) == i + j * .5 && cs.S(i, j) == i - j * .5, "disjoint", "C,S(%d,%d)", i, j);
      }
    for (int k = 0; k < T; k++) {
      Log l;
      own(k, l);
      compare(logs[k], l, "own", k);
    }
    mon::eval(mon::hash(T, N, seed));
    if (t < 2) mon::sample("%s", mon::S().ctx);
  }
}
int main(int argc, char **argv) {
  return mon::run(argc, argv, {{"shared", s_shared}, {"first_use", s_first_use}, {"disjoint", s_disjoint}});
}
