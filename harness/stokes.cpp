// C04 StokesCoeffs histories against a reference model, C05 packed storage.
#include "mon.hpp"
#include "stokes_coefficients.hpp"
#include <memory>
#include <optional>
#include <stdexcept>
#include <utility>

using namespace dso;
using mon::check;

struct Model {
  double GM = iers2010::GMe, Re = iers2010::Re;
  bool norm = true;
  int deg = 0, ord = 0;
  int dim = 0; // rows of the coefficient matrices
  std::map<std::pair<int, int>, std::optional<double>> C, S;
  void alloc(int n) {
    dim = n;
    C.clear();
    S.clear();
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++) C[{i, j}] = S[{i, j}] = std::nullopt;
  }
  void regrow(int n) {
    auto c = C, s = S;
    alloc(n);
    for (auto &k : C) {
      auto i = c.find(k.first);
      if (i != c.end()) k.second = i->second;
      auto q = s.find(k.first);
      if (q != s.end()) S[k.first] = q->second;
    }
  }
};

static void compare(const StokesCoeffs &A, const Model &m, const char *key, const std::string &h) {
  check(A.max_degree() == m.deg && A.max_order() == m.ord, key,
        "degree/order %d/%d expected %d/%d after %s", A.max_degree(), A.max_order(), m.deg, m.ord,
        h.c_str());
  check(A.GM() == m.GM && A.Re() == m.Re && A.normalized() == m.norm, key,
        "GM/Re/normalized %g/%g/%d expected %g/%g/%d after %s", A.GM(), A.Re(), A.normalized(), m.GM,
        m.Re, m.norm, h.c_str());
  if (!check(A.Cnm().rows() == m.dim && A.Snm().rows() == m.dim, key, "storage %d/%d expected %d after %s",
             A.Cnm().rows(), A.Snm().rows(), m.dim, h.c_str()))
    return;
  for (auto &k : m.C) {
    if (k.second) {
      double d = A.C(k.first.first, k.first.second);
      check(d == *k.second && d == A.Cnm()(k.first.first, k.first.second), key,
            "C(%d,%d)=%.17g expected %.17g after %s", k.first.first, k.first.second, d, *k.second,
            h.c_str());
    }
    auto &s = m.S.at(k.first);
    if (s) {
      double d = A.S(k.first.first, k.first.second);
      check(d == *s && d == A.Snm()(k.first.first, k.first.second), key,
            "S(%d,%d)=%.17g expected %.17g after %s", k.first.first, k.first.second, d, *s, h.c_str());
    }
  }
  if (m.dim > 2 && m.C.at({2, 0}))
    check(A.J2() == -*m.C.at({2, 0}), key, "J2 %.17g vs -C20 %.17g", A.J2(), -*m.C.at({2, 0}));
}

static void history_one(uint64_t seed, int maxdeg, int nops) {
  mon::Rng g(seed);
  constexpr int K = 4;
  std::unique_ptr<StokesCoeffs> P[K];
  Model m[K];
  std::string hist;
  long uid = 1;
  auto log = [&](const char *f, int a, int b = 0, int c = 0) {
    char buf[96];
    snprintf(buf, sizeof buf, f, a, b, c);
    hist += buf;
    hist += "; ";
    if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 650);
    mon::ctx("%s", hist.c_str());
  };
  auto setall = [&](int a) {
    for (auto &k : m[a].C) {
      int n = k.first.first, q = k.first.second;
      P[a]->C(n, q) = uid;
      k.second = (double)uid++;
      P[a]->S(n, q) = -uid;
      m[a].S[k.first] = -(double)uid++;
    }
  };
  auto full = [&](const Model &x) {
    for (auto &k : x.C)
      if (!k.second || !x.S.at(k.first)) return false;
    return true;
  };
  auto make = [&](int i) {
    int n = g.in(0, maxdeg), o = g.in(0, n);
    m[i] = Model();
    switch (g.in(0, 5)) {
    case 0:
      P[i] = std::make_unique<StokesCoeffs>();
      m[i].alloc(1); // a zero expansion of degree zero
      m[i].C[{0, 0}] = m[i].S[{0, 0}] = 0e0;
      log("s%d=()", i);
      return;
    case 1:
      P[i] = std::make_unique<StokesCoeffs>(n);
      m[i].deg = m[i].ord = n;
      log("s%d=(%d)", i, n);
      break;
    case 2:
    case 3:
      P[i] = std::make_unique<StokesCoeffs>(n, o);
      m[i].deg = n;
      m[i].ord = o;
      log("s%d=(%d,%d)", i, n, o);
      break;
    default: {
      double gm = g.real(1, 9) * 1e14, re = g.real(1, 9) * 1e6;
      P[i] = std::make_unique<StokesCoeffs>(n, o, gm, re);
      m[i].deg = n;
      m[i].ord = o;
      m[i].GM = gm;
      m[i].Re = re;
      log("s%d=(%d,%d,GM,Re)", i, n, o);
    }
    }
    m[i].alloc(n + 1);
    setall(i);
  };
  for (int i = 0; i < K; i++) make(i);
  uint64_t h = 17;
  for (int t = 0; t < nops; t++) {
    int a = g.in(0, K - 1), b = g.in(0, K - 1), op = g.in(0, 15);
    h = mon::mix(h, op * 100 + a * 10 + b);
    switch (op) {
    case 0:
      log("s%d.set", a);
      setall(a);
      break;
    case 1: {
      log("s%d=s%d", a, b);
      auto &x = *P[b];
      *P[a] = x;
      m[a] = m[b];
      break;
    }
    case 2: // move assign; the source is then re-created
      if (a == b) break;
      log("s%d=move(s%d)", a, b);
      *P[a] = std::move(*P[b]);
      m[a] = m[b];
      if (g.coin(.5)) make(b);
      else { // ... or assigned to
        *P[b] = *P[a];
        m[b] = m[a];
      }
      break;
    case 3: {
      log("s%d=new(s%d)", a, b);
      auto q = std::make_unique<StokesCoeffs>(*P[b]);
      m[a] = Model(m[b]);
      P[a] = std::move(q);
      break;
    }
    case 4: {
      log("s%d=new(move(s%d))", a, b);
      auto q = std::make_unique<StokesCoeffs>(std::move(*P[b]));
      Model x = m[b];
      if (a != b) make(b);
      P[a] = std::move(q);
      m[a] = x;
      break;
    }
    case 5:
      log("swap%d(s%d,s%d)", t % 3, a, b);
      if (t % 3 == 0) P[a]->swap(*P[b]);
      else if (t % 3 == 1) { using std::swap; swap(*P[a], *P[b]); }
      else dso::swap(*P[a], *P[b]);
      std::swap(m[a], m[b]);
      break;
    case 6: {
      int n = g.in(0, maxdeg), o = g.in(0, n);
      log("s%d.resize(%d,%d)", a, n, o);
      P[a]->resize(n, o);
      m[a].deg = n;
      m[a].ord = o;
      m[a].alloc(n + 1);
      if (g.coin(.8)) setall(a);
      break;
    }
    case 7: {
      int n = g.in(0, maxdeg), o = g.in(0, n);
      log("s%d.cresize(%d,%d)", a, n, o);
      P[a]->cresize(n, o);
      m[a].deg = n;
      m[a].ord = o;
      if (m[a].dim != n + 1) m[a].regrow(n + 1);
      compare(*P[a], m[a], "cresize", hist);
      if (g.coin(.6)) setall(a);
      break;
    }
    case 8: {
      int n = g.in(0, maxdeg), o = g.in(0, maxdeg);
      log("s%d.shrink_dimensions(%d,%d)", a, n, o);
      bool ok = o <= n && n <= m[a].deg && o <= m[a].ord;
      int e = P[a]->shrink_dimensions(n, o);
      check((e == 0) == ok, "shrink", "shrink_dimensions(%d,%d) of %d/%d returned %d", n, o, m[a].deg,
            m[a].ord, e);
      if (ok) {
        m[a].deg = n;
        m[a].ord = o;
        mon::count("shrunk");
      }
      break;
    }
    case 9: {
      double f = std::ldexp(g.coin() ? 1 : -1, g.in(-2, 2));
      log("s%d.scale", a);
      if (!full(m[a])) setall(a);
      P[a]->scale(f);
      for (auto &k : m[a].C) {
        k.second = *k.second * f;
        m[a].S[k.first] = *m[a].S[k.first] * f;
      }
      break;
    }
    case 10:
      log("s%d.clear", a);
      P[a]->clear();
      for (auto &k : m[a].C) k.second = m[a].S[k.first] = 0e0;
      break;
    case 11:
    case 12:
    case 13: { // +=
      if (a == b) { // every coefficient read is that before the sum
        if (!full(m[a])) setall(a);
        log("s%d+=s%d", a, a);
        *P[a] += *P[a];
        for (int n = 0; n <= m[a].deg; n++)
          for (int k = 0; k <= std::min(n, m[a].ord); k++) {
            m[a].C[{n, k}] = 2 * *m[a].C[{n, k}];
            m[a].S[{n, k}] = 2 * *m[a].S[{n, k}];
          }
        compare(*P[a], m[a], "add", hist);
        break;
      }
      if (!full(m[a])) setall(a);
      if (!full(m[b])) setall(b);
      log("s%d+=s%d", a, b);
      bool fits = m[a].deg >= m[b].deg && m[a].ord >= m[b].ord, threw = false;
      try {
        *P[a] += *P[b];
      } catch (std::runtime_error &) {
        threw = true;
      }
      check(threw == !fits, "add_throw", "%d/%d += %d/%d %s", m[a].deg, m[a].ord, m[b].deg, m[b].ord,
            threw ? "threw" : "did not throw");
      mon::count(fits ? "add_ok" : "add_rejected");
      if (fits)
        for (int n = 0; n <= m[b].deg; n++)
          for (int k = 0; k <= std::min(n, m[b].ord); k++) {
            m[a].C[{n, k}] = *m[a].C[{n, k}] + *m[b].C[{n, k}];
            m[a].S[{n, k}] = *m[a].S[{n, k}] + *m[b].S[{n, k}];
          }
      compare(*P[a], m[a], "add", hist);
      break;
    }
    case 14: {
      log("s%d.GM/Re/normalized", a);
      P[a]->GM() = m[a].GM = uid++ * 1e10;
      P[a]->Re() = m[a].Re = uid++ * 1e3;
      P[a]->normalized() = m[a].norm = g.coin();
      break;
    }
    case 15: { // through the matrices
      if (a == b || m[a].dim != m[b].dim || !full(m[a]) || !full(m[b])) break;
      log("s%d.Cnm() += 2*s%d.Cnm()", a, b);
      P[a]->Cnm() += 2.0 * P[b]->Cnm();
      P[a]->Snm() = P[a]->Snm() + 4.0 * P[b]->Snm();
      for (auto &k : m[a].C) {
        k.second = *k.second + 2.0 * *m[b].C[k.first];
        m[a].S[k.first] = *m[a].S[k.first] + 4.0 * *m[b].S[k.first];
      }
      break;
    }
    }
    for (int i = 0; i < K; i++) compare(*P[i], m[i], "history", hist);
    // keep magnitudes exactly representable
    for (int i = 0; i < K; i++)
      for (auto &k : m[i].C)
        if ((k.second && std::abs(*k.second) > 1e9) || (m[i].S[k.first] && std::abs(*m[i].S[k.first]) > 1e9)) {
          setall(i);
          break;
        }
  }
  mon::eval(h, nops > 3);
  mon::count("ops", nops);
  if (mon::S().samples.size() < 3) mon::sample("%s", hist.substr(0, 400).c_str());
}
void s_history() {
  MON_KEY_RNG(g);
  long n = mon::N(900, 9000);
  for (long t = 0; t < n; t++) history_one(g.next(), t % 20 == 0 ? 40 : 7, g.in(5, 50));
}
// larger, random reals: += adds the block [0,n]x[0,m] and nothing else
void s_add_large() {
  MON_KEY_RNG(g);
  long n = mon::N(60, 500);
  for (long t = 0; t < n; t++) {
    int N1 = g.in(1, 120), M1 = g.in(0, N1), N2 = g.in(0, N1), M2 = g.in(0L, std::min(N2, M1));
    mon::ctx("add %d/%d += %d/%d", N1, M1, N2, M2);
    StokesCoeffs a(N1, M1), b(N2, M2);
    for (auto *p : {&a, &b})
      for (int i = 0; i <= p->max_degree(); i++)
        for (int j = 0; j <= i; j++) {
          p->C(i, j) = g.wide(-12, 0);
          p->S(i, j) = g.wide(-12, 0);
        }
    StokesCoeffs a0(a), b0(b);
    StokesCoeffs &ret = (a += b);
    check(&ret == &a, "add_ref", "operator+= does not return *this");
    for (int i = 0; i <= N1; i++)
      for (int j = 0; j <= i; j++) {
        bool in = i <= N2 && j <= M2;
        mon::same(a.C(i, j), a0.C(i, j) + (in ? b0.C(i, j) : 0), "add_C");
        mon::same(a.S(i, j), a0.S(i, j) + (in ? b0.S(i, j) : 0), "add_S");
        if (i <= N2) {
          mon::same(b.C(i, j), b0.C(i, j), "add_operand");
          mon::same(b.S(i, j), b0.S(i, j), "add_operand");
        }
      }
    check(a.max_degree() == N1 && a.max_order() == M1 && a.GM() == a0.GM() && a.Re() == a0.Re(),
          "add_meta", "metadata changed");
    mon::eval(mon::hash(N1, M1, N2, M2), N2 > 0);
    if (t < 2) mon::sample("%d/%d += %d/%d", N1, M1, N2, M2);
  }
}
void s_leak() {
  auto work = [](uint64_t s) {
    mon::Rng g(s);
    int n = g.in(1, 30);
    StokesCoeffs a(n), b(n, n / 2), c, d(n + 2);
    a.clear(); b.clear(); d.clear();
    c = a;
    c = std::move(b);
    b = StokesCoeffs(n + 1);
    b.resize(n, n);
    b.clear();
    d += a;
    try { a += d; } catch (std::runtime_error &) {}
    a.cresize(n + 4, n);
    swap(a, d);
    StokesCoeffs e(std::move(a));
    a = e;
    a.Cnm() = 1.0 * e.Cnm() + 2.0 * e.Cnm();
    auto m = e.to_anm();
    a = StokesCoeffs::from_anm(m);
  };
  for (int i = 0; i < 40; i++) work(i);
  long before = mon::live_bytes(), n = mon::N(400, 4000);
  for (long i = 0; i < n; i++) {
    mon::ctx("leak %ld", i);
    work(i % 40);
  }
  long grown = mon::live_bytes() - before;
  check(grown <= 0, "leak", "%ld bytes live after %ld balanced histories", grown, n);
  for (long i = 0; i < n; i++) mon::eval(mon::hash(i % 40));
}

// ---------------------------------------------------------------- C05
void s_anm() {
  MON_KEY_RNG(g);
  long n = mon::N(250, 2500);
  for (long t = 0; t < n; t++) {
    int N = t < 60 ? t % 30 : t % 100 == 99 ? g.in(200, 450) : g.in(0, 90), M = g.coin(.5) ? N : g.in(0, N);
    mon::ctx("to_anm %d/%d", N, M);
    StokesCoeffs s(N, M);
    bool bigger = g.coin(.3); // a view of a larger instance
    int D = N;
    if (bigger) {
      D = N + g.in(1, 6);
      s = StokesCoeffs(D, D);
    }
    s.clear();
    long uid = 1;
    for (int i = 0; i <= D; i++)
      for (int j = 0; j <= std::min(i, bigger ? D : M); j++) {
        s.C(i, j) = uid++;
        s.S(i, j) = j ? -(double)uid++ : 0e0;
      }
    if (bigger) s.shrink_dimensions(N, M);
    Eigen::MatrixXd a = s.to_anm();
    if (!check(a.rows() == N + 1 && a.cols() == N + 1, "shape", "to_anm of degree %d is %ldx%ld", N,
               (long)a.rows(), (long)a.cols()))
      continue;
    for (int i = 0; i <= N; i++)
      for (int j = 0; j <= i; j++) {
        mon::same(a(i, j), s.C(i, j), "to_anm_C");
        if (j) mon::same(a(j - 1, i), s.S(i, j), "to_anm_S");
      }
    // and back, from a matrix whose every entry is distinct
    Eigen::MatrixXd q(N + 1, N + 1);
    for (int i = 0; i <= N; i++)
      for (int j = 0; j <= N; j++) q(i, j) = 1 + i * 1000 + j + g.u() / 4;
    int ord = g.coin(.3) ? -1 : (int)g.in(0, N);
    StokesCoeffs r = ord < 0 && g.coin() ? StokesCoeffs::from_anm(q) : StokesCoeffs::from_anm(q, ord);
    check(r.max_degree() == N && r.max_order() == (ord < 0 ? N : ord), "from_dims",
          "from_anm(%dx%d,%d) is %d/%d", N + 1, N + 1, ord, r.max_degree(), r.max_order());
    for (int i = 0; i <= N; i++)
      for (int j = 0; j <= i; j++) {
        int lim = ord < 0 ? N : ord;
        if (j > lim) continue; // not part of the expansion
        mon::same(r.C(i, j), q(i, j), "from_anm_C");
        mon::same(r.S(i, j), j ? q(j - 1, i) : 0e0, "from_anm_S");
      }
    // round trips, both ways
    StokesCoeffs back = StokesCoeffs::from_anm(a, M);
    check(back.max_degree() == N && back.max_order() == M, "rt_dims", "%d/%d", back.max_degree(),
          back.max_order());
    for (int i = 0; i <= N; i++)
      for (int j = 0; j <= std::min(i, M); j++) {
        mon::same(back.C(i, j), s.C(i, j), "roundtrip_C");
        mon::same(back.S(i, j), s.S(i, j), "roundtrip_S");
      }
    StokesCoeffs fullr = StokesCoeffs::from_anm(q);
    Eigen::MatrixXd q2 = fullr.to_anm();
    check(q2.rows() == N + 1 && q2.cols() == N + 1 && (q2.array() == q.array()).all(), "roundtrip_anm",
          "to_anm(from_anm(A)) != A for degree %d", N);
    mon::eval(mon::hash(N, M, ord, bigger), N > 0);
    if (t % 80 == 61) mon::sample("degree %d order %d, stored in degree %d", N, M, D);
  }
}

int main(int argc, char **argv) {
  return mon::run(argc, argv,
                  {{"history", s_history}, {"add_large", s_add_large}, {"leak", s_leak}, {"anm", s_anm}});
}
