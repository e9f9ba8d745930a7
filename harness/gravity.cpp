// C06 Legendre functions, C07/C08 spherical harmonics acceleration/gradient,
// C09 truncation, defaults and scratch space, C10 point mass.
#include "gravity_oracle.hpp"
#include "gravity.hpp"
#include "mon.hpp"
#include <cstdio>

using namespace dso;
using mon::check;
typedef CoeffMatrix2D<MatrixStorageType::LwTriangularColWise> Mat;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 3, 3> M3;
static const double PI = 3.14159265358979323846;

// ---------------------------------------------------------------- C06
static double pick_lat(mon::Rng &g, long t) {
  static const double sp[] = {0, 1e-9, -1e-9, PI / 4, -PI / 4, 0.3, -1.2, 1.5, -1.5, 1.55, -1.55, 1e-3};
  if (t < 12) return sp[t];
  if (g.coin(.15)) return (g.coin() ? 1 : -1) * (PI / 2 - std::pow(10., g.real(-3, 0)));
  if (g.coin(.1)) return g.real(-3.1, 3.1); // any angle
  return g.real(-1.5, 1.5);
}
static void legendre_case(double lat, int N, int M, int size, bool deriv, mon::Rng &g) {
  mon::ctx("lat=%.17g degree=%d order=%d matrix=%d deriv=%d", lat, N, M, size, deriv);
  Mat P(size, size), D(size, size);
  const double poison = g.coin() ? 1e300 : std::nan("");
  P.fill_with(poison);
  D.fill_with(poison);
  int st = deriv ? normalised_associated_legendre_functions(lat, N, M, P, D)
                 : normalised_associated_legendre_functions(lat, N, M, P);
  check(st == 0, "status", "returned %d", st);
  oracle::Legendre L(lat, N);
  const double u = std::abs(std::cos(lat));
  for (int m = 0; m <= M; m++) {
    double colmax = 0;
    // where P(m,m) is denormal its relative error is carried along the column
    const double pmm = std::abs((double)L.P(m, m)), und = pmm < 1e-300 ? std::min(2., 2e-322 * (m + 1) / (pmm + 1e-323)) : 0;
    for (int n = m; n <= N; n++) {
      double ref = L.P(n, m);
      colmax = std::max(colmax, std::abs(ref));
      double tol = 2e-14 * (n + 10) * colmax + (1e-12 + und) * std::abs(ref) + 1e-250;
      if (!check(std::abs(P(n, m) - ref) <= tol, "P", "P(%d,%d)=%.17g expected %.17g", n, m, P(n, m), ref))
        return;
      if (deriv) {
        double dref = L.D(n, m), prev = n > m ? std::abs((double)L.P(n - 1, m)) : 0;
        // (n t P(n,m) - f P(n-1,m))/u : error of the P's amplified by n/u
        double dt = 2e-14 * (n + 10) * (n + 1) / u * (colmax + prev) + 1e-11 * std::abs(dref) + 1e-250 +
                    und * (n + 1) / u * (std::abs(ref) + prev);
        if (!check(std::abs(D(n, m) - dref) <= dt, "dP", "dP(%d,%d)=%.17g expected %.17g (tol %.2g)", n, m,
                   D(n, m), dref, dt))
          return;
      }
    }
  }
  // addition theorem: sum_m P(n,m)^2 = 2n+1
  if (M == N)
    for (int n = 0; n <= N; n++) {
      double s = 0;
      for (int m = 0; m <= n; m++) s += P(n, m) * P(n, m);
      check(std::abs(s - (2 * n + 1)) <= 1e-11 * (2 * n + 1), "addition",
            "sum_m P(%d,m)^2 = %.17g expected %d", n, s, 2 * n + 1);
    }
  mon::eval(mon::hash(mon::bits(lat), N, M, size, deriv), N > 0);
}
void s_alf() {
  MON_KEY_RNG(g);
  // exhaustive small degree/order/matrix size, both overloads
  int lim = mon::thorough() ? 14 : 9;
  for (int N = 0; N <= lim; N++)
    for (int M = 0; M <= N; M++)
      for (int extra = 0; extra <= 2; extra++)
        for (int k = 0; k < 3; k++)
          for (int dv = 0; dv < 2; dv++) legendre_case(pick_lat(g, g.in(0, 30)), N, M, N + 1 + extra, dv, g);
  long n = mon::N(150, 1500);
  for (long t = 0; t < n; t++) {
    int N = t % 4 ? g.in(0, 60) : g.in(60, 240), M = g.coin(.5) ? N : g.in(0, N);
    legendre_case(pick_lat(g, t), N, M, N + 1 + (g.coin(.3) ? g.in(1, 5) : 0), g.coin(), g);
  }
  mon::sample("exhaustive degree<=%d x order x matrix size, plus %ld random up to degree 240", lim, n);
}
void s_alf_high() {
  MON_KEY_RNG(g);
  long n = mon::N(4, 16);
  for (long t = 0; t < n; t++) {
    int N = t == 0 ? 1100 : g.in(600, 1200), M = t % 2 ? g.in(0, N) : N;
    legendre_case(t % 4 == 3 ? g.real(-1.56, 1.56) : g.real(-1.0, 1.0), N, M, N + 1, t % 2, g);
    mon::sample("degree %d order %d", N, M);
  }
}
// the values for (n,m) do not depend on how far the expansion goes
void s_alf_prefix() {
  MON_KEY_RNG(g);
  long n = mon::N(200, 2000);
  for (long t = 0; t < n; t++) {
    double lat = pick_lat(g, t);
    int N = g.in(1, 50), M = g.in(0, N), N2 = g.in(0, N), M2 = g.in(0L, std::min(N2, M));
    mon::ctx("lat=%.17g %d/%d vs %d/%d", lat, N, M, N2, M2);
    Mat A(N + 1, N + 1), B(N2 + 1, N2 + 1), C(N + 1, N + 1), D(N + 1, N + 1);
    A.fill_with(0);
    B.fill_with(0);
    C.fill_with(0);
    D.fill_with(0);
    normalised_associated_legendre_functions(lat, N, M, A);
    normalised_associated_legendre_functions(lat, N2, M2, B);
    normalised_associated_legendre_functions(lat, N, M, C, D);
    for (int m = 0; m <= M2; m++)
      for (int k = m; k <= N2; k++)
        check(std::abs(A(k, m) - B(k, m)) <= 1e-13 * (1 + std::abs(A(k, m))), "prefix", "P(%d,%d) %.17g vs %.17g",
              k, m, A(k, m), B(k, m));
    for (int m = 0; m <= M; m++)
      for (int k = m; k <= N; k++)
        check(std::abs(A(k, m) - C(k, m)) <= 1e-13 * (1 + std::abs(A(k, m))), "overload",
              "P(%d,%d) %.17g vs %.17g of the derivative overload", k, m, A(k, m), C(k, m));
    // parity: P(n,m)(-lat) = (-1)^(n+m) P(n,m)(lat)
    Mat E(N + 1, N + 1);
    E.fill_with(0);
    normalised_associated_legendre_functions(-lat, N, M, E);
    for (int m = 0; m <= M; m++)
      for (int k = m; k <= N; k++)
        check(std::abs(A(k, m) - ((k + m) % 2 ? -E(k, m) : E(k, m))) <= 1e-12 * (1 + std::abs(A(k, m))), "parity",
              "P(%d,%d)", k, m);
    mon::eval(mon::hash(mon::bits(lat), N, M, N2, M2));
  }
}

// ------------------------------------------------------- C07, C08, C09
static V3 pick_pos(mon::Rng &g, long t, double Re) {
  V3 r;
  switch (t % 12) {
  case 0: return V3(0, 0, Re * g.real(1.01, 2));
  case 1: return V3(0, 0, -Re * g.real(1.01, 2));
  case 2: return V3(Re * 1.1, 0, 0);
  case 3: return V3(0, -Re * 1.2, 0);
  case 4: return V3(-Re * .8, 0, Re * .8);
  case 5: return V3(1e-6 * Re, -2e-7 * Re, Re * 1.05); // next to the pole
  case 6: return V3(Re * 1.03 * std::cos(g.real(-4, 4)), Re * 1.03, 0);
  default:
    r = V3(g.sym(), g.sym(), g.sym());
    if (r.norm() < 1e-3) r = V3(1, .3, .2);
    if (g.coin(.1)) r(g.in(0, 2)) = 0; // in one of the coordinate planes
    if (g.coin(.08)) return r * (Re * std::pow(10., g.real(1, 5)) / r.norm()); // far away
    if (g.coin(.08)) return r * (Re * g.real(.3, 1) / r.norm());               // below the reference radius
    if (g.coin(.05)) return V3((g.coin() ? 1 : -1) * std::pow(10., g.real(-12, -2)), 1e-9 * g.sym(), g.coin() ? 1 : -1) * (Re * 1.1);
    return r * (Re * (t % 3 ? g.real(1.0, 1.3) : g.real(1.3, 7)) / r.norm());
  }
}
static StokesCoeffs random_cs(mon::Rng &g, int N, int M, int style) {
  double GM = g.coin() ? iers2010::GMe : g.real(1e13, 9e14), Re = g.coin() ? iers2010::Re : g.real(1e6, 9e6);
  StokesCoeffs s(N, M, GM, Re);
  s.clear();
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= std::min(n, M); m++) {
      double w = style == 0 ? 1 : style == 1 ? 1. / ((n + 1.) * (n + 1.)) : std::pow(10., g.real(-6, 0));
      s.C(n, m) = w * g.sym();
      s.S(n, m) = w * g.sym(); // S(n,0) must be irrelevant
    }
  if (style == 1) s.C(0, 0) = 1; // Earth like
  return s;
}
static bool fin(const V3 &a, const M3 &G) { return a.allFinite() && G.allFinite(); }
static void cmp_field(const V3 &a, const M3 &G, const oracle::Field &F, int N, bool acc, bool grad) {
  double ta = 1e-15 * (N + 10) * 30 * (double)F.sa + 1e-300, th = 1e-15 * (N + 10) * 30 * (double)F.sh + 1e-300;
  if (acc) {
    for (int i = 0; i < 3; i++)
      check(std::abs(a(i) - (double)F.a[i]) <= ta, "acceleration",
            "component %d: %.17g, gradient of the potential is %.17g (tol %.2g)", i, a(i), (double)F.a[i], ta);
  }
  if (grad) {
    static const int I[6] = {0, 0, 0, 1, 1, 2}, K[6] = {0, 1, 2, 1, 2, 2};
    for (int k = 0; k < 6; k++)
      check(std::abs(G(I[k], K[k]) - (double)F.h[k]) <= th, "gradient",
            "element (%d,%d): %.17g, second derivative of the potential is %.17g (tol %.2g)", I[k], K[k],
            G(I[k], K[k]), (double)F.h[k], th);
    check(std::abs(G(0, 1) - G(1, 0)) <= th && std::abs(G(0, 2) - G(2, 0)) <= th && std::abs(G(1, 2) - G(2, 1)) <= th,
          "symmetry", "gradient not symmetric");
    check(std::abs(G.trace()) <= 3 * th, "laplace", "trace %.3g of gradient (scale %.3g)", G.trace(), (double)F.sh);
  }
  check(fin(a, G), "finite", "non finite result");
}
static void sh_case(const StokesCoeffs &cs, const V3 &r, int N, int M, double Re, double GM, bool acc, bool grad) {
  mon::ctx("cs %d/%d expansion %d/%d r=(%.17g,%.17g,%.17g) Re=%g GM=%g", cs.max_degree(), cs.max_order(), N, M,
           r(0), r(1), r(2), Re, GM);
  V3 a(7, 7, 7);
  M3 G = M3::Constant(7);
  int st = sh2gradient_cunningham(cs, r, a, G, N, M, Re, GM);
  if (!check(st == 0, "status", "returned %d", st)) return;
  int n = N < 0 ? cs.max_degree() : N, m = M < 0 ? cs.max_order() : M;
  oracle::Field F = oracle::field(cs, r.data(), n, m, Re < 0 ? cs.Re() : Re, GM < 0 ? cs.GM() : GM);
  cmp_field(a, G, F, n, acc, grad);
  mon::eval(mon::hash(n, m, mon::bits(r(0)), mon::bits(r(1)), mon::bits(r(2)), mon::bits(Re)), n > 0);
}
static void sh_random(bool acc, bool grad) {
  mon::Rng g(mon::hash(mon::S().seed, 500 + acc));
  // every single coefficient on its own, small degree, several points
  int lim = mon::thorough() ? 12 : 8;
  for (int n = 0; n <= lim; n++)
    for (int m = 0; m <= n; m++)
      for (int q = 0; q < 2; q++) {
        if (q && !m) continue;
        StokesCoeffs cs(n, n);
        cs.clear();
        (q ? cs.S(n, m) : cs.C(n, m)) = g.coin() ? 1 : -1;
        for (int t = 0; t < 9; t++) sh_case(cs, pick_pos(g, t < 6 ? t : 7 + g.in(0, 4), cs.Re()), -1, -1, -1, -1, acc, grad);
        mon::count("single_coefficient_fields", 9);
      }
  // single coefficient at high degree
  long n1 = mon::N(160, 1200);
  for (long t = 0; t < n1; t++) {
    int n = t % 4 == 0 ? 198 : t % 4 == 1 ? (int)g.in(190, 198) : (int)g.in(20, 198),
        m = t % 3 == 0 ? n - (int)g.in(0, 4) : t % 3 == 1 ? (int)g.in(0, 3) : (int)g.in(0, n);
    StokesCoeffs cs(n, n);
    cs.clear();
    (m && g.coin() ? cs.S(n, m) : cs.C(n, m)) = 1e-3;
    V3 r = pick_pos(g, t, cs.Re());
    if (t > 30) { // where the harmonic is not small
      double la = m > n / 2 ? g.real(-.05, .05) : g.real(-.9, .9), lo = g.real(-4, 4);
      r = cs.Re() * V3(std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la));
    }
    sh_case(cs, r, n, n, -1, -1, acc, grad);
  }
  // full random fields, all orders of truncation
  long n2 = mon::N(220, 2500);
  for (long t = 0; t < n2; t++) {
    int n = t % 8 == 0 ? g.in(20, 120) : g.in(0, 16);
    if (t == 3 || t == 7 || t == 11 || t % 300 == 9) n = 198;
    int m = g.coin(.5) ? n : g.in(0, n);
    StokesCoeffs cs = random_cs(g, n, m, t % 3);
    int N = g.coin(.6) ? -1 : (int)g.in(0, n);
    int M = N < 0 && g.coin(.5) ? -1 : (int)g.in(0L, std::min(N < 0 ? n : N, m));
    sh_case(cs, pick_pos(g, t, cs.Re()), N, M, -1, -1, acc, grad);
    if (t % 80 == 20) mon::sample("%s", mon::S().ctx);
  }
}
void s_acc() { sh_random(true, false); }
void s_grad() { sh_random(false, true); }
// finite differences of the code's own acceleration agree with its gradient
void s_grad_fd() {
  MON_KEY_RNG(g);
  long n = mon::N(120, 1200);
  for (long t = 0; t < n; t++) {
    int d = g.in(1, 30), o = g.coin(.5) ? d : g.in(0, d);
    StokesCoeffs cs = random_cs(g, d, o, 1);
    V3 r = pick_pos(g, t, cs.Re()), a;
    if (r.norm() < 1.001 * cs.Re()) r *= 1.01 * cs.Re() / r.norm();
    M3 G, X, D;
    mon::ctx("fd %d/%d r=(%.17g,%.17g,%.17g)", d, o, r(0), r(1), r(2));
    if (!check(!sh2gradient_cunningham(cs, r, a, G), "status", "error status")) continue;
    double h = r.norm() * 2e-4;
    bool ok = true;
    for (int k = 0; k < 3; k++) { // 4th order central difference
      V3 f[4];
      static const double o4[4] = {-2, -1, 1, 2};
      for (int q = 0; q < 4; q++) {
        V3 rp = r;
        rp(k) += o4[q] * h;
        ok = ok && !sh2gradient_cunningham(cs, rp, f[q], X);
      }
      D.col(k) = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h);
    }
    check(ok, "status", "error status");
    oracle::Field F = oracle::field(cs, r.data(), d, o, cs.Re(), cs.GM());
    double x = (d + 5) * 2e-4, tol = (double)F.sh * (2 * x * x * x * x + 1e-9);
    check((D - G).cwiseAbs().maxCoeff() <= tol, "gradient_fd", "max |fd-gradient|=%.3g (tol %.3g)",
          (D - G).cwiseAbs().maxCoeff(), tol);
    mon::eval(mon::hash(d, o, mon::bits(r(0))));
  }
}

using mon::Quiet;
// C09: truncation == zeroed coefficients; given Re/GM; scratch independence
void s_params() {
  MON_KEY_RNG(g);
  long n = mon::N(250, 2500);
  for (long t = 0; t < n; t++) {
    int d = g.in(0, t % 10 ? 14 : 70), o = g.coin(.5) ? d : g.in(0, d);
    StokesCoeffs cs = random_cs(g, d, o, t % 3);
    int N = g.in(0, d), M = g.in(0L, std::min(N, o));
    V3 r = pick_pos(g, t, cs.Re()), a, b;
    M3 A, B;
    double Re = g.coin() ? -1 : cs.Re() * g.real(.8, 1.2), GM = g.coin() ? -1 : cs.GM() * g.real(.5, 2);
    mon::ctx("cs %d/%d expansion %d/%d Re=%g GM=%g r=(%.17g,%.17g,%.17g)", d, o, N, M, Re, GM, r(0), r(1), r(2));
    if (!check(!sh2gradient_cunningham(cs, r, a, A, N, M, Re, GM), "status", "error status")) continue;
    oracle::Field F = oracle::field(cs, r.data(), N, M, Re < 0 ? cs.Re() : Re, GM < 0 ? cs.GM() : GM);
    cmp_field(a, A, F, N, true, true);
    if (g.coin(.4)) { // the same set, point and request, after the set was changed in place
      for (int k = (int)g.in(1, 4); k--;) {
        const int i = (int)g.in(0, d), j = (int)g.in(0, std::min(i, o));
        (g.coin() ? cs.C(i, j) : cs.S(i, j)) += g.sym();
      }
      if (g.coin(.2)) cs.scale(g.real(.5, 2));
      V3 r1 = r;
      if (g.coin(.3)) r1(g.in(0, 2)) *= g.real(1., 1.1);
      check(!sh2gradient_cunningham(cs, r1, a, A, N, M, Re, GM), "status", "error status");
      F = oracle::field(cs, r1.data(), N, M, Re < 0 ? cs.Re() : Re, GM < 0 ? cs.GM() : GM);
      cmp_field(a, A, F, N, true, true);
      r = r1;
    }
    double ta = 1e-13 * (double)F.sa + 1e-300, th = 1e-13 * (double)F.sh + 1e-300;
    auto eq = [&](const char *key) {
      check((a - b).cwiseAbs().maxCoeff() <= ta && (A - B).cwiseAbs().maxCoeff() <= th, key,
            "acc diff %.3g (tol %.3g), gradient diff %.3g (tol %.3g)", (a - b).cwiseAbs().maxCoeff(), ta,
            (A - B).cwiseAbs().maxCoeff(), th);
    };
    { // a smaller instance holding just the truncated field
      StokesCoeffs z(N, M, GM < 0 ? cs.GM() : GM, Re < 0 ? cs.Re() : Re);
      z.clear();
      for (int i = 0; i <= N; i++)
        for (int j = 0; j <= std::min(i, M); j++) {
          z.C(i, j) = cs.C(i, j);
          z.S(i, j) = cs.S(i, j);
        }
      check(!sh2gradient_cunningham(z, r, b, B), "status", "error status");
      eq("truncation");
    }
    { // the same instance, with everything outside the truncation changed
      StokesCoeffs z(cs);
      for (int i = 0; i <= d; i++)
        for (int j = 0; j <= i; j++)
          if (i > N || j > M) z.C(i, j) = z.S(i, j) = 1e3 * g.sym();
      check(!sh2gradient_cunningham(z, r, b, B, N, M, Re, GM), "status", "error status");
      eq("outside_truncation");
    }
    { // scratch space: poisoned, larger, only one, reused
      int ex = g.coin(.5) ? 0 : g.in(1, 9), ex2 = g.coin(.5) ? 0 : g.in(1, 9);
      Mat W(N + 3 + ex, N + 3 + ex), M_(N + 3 + ex2, N + 3 + ex2);
      W.fill_with(std::nan(""));
      M_.fill_with(std::nan(""));
      Mat *pw = t % 4 == 1 ? nullptr : &W, *pm = t % 4 == 2 ? nullptr : &M_;
      check(!sh2gradient_cunningham(cs, r, b, B, N, M, Re, GM, pw, pm), "status", "error status with scratch");
      eq("scratch");
      V3 c;
      M3 C;
      V3 r2 = pick_pos(g, g.in(0, 20), cs.Re());
      check(!sh2gradient_cunningham(cs, r2, c, C, N, std::min(N, (int)g.in(0, M)), Re, GM, pw, pm), "status", "error");
      check(!sh2gradient_cunningham(cs, r, b, B, N, M, Re, GM, pw, pm), "status", "error");
      eq("scratch_reused");
    }
    { // linearity
      StokesCoeffs z(cs);
      double k = g.coin() ? -2 : .5;
      z.scale(k);
      check(!sh2gradient_cunningham(z, r, b, B, N, M, Re, GM), "status", "error status");
      b /= k;
      B /= k;
      eq("linear");
    }
    { // rotation of field and point about z by a
      double al = g.real(-3, 3);
      StokesCoeffs z(cs);
      for (int i = 0; i <= d; i++)
        for (int j = 1; j <= std::min(i, o); j++) {
          double c = std::cos(j * al), s = std::sin(j * al);
          z.C(i, j) = c * cs.C(i, j) - s * cs.S(i, j);
          z.S(i, j) = s * cs.C(i, j) + c * cs.S(i, j);
        }
      M3 Q;
      Q << std::cos(al), -std::sin(al), 0, std::sin(al), std::cos(al), 0, 0, 0, 1;
      check(!sh2gradient_cunningham(z, Q * r, b, B, N, M, Re, GM), "status", "error status");
      b = Q.transpose() * b;
      B = Q.transpose() * B * Q;
      ta = 1e-13 * (N + 10) * (double)F.sa + 1e-300;
      th = 1e-13 * (N + 10) * (double)F.sh + 1e-300;
      eq("rotation");
    }
    mon::eval(mon::hash(d, o, N, M, t), d > 0);
    if (t % 60 == 7) mon::sample("%s", mon::S().ctx);
  }
}
// every (degree, order, request) combination of small size: accepted requests
// give the right field, rejected ones an error
void s_requests() {
  MON_KEY_RNG(g);
  int lim = mon::thorough() ? 7 : 5;
  Quiet q;
  for (int d = 0; d <= lim; d++)
    for (int o = 0; o <= d; o++) {
      StokesCoeffs cs = random_cs(g, d, o, 0);
      for (int N = -1; N <= lim + 1; N++)
        for (int M = -1; M <= lim + 1; M++) {
          V3 r = pick_pos(g, g.in(0, 40), cs.Re()), a(1, 2, 3);
          M3 A = M3::Constant(5);
          int n = N < 0 ? d : N, m = M < 0 ? o : M;
          bool ok = m <= n && n <= d && m <= o;
          mon::ctx("cs %d/%d request %d/%d", d, o, N, M);
          int st = sh2gradient_cunningham(cs, r, a, A, N, M);
          check((st == 0) == ok, ok ? "rejected" : "accepted", "request %d/%d on %d/%d returned %d", N, M, d, o, st);
          if (ok && !st) cmp_field(a, A, oracle::field(cs, r.data(), n, m, cs.Re(), cs.GM()), n, true, true);
          mon::count(ok ? "accepted" : "rejected");
          // scratch of every nearby size
          if (ok)
            for (int sz = std::max(0, n - 1); sz <= n + 4; sz++) {
              Mat W(sz, sz), S(n + 3, n + 3);
              bool first = g.coin();
              int st2 = first ? sh2gradient_cunningham(cs, r, a, A, N, M, -1, -1, &W, &S)
                              : sh2gradient_cunningham(cs, r, a, A, N, M, -1, -1, &S, &W);
              if (sz >= n + 3) {
                check(!st2, "scratch_rejected", "scratch of %d for degree %d rejected", sz, n);
                if (!st2) cmp_field(a, A, oracle::field(cs, r.data(), n, m, cs.Re(), cs.GM()), n, true, true);
              } else
                check(st2, "scratch_accepted", "scratch of %d for degree %d accepted", sz, n);
            }
          mon::eval(mon::hash(d, o, N, M), d > 0);
        }
    }
  // above the static limit: an error, not a crash
  for (int n : {199, 200, 220}) {
    StokesCoeffs cs(n, n);
    cs.clear();
    cs.C(0, 0) = 1;
    V3 r(7e6, 1e5, 2e5), a;
    M3 A;
    mon::ctx("degree %d", n);
    int st = sh2gradient_cunningham(cs, r, a, A);
    if (st == 0) cmp_field(a, A, oracle::field(cs, r.data(), n, n, cs.Re(), cs.GM()), n, true, true);
    mon::count(st ? "limit_rejected" : "limit_computed");
    check(!sh2gradient_cunningham(cs, r, a, A, 20, 20), "status", "truncated request rejected");
    mon::eval(mon::hash(n));
  }
}
void s_sh_leak() {
  MON_KEY_RNG(g);
  Quiet q;
  StokesCoeffs cs = random_cs(g, 10, 8, 0);
  V3 r(7e6, 1e5, 2e5), a;
  M3 A;
  Mat W(13, 13), M(13, 13), tiny(4, 4);
  auto work = [&] {
    (void)sh2gradient_cunningham(cs, r, a, A);
    (void)sh2gradient_cunningham(cs, r, a, A, 5, 3);
    (void)sh2gradient_cunningham(cs, r, a, A, 5, 9);
    (void)sh2gradient_cunningham(cs, r, a, A, 11, 3);
    (void)sh2gradient_cunningham(cs, r, a, A, -1, -1, -1, -1, &W, &M);
    (void)sh2gradient_cunningham(cs, r, a, A, -1, -1, -1, -1, &W, nullptr);
    (void)sh2gradient_cunningham(cs, r, a, A, -1, -1, -1, -1, nullptr, &M);
    (void)sh2gradient_cunningham(cs, r, a, A, -1, -1, -1, -1, &tiny, nullptr);
    (void)sh2gradient_cunningham(cs, r, a, A, -1, -1, -1, -1, nullptr, &tiny);
  };
  work();
  work();
  long before = mon::live_bytes(), n = mon::N(200, 2000);
  for (long i = 0; i < n; i++) work();
  long grown = mon::live_bytes() - before;
  check(grown <= 0, "leak", "%ld bytes live after %ld calls", grown, 9 * n);
  for (int i = 0; i < n; i++) mon::eval(i % 9);
}

// ---------------------------------------------------------------- C10
void s_pointmass() {
  MON_KEY_RNG(g);
  typedef long double R;
  long n = mon::N(4000, 60000);
  for (long t = 0; t < n; t++) {
    double unit = g.coin() ? 1 : 1e-3; // m or km
    V3 r, c;
    for (int i = 0; i < 3; i++) {
      r(i) = unit * g.wide(5, 8);
      c(i) = unit * g.wide(g.coin() ? 5 : 8, 12);
    }
    if (t % 50 == 0) r(t / 50 % 3) = 0;
    if (t % 70 == 0) c(t / 70 % 3) = 0;
    if (t % 90 == 0) r = V3(0, 0, 0); // the centre itself
    if (t % 110 == 0) r = c + V3(g.sym(), g.sym(), 1) * unit * 1e3;
    double GM = std::pow(10., g.real(3, 21)) * unit * unit * unit;
    mon::ctx("r=(%.17g,%.17g,%.17g) rcb=(%.17g,%.17g,%.17g) GM=%.17g", r(0), r(1), r(2), c(0), c(1), c(2), GM);
    V3 r0 = r, c0 = c;
    M3 Jm = M3::Constant(3);
    V3 a = point_mass_acceleration(r, c, GM), b = point_mass_acceleration(r, c, GM, Jm);
    check(r == r0 && c == c0, "inputs", "inputs changed");
    R s[3], s2 = 0, c2 = 0;
    for (int i = 0; i < 3; i++) {
      s[i] = (R)r(i) - (R)c(i);
      s2 += s[i] * s[i];
      c2 += (R)c(i) * c(i);
    }
    R s3 = s2 * std::sqrt(s2), c3 = c2 * std::sqrt(c2);
    // r-rcb is rounded to double first: relative error eps*|rcb|/|s|
    double cond = 1 + (double)(std::sqrt(c2 / s2));
    double ta = 1e-15 * GM * ((double)(1 / s2) * cond * 8 + (double)(8 / c2));
    for (int i = 0; i < 3; i++) {
      double ref = -(R)GM * (s[i] / s3 + (R)c(i) / c3);
      check(std::abs(a(i) - ref) <= ta, "acceleration", "component %d %.17g expected %.17g", i, a(i), ref);
      check(std::abs(b(i) - ref) <= ta, "acceleration_j", "component %d %.17g expected %.17g", i, b(i), ref);
      for (int k = 0; k < 3; k++) {
        double jr = -(R)GM * ((i == k ? 1 : 0) / s3 - 3 * s[i] * s[k] / (s3 * s2));
        double tj = 1e-15 * GM * (double)(1 / s3) * cond * 40;
        check(std::abs(Jm(i, k) - jr) <= tj, "jacobian", "(%d,%d) %.17g expected %.17g", i, k, Jm(i, k), jr);
      }
    }
    mon::eval(mon::hash(mon::bits(r(0)), mon::bits(c(1))));
    if (t % 1500 == 13) mon::sample("%s", mon::S().ctx);
  }
}

int main(int argc, char **argv) {
  return mon::run(argc, argv,
                  {{"alf", s_alf}, {"alf_high", s_alf_high}, {"alf_prefix", s_alf_prefix}, {"acc", s_acc},
                   {"grad", s_grad}, {"grad_fd", s_grad_fd}, {"params", s_params}, {"requests", s_requests},
                   {"sh_leak", s_sh_leak}, {"pointmass", s_pointmass}});
}
