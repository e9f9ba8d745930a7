// Solid Earth tide: geopotential (IERS 2010, 6.2.1) and site displacement (7.1.1), against the closed formulae.
#include "mon.hpp"
#include "solid_earth_tide.hpp"
#include "solidtide_oracle.hpp"
#include <array>
#include <memory>
#include <vector>
using namespace mon;
static const char *name(char w, int n, int m) {
  static char b[16];
  snprintf(b, sizeof b, "%c(%d,%d)", w, n, m);
  return b;
}
struct Mute {   // the DEBUG build prints
  FILE *was = stdout, *nul = fopen("/dev/null", "w");
  Mute() { stdout = nul; }
  ~Mute() { stdout = was, fclose(nul); }
};
// everything as it was but for a little: no two of these are the same case
static void near_by(Rng &r, Case &c) {
  auto move = [&](V3 &v) {
    if (r.coin()) v += direction(r) * v.norm() * std::pow(10., r.real(-9, -3));
  };
  move(c.moon), move(c.sun), move(c.sta);
  for (double &x : c.f)
    if (r.coin(.3)) x += r.sym() * std::pow(10., r.real(-9, -2));
}
// other constants for the bodies, the site and the epoch of the case before
static Case next(Rng &r) {
  static Case last;
  static bool any = false;
  Case c = draw(r);
  if (any && r.coin(.2)) {
    Case o = last;
    if (r.coin(.7)) o.gme = c.gme;
    if (r.coin(.7)) o.re = c.re;
    if (r.coin(.7)) o.gms = c.gms;
    if (r.coin(.7)) o.gmm = c.gmm;
    c = o;
  }
  any = true;
  return last = c;
}
static void stokes() {
  Mute mute;
  Rng r(S().seed);
  auto fresh = [](const Case &c) { return std::make_unique<dso::SolidEarthTide>(c.gme, c.re, c.gms, c.gmm); };
  for (long k = 0, n = N(12000, 400000); k < n; k++) {
    Case c = next(r);
    auto set = fresh(c);
    for (int again = (int)r.in(1, 3); again--;) {
      describe(c);
      check(set->stokes_coeffs(c.tt, c.ut, c.moon, c.sun, c.f) == 0, "status", "stokes_coeffs");
      const auto &cs = set->stokes_coeffs();
      check(cs.max_degree() == 4 && cs.max_order() == 4, "shape", "%dx%d", cs.max_degree(), cs.max_order());
      near(cs.GM(), c.gme, 0, "constants", "GM");
      near(cs.Re(), c.re, 0, "constants", "Re");
      LD C[5][5], Sn[5][5], sc[5];
      expect_stokes(c, C, Sn, sc);
      for (int a = 0; a < 5; a++)
        for (int b = 0; b <= a; b++) {
          near(cs.C(a, b), (double)C[a][b], 1e-10 * (double)sc[a], "C", name('C', a, b));
          if (b) near(cs.S(a, b), (double)Sn[a][b], 1e-10 * (double)sc[a], "S", name('S', a, b));
        }
      eval(hash(k, again, 1));
      if (k % 4000 == 0 && !again) sample("C20 %.6e C21 %.6e S22 %.6e", cs.C(2, 0), cs.C(2, 1), cs.S(2, 2));
      // the same instance at another epoch: no history
      const Case o = draw(r);
      const double p = r.coin() ? .8 : .2; // all new, or some argument new among others that stay
      if (!r.coin(p)) c.tt = o.tt, c.ut = o.ut;
      else if (r.coin(.1)) c.ut = c.tt.add_seconds(dso::FractionalSeconds(ut_minus_tt(r)));
      if (!r.coin(p)) c.moon = o.moon;
      if (!r.coin(p)) c.sun = o.sun;
      if (!r.coin(p)) c.sta = o.sta;
      for (int i = 0; i < 5; i++) if (!r.coin(p)) c.f[i] = o.f[i];
      if (r.coin(.1)) near_by(r, c);
      if (r.coin(.3)) set->displacement(o.tt, o.ut, o.sta, o.moon, o.sun, o.f);
    }
  }
}
static void expect_disp(const Case &c, LD *d) {
  const LD X = c.sta(0), Y = c.sta(1), Z = c.sta(2), R = sqrtl(X * X + Y * Y + Z * Z);
  const LD u[3] = {X / R, Y / R, Z / R};
  const LD sp = u[2], cp = sqrtl(X * X + Y * Y) / R, lam = atan2l(Y, X), sl = sinl(lam), cl = cosl(lam);
  const LD s2p = 2 * sp * cp, c2p = cp * cp - sp * sp;
  const LD east[3] = {-sl, cl, 0}, north[3] = {-sp * cl, -sp * sl, cp};
  LD E = 0, Nn = 0, U = 0;
  for (int i = 0; i < 3; i++) d[i] = 0;
  const LD p2 = (3 * sp * sp - 1) / 2, h2 = .6078L - .0006L * p2, l2 = .0847L + .0002L * p2, h3 = .292L, l3 = .015L;
  for (int b = 0; b < 2; b++) {
    const V3 &q = b ? c.sun : c.moon;
    const LD x = q(0), y = q(1), z = q(2), rr = sqrtl(x * x + y * y + z * z);
    const LD w[3] = {x / rr, y / rr, z / rr}, k = w[0] * u[0] + w[1] * u[1] + w[2] * u[2];
    const LD g = (LD)(b ? c.gms : c.gmm) / c.gme, e = c.re / rr, f2 = g * c.re * e * e * e, f3 = f2 * e;
    for (int i = 0; i < 3; i++) {
      d[i] += f2 * (h2 * u[i] * (3 * k * k - 1) / 2 + 3 * l2 * k * (w[i] - k * u[i]));
      d[i] += f3 * (h3 * u[i] * (5 * k * k * k - 3 * k) / 2 + l3 * (7.5L * k * k - 1.5L) * (w[i] - k * u[i]));
    }
    const LD sP = w[2], cP = sqrtl(x * x + y * y) / rr, dl = lam - atan2l(y, x);
    const LD s1 = sinl(dl), c1 = cosl(dl), s2 = sinl(2 * dl), c2 = cosl(2 * dl), s2P = 2 * sP * cP;
    U += f2 * (-.75L * -.0025L * s2P * s2p * s1 - .75L * -.0022L * cP * cP * cp * cp * s2);
    Nn += f2 * (-1.5L * -.0007L * s2P * c2p * s1 + .75L * -.0007L * cP * cP * s2p * s2);
    E += f2 * (-1.5L * -.0007L * s2P * sp * c1 - .75L * -.0007L * cP * cP * 2 * cp * c2);
    Nn += f2 * (-.0012L * sp * 3 * sP * cP * sp * c1 - .5L * .0024L * sp * cp * 3 * cP * cP * c2);
    E += f2 * (.0012L * sp * 3 * sP * cP * c2p * s1 - .5L * .0024L * sp * cp * 3 * cP * cP * sp * s2);
  }
  LD be[6];
  doodson(c.f, gmst(c.tt, c.ut), be);
  for (const auto &w : disp_waves) {
    const LD a = theta(w.n, be) + w.n[0] * lam, s = sinl(a), k = cosl(a);
    if (w.n[0]) {
      U += 1e-3L * (w.rip * s + w.rop * k) * s2p;
      E += 1e-3L * (w.tip * k - w.top * s) * sp;
      Nn += 1e-3L * (w.tip * s + w.top * k) * c2p;
    } else {
      U += 1e-3L * (1.5L * sp * sp - .5L) * (w.rip * k + w.rop * s);
      Nn += 1e-3L * (w.tip * k + w.top * s) * s2p;
    }
  }
  for (int i = 0; i < 3; i++) d[i] += E * east[i] + Nn * north[i] + U * u[i];
}
static void displacement() {
  Mute mute;
  Rng r(S().seed);
  for (long k = 0, n = N(25000, 800000); k < n; k++) {
    Case c = next(r);
    dso::SolidEarthTide set(c.gme, c.re, c.gms, c.gmm);
    for (int again = (int)r.in(1, 3); again--;) {
      describe(c);
      if (r.coin(.2)) set.stokes_coeffs(c.tt, c.ut, c.moon, c.sun, c.f);
      const V3 d = set.displacement(c.tt, c.ut, c.sta, c.moon, c.sun, c.f);
      LD e[3];
      expect_disp(c, e);
      for (int i = 0; i < 3; i++) near(d(i), (double)e[i], 1e-8, "displacement", i == 0 ? "x" : i == 1 ? "y" : "z");
      eval(hash(k, again, 2));
      if (k % 4000 == 0 && !again) sample("displacement %.6f %.6f %.6f m", d(0), d(1), d(2));
      const Case o = draw(r);
      const double p = r.coin() ? .8 : .2; // all new, or some argument new among others that stay
      if (!r.coin(p)) c.tt = o.tt, c.ut = o.ut;
      else if (r.coin(.1)) c.ut = c.tt.add_seconds(dso::FractionalSeconds(ut_minus_tt(r)));
      if (!r.coin(p)) c.moon = o.moon;
      if (!r.coin(p)) c.sun = o.sun;
      if (!r.coin(p)) c.sta = o.sta;
      for (int i = 0; i < 5; i++) if (!r.coin(p)) c.f[i] = o.f[i];
      if (r.coin(.1)) near_by(r, c);
    }
  }
}
static void interleaved() {   // several instances side by side: an answer depends on its own arguments only
  Mute mute;
  Rng r(S().seed);
  for (long k = 0, n = N(600, 20000); k < n; k++) {
    const int m = (int)r.in(2, 6);
    std::vector<Case> c;
    std::vector<std::unique_ptr<dso::SolidEarthTide>> s;
    for (int i = 0; i < m; i++) c.push_back(draw(r)), s.push_back(std::make_unique<dso::SolidEarthTide>(c[i].gme, c[i].re, c[i].gms, c[i].gmm));
    std::vector<std::array<double, 18>> first(m);
    std::vector<char> done(m, 0);
    for (int j = 0; j < 4 * m; j++) {
      const int i = (int)r.in(0, m - 1);
      describe(c[i]);
      s[i]->stokes_coeffs(c[i].tt, c[i].ut, c[i].moon, c[i].sun, c[i].f);
      const V3 d = s[i]->displacement(c[i].tt, c[i].ut, c[i].sta, c[i].moon, c[i].sun, c[i].f);
      std::array<double, 18> q;
      int z = 0;
      for (int a = 2; a < 5; a++) for (int b = 0; b <= 2; b++) q[z++] = s[i]->stokes_coeffs().C(a, b);
      for (int a = 2; a < 5; a++) for (int b = 1; b <= 2; b++) q[z++] = s[i]->stokes_coeffs().S(a, b);
      for (int a = 0; a < 3; a++) q[z++] = d(a);
      eval(hash(k, j, 3), done[i]);
      if (!done[i]) first[i] = q, done[i] = 1;
      else for (int a = 0; a < 18; a++) near(q[a], first[i][a], 0, "repeatable", "value");
    }
  }
}
int main(int a, char **v) { return run(a, v, {{"stokes", stokes}, {"displacement", displacement}, {"interleaved", interleaved}}); }
