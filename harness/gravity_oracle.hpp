// Independent reference computations for the gravity module, in long double.
#pragma once
#include "stokes_coefficients.hpp"
#include <cmath>
#include <vector>

namespace oracle {
typedef long double R;

// 4pi-normalised associated Legendre functions of sin(lat), from the textbook
// (unnormalised) column recursion
//   (n-m) P(n,m) = (2n-1) t P(n-1,m) - (n+m-1) P(n-2,m)
// scaled so that P(m,m)=1, then normalised; d/dcolat from the order-raising
// relation.  Indexed [n][m].
struct Legendre {
  int N;
  std::vector<R> p, d;
  R &P(int n, int m) { return p[(size_t)n * (N + 1) + m]; }
  R &D(int n, int m) { return d[(size_t)n * (N + 1) + m]; }
  explicit Legendre(double lat, int n_) : N(n_), p((size_t)(N + 1) * (N + 1), 0), d(p) {
    const R t = std::sin((R)lat), u = std::cos((R)lat);
    R sect = 1; // normalised P(m,m)
    for (int m = 0; m <= N; m++) {
      if (m == 1) sect = std::sqrt((R)3) * u;
      if (m > 1) sect *= u * std::sqrt((R)(2 * m + 1) / (R)(2 * m));
      // q(n) = P(n,m)/P(m,m) unnormalised, f(n) = norm(n,m)/norm(m,m)
      R q2 = 0, q1 = 1, f = 1;
      P(m, m) = sect;
      for (int n = m + 1; n <= N; n++) {
        R q = ((2 * n - 1) * t * q1 - (n + m - 1) * q2) / (R)(n - m);
        // norm^2 ~ (2n+1)(n-m)!/(n+m)!
        f *= std::sqrt((R)(2 * n + 1) / (R)(2 * n - 1) * (R)(n - m) / (R)(n + m));
        P(n, m) = sect * q * f;
        q2 = q1;
        q1 = q;
      }
    }
    for (int n = 0; n <= N; n++)
      for (int m = 0; m <= n; m++) {
        R up = m < n ? P(n, m + 1) : 0;
        if (m == 0) {
          // dP(n,0)/dlat = P(n,1) unnormalised
          D(n, 0) = -(n ? std::sqrt((R)n * (n + 1) / 2) * up : 0);
        } else {
          R dn = m == 1 ? P(n, 0) * std::sqrt((R)2) : P(n, m - 1);
          // dP/dlat = 1/2 [ -sqrt((n+m)(n-m+1)) P(n,m-1) + sqrt((n-m)(n+m+1)) P(n,m+1) ]
          R dl = (-std::sqrt((R)(n + m) * (n - m + 1)) * dn + std::sqrt((R)(n - m) * (n + m + 1)) * up) / 2;
          D(n, m) = -dl;
        }
      }
  }
};

// second order jet in (x,y,z)
struct J {
  R v = 0, g[3] = {0, 0, 0}, h[6] = {0, 0, 0, 0, 0, 0}; // xx xy xz yy yz zz
};
inline J operator*(const J &a, const J &b) {
  J r;
  r.v = a.v * b.v;
  static const int I[6] = {0, 0, 0, 1, 1, 2}, K[6] = {0, 1, 2, 1, 2, 2};
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] * b.v + a.v * b.g[i];
  for (int k = 0; k < 6; k++)
    r.h[k] = a.h[k] * b.v + a.v * b.h[k] + a.g[I[k]] * b.g[K[k]] + a.g[K[k]] * b.g[I[k]];
  return r;
}
inline J operator*(R f, const J &a) {
  J r;
  r.v = f * a.v;
  for (int i = 0; i < 3; i++) r.g[i] = f * a.g[i];
  for (int i = 0; i < 6; i++) r.h[i] = f * a.h[i];
  return r;
}
inline J operator+(const J &a, const J &b) {
  J r;
  r.v = a.v + b.v;
  for (int i = 0; i < 3; i++) r.g[i] = a.g[i] + b.g[i];
  for (int i = 0; i < 6; i++) r.h[i] = a.h[i] + b.h[i];
  return r;
}
// f(a), given f, f', f''
inline J chain(const J &a, R f, R f1, R f2) {
  J r;
  static const int I[6] = {0, 0, 0, 1, 1, 2}, K[6] = {0, 1, 2, 1, 2, 2};
  r.v = f;
  for (int i = 0; i < 3; i++) r.g[i] = f1 * a.g[i];
  for (int k = 0; k < 6; k++) r.h[k] = f1 * a.h[k] + f2 * a.g[I[k]] * a.g[K[k]];
  return r;
}

struct Field {
  R a[3];    // gradient of the potential
  R h[6];    // Hessian: xx xy xz yy yz zz
  R sa, sh;  // magnitude scale of the sums (sum of |terms|)
};

// V = GM/r sum_n (Re/r)^n sum_m Q_nm(z/r) [ C Re((x+iy)/r)^m + S Im(..) ],
// differentiated by jets.
inline Field field(const dso::StokesCoeffs &cs, const double *r3, int N, int M, R Re, R GM) {
  J x, y, z;
  x.v = r3[0]; x.g[0] = 1;
  y.v = r3[1]; y.g[1] = 1;
  z.v = r3[2]; z.g[2] = 1;
  J r2 = x * x + y * y + z * z;
  R rr = std::sqrt(r2.v);
  J inv = chain(r2, 1 / rr, (R)-0.5 / (rr * r2.v), (R)0.75 / (rr * r2.v * r2.v));
  J t = z * inv, cx = x * inv, cy = y * inv, q = Re * inv;
  std::vector<J> qn(N + 1);
  qn[0] = inv;
  for (int n = 1; n <= N; n++) qn[n] = qn[n - 1] * q;
  Field F{};
  J tot;
  J A, B;
  A.v = 1;
  R c = 1;
  for (int m = 0; m <= M; m++) {
    if (m) {
      J A2 = A * cx + (R)-1 * (B * cy), B2 = A * cy + B * cx;
      A = A2;
      B = B2;
      c *= m == 1 ? std::sqrt((R)3) : std::sqrt((R)(2 * m + 1) / (R)(2 * m));
    }
    J p2, p1;
    for (int n = m; n <= N; n++) {
      J p;
      if (n == m)
        p.v = c;
      else {
        R f = (R)(2 * n + 1) / ((R)(n - m) * (n + m));
        p = std::sqrt(f * (2 * n - 1)) * (t * p1);
        if (n > m + 1) p = p + -std::sqrt(f * (n - m - 1) * (n + m - 1) / (R)(2 * n - 3)) * p2;
      }
      p2 = p1;
      p1 = p;
      R C = cs.C(n, m), S = m ? cs.S(n, m) : 0;
      if (C == 0 && S == 0) continue;
      J ang = C * A + S * B;
      J term = (qn[n] * p) * ang;
      tot = tot + term;
      R mag = std::sqrt(C * C + S * S) * std::sqrt((R)(2 * n + 1)) * std::pow(Re / rr, n) / rr;
      F.sa += mag * (n + 1) / rr;
      F.sh += mag * (n + 1) * (n + 2) / r2.v;
    }
  }
  for (int i = 0; i < 3; i++) F.a[i] = GM * tot.g[i];
  for (int i = 0; i < 6; i++) F.h[i] = GM * tot.h[i];
  F.sa *= std::abs(GM);
  F.sh *= std::abs(GM);
  return F;
}
} // namespace oracle
