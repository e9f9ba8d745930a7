// ICGEM gravity model files (versions 1.0 and 2.0): header, static and time variable coefficients, damaged files.
#include "mon.hpp"
#include "icgemio.hpp"
#include <array>
#include <fstream>
#include <map>
#include <memory>
using namespace mon;
typedef long double LD;
typedef dso::Icgem::Datetime DT;
static const LD PI = 3.14159265358979323846264338327950288L;

static std::string put(const std::string &t) {
  const std::string p = (S().scratch.empty() ? std::string("/tmp") : S().scratch) + "/m.gfc";
  std::ofstream o(p, std::ios::binary);
  o << t;
  return p;
}
static DT date(int y, int m, int d, int h = 0, int mi = 0) {
  return DT(dso::year(y), dso::month(m), dso::day_of_month(d), dso::hours(h), dso::minutes(mi), dso::nanoseconds(0));
}
static LD years(const DT &a, const DT &b) {
  return ((LD)(a.imjd().as_underlying_type() - b.imjd().as_underlying_type()) + ((LD)a.sec().as_underlying_type() - (LD)b.sec().as_underlying_type()) / 86400e9L) / 365.25L;
}
struct When {
  int y, m, d, h, mi;
  DT t() const { return date(y, m, d, h, mi); }
};
static When when(Rng &r, bool tod) { return When{(int)r.in(1980, 2060), (int)r.in(1, 12), (int)r.in(1, 28), tod ? (int)r.in(0, 23) : 0, tod ? (int)r.in(0, 59) : 0}; }
struct Entry {
  int key, n, m; // 0 gfc 1 gfct 2 trnd 3 asin 4 acos
  double C, S;
  When t0{2000, 1, 1, 0, 0}, t1{2000, 1, 1, 0, 0};
  double per = 1;
};
static std::string num(Rng &r, double v, bool fortran) {
  char b[64];
  snprintf(b, sizeof b, r.coin(.3) ? "%+.15e" : "%.15e", v);
  std::string s = b;
  if (fortran) {
    const size_t e = s.find('e');
    if (e != std::string::npos) s[e] = r.coin() ? 'D' : 'd';
  }
  return s;
}
static double r15(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.15e", v);
  return strtod(b, nullptr);
}
static const char *KEY[] = {"gfc", "gfct", "trnd", "asin", "acos"};
static std::string pad(Rng &r) { return std::string(r.in(1, 4), ' '); }
static std::string entry_text(Rng &r, const Entry &e, int errcols, bool v2, bool fortran) {
  char b[128];
  std::string s = e.key == 2 && !v2 && r.coin(.3) ? "dot " : KEY[e.key];
  if (e.key == 0) s += " ";
  s += pad(r) + std::to_string(e.n) + pad(r) + std::to_string(e.m) + pad(r) + num(r, e.C, fortran) + pad(r) + num(r, e.S, fortran);
  for (int i = 0; i < errcols; i++) s += pad(r) + num(r, fabs(r.sym()) * 1e-12, fortran);
  if (e.key == 1 && !v2) snprintf(b, sizeof b, "%04d%02d%02d", e.t0.y, e.t0.m, e.t0.d), s += pad(r) + b;
  if (e.key && v2) {
    snprintf(b, sizeof b, "%04d%02d%02d.%02d%02d", e.t0.y, e.t0.m, e.t0.d, e.t0.h, e.t0.mi), s += pad(r) + b;
    snprintf(b, sizeof b, "%04d%02d%02d.%02d%02d", e.t1.y, e.t1.m, e.t1.d, e.t1.h, e.t1.mi), s += pad(r) + b;
  }
  if (e.key >= 3) s += pad(r) + num(r, e.per, false);
  if (r.coin(.2)) s += pad(r);
  return s + "\n";
}
struct Model {
  bool v2, fortran, normalized = true;
  int errors, deg; // 0 no 1 calibrated 2 formal 3 both
  double GM, Re;
  std::string name, tide, product;
  std::vector<Entry> e;
};
static Model rand_model(Rng &r) {
  Model m;
  m.v2 = r.coin(), m.fortran = r.coin(.15), m.errors = (int)r.in(0, 3), m.deg = r.coin(.003) ? (int)r.in(120, 365) : r.coin(.03) ? (int)r.in(60, 120) : (int)r.in(0, 14);
  m.GM = r15(r.real(3.9e14, 4e14)), m.Re = r15(r.real(6.3e6, 6.4e6));
  const When g0 = when(r, m.v2);
  for (int n = 0; n <= m.deg; n++)
    for (int k = 0; k <= n; k++) {
      if (r.coin(.05)) continue;
      Entry e{};
      e.n = n, e.m = k, e.C = r15(r.wide(-12, -3)), e.S = k ? r15(r.wide(-12, -3)) : 0;
      const bool dyn = r.coin(.3);
      if (!dyn || (m.v2 && r.coin())) e.key = 0, m.e.push_back(e);
      if (!dyn) continue;
      When t0 = r.coin() ? g0 : when(r, m.v2);
      const int spans = m.v2 ? (int)r.in(1, 3) : 1;
      for (int sp = 0; sp < spans; sp++) {
        When t1 = t0;
        t1.y += (int)r.in(1, 12), t1.m = (int)r.in(1, 12);
        const bool fmt1 = !m.v2;
        Entry f = e;
        f.t0 = t0, f.t1 = t1;
        if (fmt1 || r.coin(.9)) f.key = 1, f.C = r15(r.wide(-12, -3)), f.S = r15(r.wide(-12, -3)), m.e.push_back(f);
        if (r.coin(.8)) f.key = 2, f.C = r15(r.wide(-13, -10)), f.S = r15(r.wide(-13, -10)), m.e.push_back(f);
        for (long j = r.in(0, 4); j > 0; j--) f.key = (int)r.in(3, 4), f.C = r15(r.wide(-13, -9)), f.S = r15(r.wide(-13, -9)), f.per = r.coin() ? 1 : r15(r.real(.2, 20)), m.e.push_back(f);
        t0 = t1;
      }
    }
  static const char *T[] = {"zero_tide", "tide_free", "mean_tide", "unknown"};
  m.tide = T[r.in(0, 3)], m.normalized = r.coin(.8), m.product = "gravity_field";
  m.name = r.coin(.1) ? std::string(r.in(1, 120), 'M') : "MODEL-" + std::to_string(r.in(1, 99999));
  return m;
}
static std::string text(Rng &r, const Model &m, bool hdr_fortran) {
  static const char *E[] = {"no", "calibrated", "formal", "calibrated_and_formal"};
  std::vector<std::string> h;
  h.push_back("product_type " + pad(r) + m.product);
  h.push_back("modelname " + pad(r) + m.name + (r.coin() ? pad(r) : ""));
  h.push_back("earth_gravity_constant " + pad(r) + num(r, m.GM, hdr_fortran));
  h.push_back("radius " + pad(r) + num(r, m.Re, hdr_fortran));
  h.push_back("max_degree " + pad(r) + std::to_string(m.deg));
  if (m.errors || r.coin(.8)) h.push_back("errors " + pad(r) + E[m.errors]);
  if (m.tide != "unknown" || r.coin()) h.push_back("tide_system " + pad(r) + m.tide + (r.coin() ? pad(r) : ""));
  if (!m.normalized || r.coin()) h.push_back(std::string("norm ") + pad(r) + (m.normalized ? "fully_normalized" : "unnormalized") + (r.coin() ? pad(r) : ""));
  if (m.v2) h.push_back("format " + pad(r) + "icgem2.0");
  else if (r.coin()) h.push_back("format " + pad(r) + "icgem1.0");
  for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[r.in(0, i - 1)]);
  std::string s;
  // words that merely start like a keyword are not keywords
  static const char *X[] = {"normalization is full", "radius_km 6378", "max_degree_error 3", "errors_scaled formal", "url http://icgem.gfz-potsdam.de", "modelname_long X", "formatting icgem9.9", "key L M C S"};
  for (long i = r.in(0, 4); i > 0; i--) h.insert(h.begin() + r.in(0, h.size()), X[r.in(0, 7)]);
  for (long i = r.in(0, 5); i > 0; i--) s += "Some free text, line " + std::to_string(i) + "\n";
  if (r.coin(.7)) s += "begin_of_head ================\n";
  for (auto &x : h) s += (r.coin() ? pad(r) : "") + x + "\n";
  if (r.coin()) s += "\n";
  s += "end_of_head =====================\n";
  const int ec = m.errors == 0 ? 0 : m.errors == 3 ? 4 : 2;
  for (auto &e : m.e) s += entry_text(r, e, ec, m.v2, m.fortran);
  if (r.coin(.2) && !m.e.empty()) s.pop_back(); // no newline at the end
  return s;
}
static void files() {
  Rng r(S().seed);
  Quiet q;
  std::unique_ptr<dso::StokesCoeffs> reuse(new dso::StokesCoeffs(3));
  for (long k = 0, n = N(1500, 40000); k < n; k++) {
    const Model m = rand_model(r);
    const bool hf = r.coin(.2);
    const auto p = put(text(r, m, hf));
    ctx("case %ld: v%d degree %d errors %d, %zu entries", k, m.v2 ? 2 : 1, m.deg, m.errors, m.e.size());
    std::unique_ptr<dso::Icgem> g;
    try { g.reset(new dso::Icgem(p.c_str())); } catch (std::exception &) {}
    if (!check((bool)g, "open", "refused")) continue;
    near(g->gm(), m.GM, 1e-12 * m.GM, "header-gm", "GM");
    near(g->radius(), m.Re, 1e-12 * m.Re, "header-radius", "radius");
    check(g->max_degree() == m.deg, "header-degree", "%d", g->max_degree());
    check((int)g->errors() == m.errors, "header-errors", "%d", (int)g->errors());
    check((g->version() == dso::Icgem::v20) == m.v2, "header-version", "%d", (int)g->version());
    check(m.name == g->model_name(), "header-name", "[%s] for [%s]", g->model_name(), m.name.c_str());
    check(m.tide == g->tide_system(), "header-tide", "[%s]", g->tide_system());
    check(m.product == g->product_type(), "header-product", "[%s]", g->product_type());
    check(g->is_normalized() == m.normalized, "header-norm", "%d", g->is_normalized());
    for (int h = 0; h < 4; h++) {
      DT t = when(r, true).t();
      if (r.coin(.3) && !m.e.empty()) { // exactly at, or a nanosecond before, the limit of a validity interval
        const auto &e = m.e[r.in(0, m.e.size() - 1)];
        t = (r.coin() ? e.t0 : e.t1).t();
        if (r.coin()) t = t.add_seconds(dso::nanoseconds(-1));
      }
      int d = -1, o = -1;
      if (h) d = (int)r.in(0, m.deg), o = r.coin(.3) ? -1 : (int)r.in(0, d);
      const int D = d < 0 ? m.deg : d, O = o < 0 ? D : o;
      if (r.coin(.3)) {
        const int z = (int)r.in(0, 20);
        reuse.reset(new dso::StokesCoeffs(z, (int)r.in(0, z), 1., 1.));
      }
      auto &cs = *reuse;
      ctx("case %ld: v%d degree %d errors %d, request %d/%d at mjd %d + %.9f s", k, m.v2 ? 2 : 1, m.deg, m.errors, d, o, t.imjd().as_underlying_type(), t.sec().as_underlying_type() * 1e-9);
      const int st = h ? g->parse_data(d, o, t, cs) : g->parse_data(t, cs);
      if (!check(st == 0, "status", "returned %d", st)) continue;
      std::vector<LD> C((size_t)(D + 1) * (D + 1), 0), Sn = C, M = C;
      int gotn = 0, gotm = 0;
      for (auto &e : m.e) {
        if (e.n > D || e.m > O) continue;
        if (m.v2 && e.key && !(t >= e.t0.t() && t < e.t1.t())) { count("outside interval"); continue; }
        gotn = std::max(gotn, e.n), gotm = std::max(gotm, e.m);
        const LD dt = e.key ? years(t, e.t0.t()) : 0, a = 2 * PI / e.per * dt;
        const LD f = e.key < 2 ? 1 : e.key == 2 ? dt : e.key == 3 ? sinl(a) : cosl(a);
        const size_t i = (size_t)e.n * (D + 1) + e.m;
        C[i] += f * e.C, Sn[i] += f * e.S, M[i] += (fabs(e.C) + fabs(e.S)) * (1 + fabsl(dt) * (1 + 7 / e.per));
        count(KEY[e.key]);
      }
      check(cs.max_degree() >= gotn && cs.max_degree() <= D && cs.max_order() >= gotm && cs.max_order() <= O, "size", "%d/%d for data up to %d/%d", cs.max_degree(), cs.max_order(), gotn, gotm);
      near(cs.GM(), m.GM, 1e-12 * m.GM, "gm", "GM");
      near(cs.Re(), m.Re, 1e-12 * m.Re, "re", "Re");
      check(cs.normalized() == m.normalized, "norm", "%d", cs.normalized());
      for (int b = 0; b <= cs.max_order(); b++)
        for (int a = b; a <= cs.max_degree() && a <= D; a++) {
          const size_t i = (size_t)a * (D + 1) + b;
          const double tol = 1e-11 * (double)M[i];
          check(fabsl((LD)cs.C(a, b) - C[i]) <= tol, "value-C", "C(%d,%d) got %.17g expected %.17g", a, b, cs.C(a, b), (double)C[i]);
          check(fabsl((LD)cs.S(a, b) - Sn[i]) <= tol, "value-S", "S(%d,%d) got %.17g expected %.17g", a, b, cs.S(a, b), (double)Sn[i]);
        }
      eval(hash(k, h, D, O), m.e.size() > 1);
    }
    // requests that cannot be served leave the argument alone
    dso::StokesCoeffs keep(2);
    const auto t = when(r, true).t();
    check(g->parse_data(m.deg + 1, 0, t, keep) != 0, "refused-degree", "degree %d of %d", m.deg + 1, m.deg);
    check(g->parse_data(0, 1, t, keep) != 0, "refused-order", "order above degree");
    check(keep.max_degree() == 2 && keep.max_order() == 2, "refused-resize", "%d/%d", keep.max_degree(), keep.max_order());
    if (k < 3) sample("%s", S().ctx);
  }
}
static void damaged() {
  Rng r(S().seed);
  Quiet q;
  for (long k = 0, n = N(8000, 300000); k < n; k++) {
    Model m;
    do m = rand_model(r);
    while (m.deg > 14 || m.e.empty());
    const int kind = (int)r.in(0, 9);
    std::string t = text(r, m, false);
    size_t hl = t.find("\nend_of_head") + 1, dl = t.find('\n', hl) + 1;
    bool mustfail = false, mustthrow = false;
    if (kind == 0) { // a line of an unknown kind or invalid degree and order
      static const char *B[] = {"gfx 2 0 1.0 1.0\n", "gfc  -1 0 1.0 1.0\n", "gfc  0 1 1.0 1.0\n", "gfc 0 -1 1.0 1.0\n", "gfc x 0 1.0 1.0\n", "gfc 0 0 1.0\n", "gfc 0 0\n", "gfc \n", "gfct\n", "trnd\n", "asin 0\n", "acos 0 0\n"};
      const char *b = B[r.in(0, 11)];
      t.insert(r.coin() ? dl : (t.back() == '\n' ? t.size() : dl), b), mustfail = true;
    } else if (kind == 1 && m.v2) { // dates that do not exist, or lack their time
      static const char *B[] = {"20051301.0000 20060101.0000", "20050230.0000 20060101.0000", "20050101.0000 20060132.0000", "20050101", "20050101.0000", "20050101.0000 2006", "", "x"};
      static const char *K[] = {"gfct", "trnd", "asin", "acos"};
      std::string l = std::string(K[r.in(0, 3)]) + " 0 0 1.0 1.0";
      for (int i = 0; i < (m.errors == 0 ? 0 : m.errors == 3 ? 4 : 2); i++) l += " 0.0";
      t.insert(dl, l + " " + B[r.in(0, 7)] + "\n"), mustfail = true;
    } else if (kind == 2 && !m.v2) { // no reference epoch
      static const char *K[] = {"trnd 0 0 1.0 1.0", "asin 0 0 1.0 1.0", "acos 0 0 1.0 1.0", "dot  0 0 1.0 1.0"};
      std::string l = K[r.in(0, 3)];
      for (int i = 0; i < (m.errors == 0 ? 0 : m.errors == 3 ? 4 : 2); i++) l += " 0.0";
      t.insert(dl, l + " 1.0\n"), mustfail = true;
    } else if (kind == 3) t.erase(hl), mustthrow = true; // the header never ends
    else if (kind == 4) { // long values
      static const char *K[] = {"product_type", "modelname", "tide_system", "norm", "errors"};
      t.insert(hl, std::string(K[r.in(0, 4)]) + " " + std::string(r.in(60, 200), 'x') + "\n");
    } else if (kind == 5) { // constants that are not numbers
      static const char *B[] = {"max_degree -1\n", "max_degree x\n", "radius x\n", "earth_gravity_constant\n", "format icgem3.0\n", "max_degree \n", "norm\n", "modelname  \n", "earth_gravity_constant x\n", "earth_gravity_constant  \n", "radius\n", "format\n", "format  \n", "product_type\n", "tide_system\n", "errors \n", "norm  \n", "max_degree\n"};
      t.insert(hl, B[r.in(0, 17)]), mustthrow = true;
    } else if (kind == 6) // a long line, as long as it can be and longer
      t.insert(dl, "gfc 0 0 1.0 1.0" + std::string(r.in(235, 245), ' ') + "\n");
    else if (kind == 7) t.resize(r.in(0, t.size()));
    else
      for (long i = r.in(1, 6); i > 0; i--) {
        const size_t at = r.in(kind == 8 ? 0 : (long)dl, (long)t.size() - 1);
        if (r.coin()) t[at] = (char)r.in(0, 255);
        else t.insert(at, std::string(r.in(1, 30), "0123456789-+.eD \n\t"[r.in(0, 17)]));
      }
    ctx("kind %d, file %s", kind, t.substr(0, 900).c_str());
    const auto p = put(t);
    std::unique_ptr<dso::Icgem> g;
    try { g.reset(new dso::Icgem(p.c_str())); } catch (std::exception &) {}
    eval(hash(k, kind));
    if (mustthrow) check(!g, "bad-header", "accepted");
    if (!g) { count("refused header"); continue; }
    if (g->max_degree() > 2000) continue;
    check(strlen(g->model_name()) < 128 && strlen(g->tide_system()) < 64 && strlen(g->product_type()) < 64, "unterminated", "header value");
    dso::StokesCoeffs cs(2);
    const int st = g->parse_data(when(r, true).t(), cs);
    if (mustfail) check(st != 0, "bad-data", "accepted");
    count(st ? "refused data" : "accepted data");
    if (r.coin(.1)) { // the file goes away after its header has been read
      remove(p.c_str());
      dso::StokesCoeffs ks(3);
      check(g->parse_data(when(r, true).t(), ks) != 0, "file-gone", "coefficients of a file that is not there");
      check(g->parse_data(0, 0, when(r, true).t(), ks) != 0, "file-gone", "coefficients of a file that is not there");
      count("file gone");
    }
  }
  bool threw = false;
  try { dso::Icgem g("/nonexistent/x"); } catch (std::exception &) { threw = true; }
  check(threw, "missing", "accepted a missing file");
}
int main(int c, char **v) { return run(c, v, {{"files", files}, {"damaged", damaged}}); }
