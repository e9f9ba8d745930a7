// C01 storage index map, C02 value semantics of CoeffMatrix2D,
// C03 expression templates.  Oracles: rank order of the stored index set,
// and a map-based reference matrix.
#include "mon.hpp"
#include "coeff_matrix_2d.hpp"
#include <memory>
#include <optional>
#include <utility>

using namespace dso;
using mon::check;
using MST = MatrixStorageType;

template <MST S> const char *sname() {
  switch (S) {
  case MST::RowWise: return "RowWise";
  case MST::ColumnWise: return "ColumnWise";
  case MST::Trapezoid: return "Trapezoid";
  case MST::LwTriangularRowWise: return "LwTriangularRowWise";
  default: return "LwTriangularColWise";
  }
}
template <MST S> constexpr bool tri() {
  return S == MST::LwTriangularRowWise || S == MST::LwTriangularColWise;
}
template <MST S> constexpr bool colmajor() {
  return S == MST::ColumnWise || S == MST::LwTriangularColWise;
}
// is element (i,j) stored in an r x c matrix ?
template <MST S> bool stored(int i, int j, int r, int c) {
  if (i < 0 || j < 0 || i >= r || j >= c) return false;
  if (S == MST::RowWise || S == MST::ColumnWise) return true;
  return j <= i;
}
// number of stored elements in slice s (row, or column if column major)
template <MST S> long in_slice(int s, int r, int c) {
  if (S == MST::RowWise) return c;
  if (S == MST::ColumnWise) return r;
  if (S == MST::LwTriangularColWise) return r - s;
  return std::min(s + 1, c);
}
template <MST S> int nslices(int r, int c) { return colmajor<S>() ? c : r; }
// 64 bit closed form of the first index of a slice
template <MST S> int64_t slice0(int64_t s, int64_t r, int64_t c) {
  if (S == MST::RowWise) return s * c;
  if (S == MST::ColumnWise) return s * r;
  if (S == MST::LwTriangularRowWise) return s * (s + 1) / 2;
  if (S == MST::LwTriangularColWise) return s * r - s * (s - 1) / 2;
  return s <= c ? s * (s + 1) / 2 : c * (c + 1) / 2 + (s - c) * c;
}

// ---------------------------------------------------------------- C01
template <MST S> void check_map(const StorageImplementation<S> &st, int r, int c) {
  check(st.nrows() == r && st.ncols() == c, "dims", "%s(%d,%d) reports %dx%d", sname<S>(), r, c,
        st.nrows(), st.ncols());
  int64_t total = slice0<S>(nslices<S>(r, c), r, c);
  check((int64_t)st.num_elements() == total, "num_elements",
        "%s(%d,%d) num_elements %zu expected %ld", sname<S>(), r, c, st.num_elements(),
        (long)total);
  check(st.num_slices() == nslices<S>(r, c), "num_slices", "%s(%d,%d) num_slices %d", sname<S>(), r,
        c, st.num_slices());
  // exhaustive: index() is the rank in layout order, i.e. a bijection
  int64_t rank = 0;
  for (int s = 0; s < nslices<S>(r, c); s++) {
    int n = -1;
    check(st.slice(s) == rank, "slice", "%s(%d,%d) slice(%d)=%d expected %ld", sname<S>(), r, c, s,
          st.slice(s), (long)rank);
    int s2 = st.slice(s, n);
    check(s2 == rank && n == in_slice<S>(s, r, c), "slice_n",
          "%s(%d,%d) slice(%d,n)=%d,n=%d expected %ld,%ld", sname<S>(), r, c, s, s2, n, (long)rank,
          in_slice<S>(s, r, c));
    int k0 = (S == MST::LwTriangularColWise) ? s : 0;
    for (long k = 0; k < in_slice<S>(s, r, c); k++, rank++) {
      int i = colmajor<S>() ? k0 + k : s, j = colmajor<S>() ? s : k;
      check(st.index(i, j) == rank, "index", "%s(%d,%d) index(%d,%d)=%d expected %ld", sname<S>(),
            r, c, i, j, st.index(i, j), (long)rank);
    }
  }
  for (int j = 0; j < c; j++) {
    int e = (S == MST::RowWise || S == MST::ColumnWise) ? 0 : j;
    check(StorageImplementation<S>::first_row_of_col(j) == e, "first_row_of_col", "%s col %d -> %d",
          sname<S>(), j, StorageImplementation<S>::first_row_of_col(j));
  }
  for (int i = 0; i < r; i++)
    check(StorageImplementation<S>::first_col_of_row(i) == 0, "first_col_of_row", "%s row %d",
          sname<S>(), i);
}
template <MST S> void index_small() {
  int lim = mon::thorough() ? 40 : 22;
  long n = 0;
  for (int r = 0; r <= lim; r++)
    for (int c = 0; c <= lim; c++) {
      if (tri<S>() && r != c) continue;
      mon::ctx("%s(%d,%d)", sname<S>(), r, c);
      StorageImplementation<S> st(r, c);
      check_map<S>(st, r, c);
      // the same through __set_dimensions of an unrelated instance
      int q = (r * 7 + c * 3) % 11;
      StorageImplementation<S> st2(q, tri<S>() ? q : (q * 5) % 9);
      st2.__set_dimensions(r, c);
      check_map<S>(st2, r, c);
      mon::eval(mon::hash((int)S, r, c), r * c > 1);
      n++;
    }
  check(StorageImplementation<S>::isColMajor == colmajor<S>() &&
            StorageImplementation<S>::isRowMajor == !colmajor<S>(),
        "major", "%s row/col major flags", sname<S>());
  check(StorageImplementation<S>::isTriangular == (tri<S>() || S == MST::Trapezoid), "triangular",
        "%s triangular flag", sname<S>());
  mon::count((std::string("shapes_") + sname<S>()).c_str(), n);
}
template <MST S> void index_large() {
  mon::Rng g(mon::hash(mon::S().seed, 77, (int)S));
  long n = mon::N(150, 1500);
  for (long t = 0; t < n; t++) {
    int r, c;
    if (tri<S>()) r = c = g.in(100, S == MST::LwTriangularRowWise ? 32000 : 30000);
    else if (S == MST::Trapezoid) r = g.in(50, 3000), c = g.in(50, 3000);
    else r = g.in(100, 32000), c = g.in(100, 32000);
    mon::ctx("%s(%d,%d)", sname<S>(), r, c);
    StorageImplementation<S> st(r, c);
    check((int64_t)st.num_elements() == slice0<S>(nslices<S>(r, c), r, c), "num_elements",
          "%s(%d,%d) num_elements %zu", sname<S>(), r, c, st.num_elements());
    for (int k = 0; k < 12; k++) {
      int s = k == 0 ? 0 : k == 1 ? nslices<S>(r, c) - 1 : g.in(0, nslices<S>(r, c) - 1);
      long cnt = in_slice<S>(s, r, c);
      long p = k % 3 == 0 ? 0 : k % 3 == 1 ? cnt - 1 : g.in(0L, cnt - 1);
      int k0 = (S == MST::LwTriangularColWise) ? s : 0;
      int i = colmajor<S>() ? k0 + p : s, j = colmajor<S>() ? s : p;
      int m = -1, sl = st.slice(s, m);
      check(sl == slice0<S>(s, r, c) && m == cnt && st.slice(s) == sl, "slice",
            "%s(%d,%d) slice(%d)=%d,n=%d expected %ld,%ld", sname<S>(), r, c, s, sl, m,
            (long)slice0<S>(s, r, c), cnt);
      check(st.index(i, j) == slice0<S>(s, r, c) + p, "index", "%s(%d,%d) index(%d,%d)=%d", sname<S>(),
            r, c, i, j, st.index(i, j));
      mon::eval(mon::hash((int)S, r, c, i, j));
    }
  }
}
// through the container: every accessor reaches the same, distinct, element
template <MST S> void container_access() {
  mon::Rng g(mon::hash(mon::S().seed, 78, (int)S));
  long n = mon::N(120, 1200);
  for (long t = 0; t < n; t++) {
    int r = g.in(1, 40), c = tri<S>() ? r : g.in(1, 40);
    mon::ctx("%s(%d,%d)", sname<S>(), r, c);
    CoeffMatrix2D<S> A(r, c);
    const CoeffMatrix2D<S> &cA = A;
    std::vector<std::pair<int, int>> el;
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        if (stored<S>(i, j, r, c)) el.push_back({i, j});
    check(A.num_elements() == el.size(), "num_elements", "%s(%d,%d)", sname<S>(), r, c);
    A.fill_with(-7.25);
    for (size_t k = 0; k < el.size(); k++) {
      // writing one element changes exactly that element
      A(el[k].first, el[k].second) = 1.0 + k;
    }
    for (size_t k = 0; k < el.size(); k++) {
      auto [i, j] = el[k];
      mon::same(cA(i, j), 1.0 + k, "element", sname<S>());
      int s = colmajor<S>() ? j : i;
      int off = colmajor<S>() ? (S == MST::LwTriangularColWise ? i - j : i) : j;
      mon::same(A.slice(s)[off], 1.0 + k, "slice_ptr", sname<S>());
      mon::same(cA.slice(s)[off], 1.0 + k, "slice_cptr", sname<S>());
      if constexpr (colmajor<S>()) {
        mon::same(A.column(s)[off], 1.0 + k, "column_ptr", sname<S>());
        mon::same(cA.column(s)[off], 1.0 + k, "column_cptr", sname<S>());
      } else {
        mon::same(A.row(s)[off], 1.0 + k, "row_ptr", sname<S>());
        mon::same(cA.row(s)[off], 1.0 + k, "row_cptr", sname<S>());
      }
      check(&A(i, j) == A.data() + (A.slice(s) - A.data()) + off, "address", "%s(%d,%d)", sname<S>(),
            i, j);
    }
    mon::eval(mon::hash((int)S, r, c, 3), el.size() > 1);
  }
}
#define ALL(F)                     \
  F<MST::RowWise>();               \
  F<MST::ColumnWise>();            \
  F<MST::Trapezoid>();             \
  F<MST::LwTriangularRowWise>();   \
  F<MST::LwTriangularColWise>();

void s_index_small() {
  ALL(index_small)
  mon::sample("all shapes up to %d for 5 storage types, every (i,j)", mon::thorough() ? 40 : 22);
}
void s_index_large() {
  ALL(index_large)
  mon::sample("dimension up to 32000, first/last/random slices and elements");
}
void s_container() { ALL(container_access) }

// ---------------------------------------------------------------- C02
static bool eqv(double a, double b) { return mon::bits(a) == mon::bits(b) || (std::isnan(a) && std::isnan(b)); }
// the value number u: mostly u itself, now and then one that is special
static double value(double u) {
  static const double sp[] = {-0.0, 1e300, -1e-310, INFINITY, NAN, -INFINITY, 5e-324};
  long k = (long)u;
  return k % 29 == 7 ? sp[k / 29 % 7] : k % 3 == 1 ? -u : u;
}
struct Model {
  int r = 0, c = 0;
  std::map<std::pair<int, int>, std::optional<double>> v;
};
template <MST S> Model fresh(int r, int c) {
  Model m;
  m.r = r;
  m.c = c;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (stored<S>(i, j, r, c)) m.v[{i, j}] = std::nullopt;
  return m;
}
template <MST S>
void compare(const CoeffMatrix2D<S> &A, const Model &m, const char *key, const std::string &hist) {
  if (!check(A.rows() == m.r && A.cols() == m.c, key, "%s dims %dx%d expected %dx%d after %s",
             sname<S>(), A.rows(), A.cols(), m.r, m.c, hist.c_str()))
    return;
  if (!check(A.num_elements() == m.v.size(), key, "%s num_elements %zu expected %zu after %s",
             sname<S>(), A.num_elements(), m.v.size(), hist.c_str()))
    return;
  for (auto &kv : m.v)
    if (kv.second) {
      double d = A(kv.first.first, kv.first.second);
      check(eqv(d, *kv.second), key, "%s (%d,%d) of %dx%d is %.17g expected %.17g after %s", sname<S>(),
            kv.first.first, kv.first.second, m.r, m.c, d, *kv.second, hist.c_str());
    }
}
template <MST S> void history_one(uint64_t seed, int maxdim, int nops) {
  mon::Rng g(seed);
  constexpr int K = 4;
  std::unique_ptr<CoeffMatrix2D<S>> P[K];
  Model m[K];
  std::string hist;
  double uid = 1;
  auto dims = [&](int &r, int &c) {
    r = g.in(0, maxdim);
    c = tri<S>() ? r : g.in(0, maxdim);
    if (g.coin(.85)) {
      if (r == 0) r = 1;
      if (c == 0) c = 1;
    }
    if (!tri<S>() && (r == 0 || c == 0)) r = c = 0;
  };
  auto log = [&](const char *f, int a, int b, int c, int d) {
    char buf[96];
    snprintf(buf, sizeof buf, f, a, b, c, d);
    hist += buf;
    hist += "; ";
    if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 650);
    mon::ctx("%s %s", sname<S>(), hist.c_str());
  };
  auto setall = [&](int a) {
    for (auto &kv : m[a].v) {
      kv.second = (*P[a])(kv.first.first, kv.first.second) = value(uid++);
    }
  };
  for (int i = 0; i < K; i++) {
    int r, c;
    dims(r, c);
    P[i] = std::make_unique<CoeffMatrix2D<S>>(r, c);
    m[i] = fresh<S>(r, c);
    log("A%d(%d,%d)", i, r, c, 0);
    setall(i);
  }
  uint64_t h = mon::hash((int)S);
  for (int t = 0; t < nops; t++) {
    int a = g.in(0, K - 1), b = g.in(0, K - 1), r, c;
    int op = g.in(0, 13);
    h = mon::mix(h, op * 100 + a * 10 + b);
    switch (op) {
    case 0: { // write elements
      log("A%d.set", a, 0, 0, 0);
      if (g.coin()) setall(a);
      else
        for (auto &kv : m[a].v)
          if (g.coin(.3)) {
            kv.second = (*P[a])(kv.first.first, kv.first.second) = value(uid++);
          }
      break;
    }
    case 1: // copy assign (incl. self)
      log("A%d=A%d", a, b, 0, 0);
      { auto &self = *P[b]; *P[a] = self; }
      m[a] = m[b];
      break;
    case 2: // move assign
      if (a == b) break;
      log("A%d=move(A%d)", a, b, 0, 0);
      *P[a] = std::move(*P[b]);
      m[a] = m[b];
      m[b] = fresh<S>(0, 0);
      break;
    case 3: { // copy construct
      log("A%d=new(A%d)", a, b, 0, 0);
      auto q = std::make_unique<CoeffMatrix2D<S>>(*P[b]);
      m[a] = Model(m[b]);
      P[a] = std::move(q);
      break;
    }
    case 4: { // move construct
      log("A%d=new(move(A%d))", a, b, 0, 0);
      auto q = std::make_unique<CoeffMatrix2D<S>>(std::move(*P[b]));
      check(P[b]->rows() == 0 && P[b]->cols() == 0 && P[b]->num_elements() == 0, "moved_from",
            "moved-from %s is %dx%d", sname<S>(), P[b]->rows(), P[b]->cols());
      Model mm = m[b];
      m[b] = fresh<S>(0, 0);
      m[a] = mm;
      P[a] = std::move(q);
      break;
    }
    case 5: // swap, three ways
      log("swap%d(A%d,A%d)", t % 3, a, b, 0);
      if (t % 3 == 0) P[a]->swap(*P[b]);
      else if (t % 3 == 1) { using std::swap; swap(*P[a], *P[b]); }
      else dso::swap(*P[a], *P[b]);
      std::swap(m[a], m[b]);
      break;
    case 6:
    case 7: // resize: contents unspecified, then usable
      dims(r, c);
      log("A%d.resize(%d,%d)", a, r, c, 0);
      P[a]->resize(r, c);
      m[a] = fresh<S>(r, c);
      if (g.coin(.8)) setall(a);
      break;
    case 8:
    case 9: { // cresize: common elements survive
      dims(r, c);
      log("A%d.cresize(%d,%d)", a, r, c, 0);
      P[a]->cresize(r, c);
      Model n = fresh<S>(r, c);
      for (auto &kv : n.v) {
        auto it = m[a].v.find(kv.first);
        if (it != m[a].v.end()) kv.second = it->second;
      }
      m[a] = n;
      compare<S>(*P[a], m[a], "cresize", hist);
      if (g.coin(.6)) setall(a);
      break;
    }
    case 10: {
      double f = g.coin(.2) ? 0.0 : std::ldexp(g.coin() ? 1 : -1, g.in(-2, 2));
      log("A%d.multiply", a, 0, 0, 0);
      bool alldef = true;
      for (auto &kv : m[a].v) alldef = alldef && kv.second;
      if (!alldef) setall(a);
      P[a]->multiply(f);
      for (auto &kv : m[a].v)
        if (kv.second) kv.second = *kv.second * f;
      break;
    }
    case 11:
      log("A%d.fill_with", a, 0, 0, 0);
      P[a]->fill_with(value(uid));
      for (auto &kv : m[a].v) kv.second = value(uid);
      uid++;
      break;
    case 12: { // self copy / chained assignment
      log("A%d=A%d=A%d (chain)", a, b, b, 0);
      auto &x = *P[b];
      *P[a] = (*P[b] = x);
      m[a] = m[b];
      break;
    }
    case 13: { // pass by value and back
      log("A%d=f(A%d)", a, b, 0, 0);
      auto f = [](CoeffMatrix2D<S> x) { return x; };
      Model mb = m[b];
      *P[a] = f(*P[b]);
      m[a] = mb;
      break;
    }
    }
    // every live matrix must be what the model says (catches aliasing)
    for (int i = 0; i < K; i++) {
      compare<S>(*P[i], m[i], "history", hist);
      if (m[i].v.size())
        for (int j = i + 1; j < K; j++)
          if (m[j].v.size())
            check(P[i]->data() + m[i].v.size() <= P[j]->data() ||
                      P[j]->data() + m[j].v.size() <= P[i]->data(),
                  "alias", "%s A%d and A%d share memory after %s", sname<S>(), i, j, hist.c_str());
    }
  }
  mon::eval(h, nops > 3);
  mon::count("ops", nops);
  if (mon::S().samples.size() < 4) mon::sample("%s: %s", sname<S>(), hist.substr(0, 300).c_str());
}
template <MST S> void history() {
  mon::Rng g(mon::hash(mon::S().seed, 79, (int)S));
  long n = mon::N(250, 3000);
  for (long t = 0; t < n; t++) {
    uint64_t s = g.next();
    history_one<S>(s, t % 5 == 0 ? 25 : 6, g.in(5, 60));
  }
  // the same operations on matrices of several hundred rows and columns
  for (long t = 0, m = mon::N(1, 6); t < m; t++) {
    int r = g.in(450, 600), c = tri<S>() ? r : g.in(450, 600), r2 = g.in(250, 700), c2 = tri<S>() ? r2 : g.in(250, 700);
    mon::ctx("%s large %dx%d and %dx%d", sname<S>(), r, c, r2, c2);
    auto val = [](int i, int j) { return i * 4096. + j + 1; };
    auto is = [&](const CoeffMatrix2D<S> &A, int nr, int nc, int lr, int lc, double f, const char *key) {
      if (!check(A.rows() == nr && A.cols() == nc, key, "large %s is %dx%d", sname<S>(), A.rows(), A.cols())) return;
      for (int i = 0; i < std::min(nr, lr); i++)
        for (int j = i % 7; j < std::min(nc, lc); j += 7)
          if (stored<S>(i, j, nr, nc) && stored<S>(i, j, lr, lc) && A(i, j) != f * val(i, j)) {
            check(false, key, "large %s (%d,%d) is %.17g expected %.17g", sname<S>(), i, j, A(i, j), f * val(i, j));
            return;
          }
      check(true, key, " ");
    };
    CoeffMatrix2D<S> A(r, c), B(r2, c2), E(1, 1);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        if (stored<S>(i, j, r, c)) A(i, j) = val(i, j);
    for (int i = 0; i < r2; i++)
      for (int j = 0; j < c2; j++)
        if (stored<S>(i, j, r2, c2)) B(i, j) = val(i, j);
    CoeffMatrix2D<S> C(A), D(std::move(C));
    is(D, r, c, r, c, 1, "large_copy");
    E = A;
    is(E, r, c, r, c, 1, "large_assign");
    E = B;
    is(E, r2, c2, r2, c2, 1, "large_assign");
    D.swap(E);
    is(D, r2, c2, r2, c2, 1, "large_swap");
    is(E, r, c, r, c, 1, "large_swap");
    D.multiply(-2);
    is(D, r2, c2, r2, c2, -2, "large_multiply");
    is(B, r2, c2, r2, c2, 1, "large_independent");
    E.cresize(r2, c2);
    is(E, r2, c2, r, c, 1, "large_cresize");
    E.resize(r, c);
    E = A + A;
    is(E, r, c, r, c, 2, "large_sum");
    E += -3. * A;
    is(E, r, c, r, c, -1, "large_add");
    int vr = std::min(r, r2), vc = std::min(c, c2);
    E = 2. * A.reduced_view(vr, vc) + 1. * B.reduced_view(vr, vc);
    is(E, vr, vc, vr, vc, 3, "large_view");
    is(A, r, c, r, c, 1, "large_independent");
    mon::eval(mon::hash((int)S, r, c, r2, c2, 99));
    mon::count("large_matrices", 5);
  }
}
void s_history() { ALL(history) }

// no growth of live heap bytes over repeated complete histories
template <MST S> void leak() {
  auto work = [](uint64_t seed) {
    mon::Rng g(seed);
    int r = g.in(1, 30), c = tri<S>() ? r : g.in(1, 30);
    CoeffMatrix2D<S> A(r, c), B(r, c), C(1, 1);
    A.fill_with(1);
    B.fill_with(2);
    C = CoeffMatrix2D<S>(A);
    C = A;
    C.resize(r + 3, tri<S>() ? r + 3 : c + 1);
    C = std::move(B);
    B = A + 2.0 * C;
    B = A + C;
    A = std::move(C);
    C.resize(2, 2);
    C.cresize(4, 4);
    C = std::move(A);
    CoeffMatrix2D<S> D(std::move(B));
    B = D;
    dso::swap(B, D);
    D.cresize(r + 1, tri<S>() ? r + 1 : c + 2);
    auto &self = D;
    D = std::move(self); // must neither lose memory nor crash
  };
  for (int i = 0; i < 50; i++) work(i);
  long before = mon::live_bytes();
  long n = mon::N(200, 2000);
  for (long i = 0; i < n; i++) {
    mon::ctx("%s leak history %ld", sname<S>(), i);
    work(i % 50);
  }
  long grown = mon::live_bytes() - before;
  for (long i = 0; i < n; i++) mon::eval(mon::hash((int)S, i % 50, 9));
  check(grown <= 0, "leak", "%s: %ld bytes live after %ld balanced histories", sname<S>(), grown, n);
}
void s_leak() { ALL(leak) }
template <MST S> void selfmove() {
  mon::Rng g(mon::hash(mon::S().seed, 80, (int)S));
  for (int t = 0; t < 20; t++) {
    int r = g.in(1, 9), c = tri<S>() ? r : g.in(1, 9);
    mon::ctx("%s self move %dx%d", sname<S>(), r, c);
    CoeffMatrix2D<S> A(r, c);
    A.fill_with(3.5);
    auto &self = A;
    A = std::move(self);
    // valid state: dims and elements agree
    check(A.rows() * A.cols() == 0 || A(A.rows() - 1, 0) == 3.5, "selfmove", "%s", sname<S>());
    mon::eval(mon::hash((int)S, r, c, 10));
  }
}
void s_selfmove() { ALL(selfmove) }

// ---------------------------------------------------------------- C03
struct Dense { // reference, only stored elements are meaningful
  int r, c;
  std::vector<double> v;
  double &at(int i, int j) { return v[(size_t)i * c + j]; }
  double at(int i, int j) const { return v[(size_t)i * c + j]; }
};
static const double SP[8] = {1e200, -3e180, 1e-310, -0.0, NAN, INFINITY, -INFINITY, -7e15};
// equal up to rounding, non finite values included
static bool close(double got, double v, double tol) {
  if (std::isnan(v)) return std::isnan(got);
  if (std::isinf(v)) return got == v;
  return std::abs(got - v) <= tol + 1e-322;
}
template <MST S> struct Op {
  CoeffMatrix2D<S> M;
  Dense d;
  Op(int r, int c, mon::Rng &g) : M(r, c), d{r, c, std::vector<double>((size_t)r * c, 0.0)} {
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        if (stored<S>(i, j, r, c)) M(i, j) = d.at(i, j) = g.coin(.05) ? 0.0 : g.coin(.03) ? SP[g.in(0, 7)] : g.wide(-3, 3);
  }
  void untouched(const char *key) const {
    check(M.rows() == d.r && M.cols() == d.c, key, "operand dims changed");
    for (int i = 0; i < d.r; i++)
      for (int j = 0; j < d.c; j++)
        if (stored<S>(i, j, d.r, d.c))
          check(mon::bits(M(i, j)) == mon::bits(d.at(i, j)), key, "%s operand (%d,%d) changed",
                sname<S>(), i, j);
  }
};
template <MST S>
void expect(const CoeffMatrix2D<S> &X, int r, int c,
            const std::function<void(int, int, double &, double &)> &ref, const char *key) {
  if (!check(X.rows() == r && X.cols() == c, key, "%s result is %dx%d expected %dx%d", sname<S>(),
             X.rows(), X.cols(), r, c))
    return;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      if (stored<S>(i, j, r, c)) {
        double v = 0, mag = 0;
        ref(i, j, v, mag);
        double got = X(i, j);
        check(close(got, v, 8e-16 * mag), key,
              "%s %dx%d element (%d,%d) is %.17g expected %.17g", sname<S>(), r, c, i, j, got, v);
      }
}
template <MST S> void expr() {
  mon::Rng g(mon::hash(mon::S().seed, 81, (int)S));
  long n = mon::N(250, 3000);
  for (long t = 0; t < n; t++) {
    int r = g.in(1, t % 10 == 0 ? 60 : 12), c = tri<S>() ? r : g.in(1, 12);
    Op<S> A(r, c, g), B(r, c, g), C(r, c, g);
    double f = g.wide(-2, 2), k = g.wide(-2, 2), q = g.wide(-2, 2);
    if (g.coin(.1)) f = 0;
    if (g.coin(.1)) k = 1;
    mon::ctx("%s %dx%d f=%g k=%g q=%g", sname<S>(), r, c, f, k, q);
#define R(e, mg)                                                            \
  [&](int i, int j, double &v, double &mag) {                               \
    double a = A.d.at(i, j), b = B.d.at(i, j), cc = C.d.at(i, j);           \
    (void)a; (void)b; (void)cc;                                             \
    v = e; mag = mg;                                                        \
  }
#define AA std::abs(a)
#define FA std::abs(f *a)
    { CoeffMatrix2D<S> X = A.M + B.M; expect<S>(X, r, c, R(a + b, std::abs(a) + std::abs(b)), "A+B"); }
    { CoeffMatrix2D<S> X = f * A.M; expect<S>(X, r, c, R(f * a, FA), "f*A"); }
    { CoeffMatrix2D<S> X = A.M * f; expect<S>(X, r, c, R(f * a, FA), "A*f"); }
    { CoeffMatrix2D<S> X = A.M + k * B.M; expect<S>(X, r, c, R(a + k * b, AA + std::abs(k * b)), "A+kB"); }
    { CoeffMatrix2D<S> X = f * A.M + k * B.M; expect<S>(X, r, c, R(f * a + k * b, FA + std::abs(k * b)), "fA+kB"); }
    { CoeffMatrix2D<S> X = f * A.M + k * B.M + q * C.M;
      expect<S>(X, r, c, R(f * a + k * b + q * cc, FA + std::abs(k * b) + std::abs(q * cc)), "fA+kB+qC"); }
    { CoeffMatrix2D<S> X = A.M + B.M + C.M; expect<S>(X, r, c, R(a + b + cc, AA + std::abs(b) + std::abs(cc)), "A+B+C"); }
    { CoeffMatrix2D<S> X = A.M + k * B.M + q * C.M;
      expect<S>(X, r, c, R(a + k * b + q * cc, AA + std::abs(k * b) + std::abs(q * cc)), "A+kB+qC"); }
    { CoeffMatrix2D<S> X = A.M * f + B.M * k + C.M;
      expect<S>(X, r, c, R(f * a + k * b + cc, FA + std::abs(k * b) + std::abs(cc)), "fA+kB+C"); }
    { CoeffMatrix2D<S> X = A.M + A.M; expect<S>(X, r, c, R(2 * a, 2 * AA), "A+A"); }
    // assignment to an existing matrix of another size, and to an operand
    { int r2 = g.in(1, 15), c2 = tri<S>() ? r2 : g.in(1, 15);
      CoeffMatrix2D<S> X(r2, c2); X.fill_with(99);
      X = f * A.M + k * B.M;
      expect<S>(X, r, c, R(f * a + k * b, FA + std::abs(k * b)), "X=fA+kB"); }
    { CoeffMatrix2D<S> X(A.M); X = X + k * B.M;
      expect<S>(X, r, c, R(a + k * b, AA + std::abs(k * b)), "X=X+kB"); }
    // +=
    { CoeffMatrix2D<S> X(A.M); X += B.M; expect<S>(X, r, c, R(a + b, AA + std::abs(b)), "A+=B"); }
    { CoeffMatrix2D<S> X(A.M); X += f * B.M; expect<S>(X, r, c, R(a + f * b, AA + std::abs(f * b)), "A+=fB"); }
    { CoeffMatrix2D<S> X(A.M); X += f * B.M + k * C.M;
      expect<S>(X, r, c, R(a + f * b + k * cc, AA + std::abs(f * b) + std::abs(k * cc)), "A+=fB+kC"); }
    { CoeffMatrix2D<S> X(A.M); X += B.M + C.M; expect<S>(X, r, c, R(a + b + cc, AA + std::abs(b) + std::abs(cc)), "A+=B+C"); }
    { CoeffMatrix2D<S> X(A.M); X += X; expect<S>(X, r, c, R(2 * a, 2 * AA), "A+=A"); }
    // a matrix with spare capacity behaves like one without
    { CoeffMatrix2D<S> X(r + 5, tri<S>() ? r + 5 : c + 5), Y(r + 7, tri<S>() ? r + 7 : c + 2);
      X.fill_with(5); Y.fill_with(6);
      X.resize(r, c); Y.resize(r, c); X = A.M; Y = B.M;
      CoeffMatrix2D<S> Z = f * X + Y * k; X += k * Y;
      expect<S>(Z, r, c, R(f * a + k * b, FA + std::abs(k * b)), "capacity_sum");
      expect<S>(X, r, c, R(a + k * b, AA + std::abs(k * b)), "capacity_add"); }
    A.untouched("operand");
    B.untouched("operand");
    C.untouched("operand");
    mon::eval(mon::hash((int)S, r, c, mon::bits(f), mon::bits(k)), r * c > 1);
    mon::count("expressions", 18);
    if (t < 1) mon::sample("%s %dx%d: f*A+k*B+q*C with f=%g k=%g q=%g", sname<S>(), r, c, f, k, q);
  }
}
template <MST S> void views() {
  mon::Rng g(mon::hash(mon::S().seed, 82, (int)S));
  long n = mon::N(300, 3000);
  for (long t = 0; t < n; t++) {
    int m = t % 10 == 0 ? 40 : 9;
    int ra = g.in(1, m), ca = tri<S>() ? ra : g.in(1, m);
    int rb = g.in(1, m), cb = tri<S>() ? rb : g.in(1, m);
    int rc = g.in(1, m), cc_ = tri<S>() ? rc : g.in(1, m);
    int r = g.in(1L, std::min(std::min(ra, rb), rc)), c = g.in(1L, std::min(std::min(ca, cb), cc_));
    if (tri<S>()) c = r;
    Op<S> A(ra, ca, g), B(rb, cb, g), C(rc, cc_, g);
    double f = g.wide(-2, 2), k = g.wide(-2, 2);
    mon::ctx("%s views %dx%d of %dx%d,%dx%d,%dx%d", sname<S>(), r, c, ra, ca, rb, cb, rc, cc_);
    auto va = A.M.reduced_view(r, c);
    check(va.rows() == r && va.cols() == c, "view_dims", "view dims");
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        if (stored<S>(i, j, r, c)) check(eqv(va(i, j), A.d.at(i, j)), "view_elem", "%s (%d,%d)", sname<S>(), i, j);
    { CoeffMatrix2D<S> X = f * A.M.reduced_view(r, c) + k * B.M.reduced_view(r, c);
      expect<S>(X, r, c, R(f * a + k * b, FA + std::abs(k * b)), "f*vA+k*vB"); }
    { CoeffMatrix2D<S> X = A.M.reduced_view(r, c) * f + B.M.reduced_view(r, c) * k;
      expect<S>(X, r, c, R(f * a + k * b, FA + std::abs(k * b)), "vA*f+vB*k"); }
    { CoeffMatrix2D<S> X = A.M.reduced_view(r, c) + B.M.reduced_view(r, c);
      expect<S>(X, r, c, R(a + b, AA + std::abs(b)), "vA+vB"); }
    { CoeffMatrix2D<S> X = A.M.reduced_view(r, c) + k * B.M.reduced_view(r, c);
      expect<S>(X, r, c, R(a + k * b, AA + std::abs(k * b)), "vA+k*vB"); }
    { CoeffMatrix2D<S> X = f * A.M.reduced_view(r, c) + k * B.M.reduced_view(r, c) + C.M.reduced_view(r, c);
      expect<S>(X, r, c, R(f * a + k * b + cc, FA + std::abs(k * b) + std::abs(cc)), "f*vA+k*vB+vC"); }
    // += of a smaller block touches that block only
    auto block = [&](CoeffMatrix2D<S> &X, const Dense &base, int br, int bc,
                     const std::function<void(int, int, double &, double &)> &add, const char *key) {
      if (!check(X.rows() == base.r && X.cols() == base.c, key, "dims changed")) return;
      for (int i = 0; i < base.r; i++)
        for (int j = 0; j < base.c; j++)
          if (stored<S>(i, j, base.r, base.c)) {
            if (i < br && j < bc) {
              double v = 0, mag = 0;
              add(i, j, v, mag);
              check(close(X(i, j), base.at(i, j) + v, 8e-16 * (mag + std::abs(base.at(i, j)))), key,
                    "%s (%d,%d) is %.17g expected %.17g", sname<S>(), i, j, X(i, j), base.at(i, j) + v);
            } else
              check(eqv(X(i, j), base.at(i, j)), key, "%s (%d,%d) outside the block changed", sname<S>(), i, j);
          }
    };
    { CoeffMatrix2D<S> X(A.M); X += B.M.reduced_view(r, c);
      block(X, A.d, r, c, R(b, std::abs(b)), "A+=vB"); }
    { CoeffMatrix2D<S> X(A.M); X += k * B.M.reduced_view(r, c);
      block(X, A.d, r, c, R(k * b, std::abs(k * b)), "A+=k*vB"); }
    { CoeffMatrix2D<S> X(A.M); X += f * B.M.reduced_view(r, c) + k * C.M.reduced_view(r, c);
      block(X, A.d, r, c, R(f * b + k * cc, std::abs(f * b) + std::abs(k * cc)), "A+=f*vB+k*vC"); }
    { // blocks of a triangle that are not square (degree and order of their own)
      int br = g.in(1, r), bc = g.in(1L, std::min(ca, std::min(cb, cc_)));
      if (bc > br && tri<S>()) bc = br;
      if (!tri<S>() && g.coin()) br = r;
      CoeffMatrix2D<S> X(A.M), Y(A.M), Z(A.M);
      X += B.M.reduced_view(br, bc);
      Y += B.M.reduced_view(br, bc) * f;
      Z += f * B.M.reduced_view(br, bc) + k * C.M.reduced_view(br, bc);
      block(X, A.d, br, bc, R(b, std::abs(b)), "A+=vB(rect)");
      block(Y, A.d, br, bc, R(f * b, std::abs(f * b)), "A+=vB*f(rect)");
      block(Z, A.d, br, bc, R(f * b + k * cc, std::abs(f * b) + std::abs(k * cc)), "A+=f*vB+k*vC(rect)");
      // of the matrix itself
      CoeffMatrix2D<S> W(A.M);
      W += W.reduced_view(br, bc);
      block(W, A.d, br, bc, R(a, AA), "A+=vA(rect)");
      if (tri<S>() && br != bc) mon::count("rectangular_blocks_of_triangles");
    }
    { // whole (smaller) matrix through its full view
      if (rb <= ra && cb <= ca) {
        CoeffMatrix2D<S> X(A.M); X += f * B.M.reduced_view(rb, cb);
        block(X, A.d, rb, cb, R(f * b, std::abs(f * b)), "A+=f*vB(full)");
        mon::count("smaller_into_larger");
      } }
    A.untouched("operand");
    B.untouched("operand");
    C.untouched("operand");
    mon::eval(mon::hash((int)S, ra, ca, rb, cb, r, c), r * c > 1);
    if (t < 1) mon::sample("%s: %dx%d += f*view(%dx%d) + k*view of %dx%d", sname<S>(), ra, ca, r, c, rb, cb);
  }
}
void s_expr() { ALL(expr) }
void s_views() { ALL(views) }

#ifndef NDEBUG
// shape mismatches must not produce a matrix silently (assertions enabled)
template <MST S> void mismatch() {
  mon::Rng g(mon::hash(mon::S().seed, 83, (int)S));
  for (int t = 0; t < 6; t++) {
    int r = g.in(2, 8), c = tri<S>() ? r : g.in(2, 8);
    int r2 = r + g.in(1, 3), c2 = tri<S>() ? r2 : c;
    if (!tri<S>() && t % 3 == 1) { // more columns only
      r2 = r;
      c2 = c + g.in(1, 3);
    }
    if (!tri<S>() && t % 3 == 2) { // another shape with the same number of elements
      r = 2 * g.in(1, 3), c = g.in(1, 2) + r, r2 = r / 2, c2 = 2 * c;
      if (S == MatrixStorageType::Trapezoid) r = r2 = 6, c = 3, c2 = 4;
    }
    mon::ctx("%s mismatch %dx%d with %dx%d", sname<S>(), r, c, r2, c2);
    auto bad = [&](const char *key, const std::function<void(CoeffMatrix2D<S> &, CoeffMatrix2D<S> &)> &f) {
      int d = mon::dies([&] {
        CoeffMatrix2D<S> A(r, c), B(r2, c2);
        A.fill_with(1);
        B.fill_with(2);
        f(A, B);
      });
      check(d == 1, key, "%s: %dx%d with %dx%d went through silently", sname<S>(), r, c, r2, c2);
      mon::eval(mon::hash((int)S, r, c, r2, std::hash<std::string>{}(key)));
    };
    bad("mismatch:A+B", [](auto &A, auto &B) { CoeffMatrix2D<S> X = A + B; });
    bad("mismatch:A+fB", [](auto &A, auto &B) { CoeffMatrix2D<S> X = A + 2.0 * B; });
    bad("mismatch:fA+kB", [](auto &A, auto &B) { CoeffMatrix2D<S> X = 3.0 * B + 2.0 * A; });
    bad("mismatch:A+B+C", [](auto &A, auto &B) { CoeffMatrix2D<S> Y(A); CoeffMatrix2D<S> X = A + Y + B; });
    bad("mismatch:A+fA+kB", [](auto &A, auto &B) { CoeffMatrix2D<S> X = 2. * A + 3. * A + 2. * B; });
    bad("mismatch:A+=fB", [](auto &A, auto &B) { A += 2. * B; });
    bad("mismatch:vA+vB", [&](auto &A, auto &B) { CoeffMatrix2D<S> X = A.reduced_view(r, c) + B.reduced_view(r2, c2); });
    bad("mismatch:A+=B", [](auto &A, auto &B) { A += B; });
    bad("mismatch:B+=A", [](auto &A, auto &B) { B += A; });
    bad("mismatch:A+=vB", [&](auto &A, auto &B) { A += B.reduced_view(r2, c2); });
    bad("mismatch:view", [&](auto &A, auto &) { auto v = A.reduced_view(r2, c2); (void)v; });
  }
}
#endif
void s_mismatch() {
#ifndef NDEBUG
  ALL(mismatch)
#else
  mon::eval(1);
#endif
}

int main(int argc, char **argv) {
  return mon::run(argc, argv,
                  {{"index_small", s_index_small},
                   {"index_large", s_index_large},
                   {"container", s_container},
                   {"history", s_history},
                   {"leak", s_leak},
                   {"selfmove", s_selfmove},
                   {"expr", s_expr},
                   {"views", s_views},
                   {"mismatch", s_mismatch}});
}
