// The benchmark programs of costg-benchmark/, end to end: files in, table of accelerations out, against an independent
// evaluation of every line.
#include "mon.hpp"
#include "gravity_oracle.hpp"
#include "poletide_tables.hpp"
#include "solidtide_oracle.hpp"
#include "spice_standin.hpp"
#include <array>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
typedef std::array<LD, 3> A3;
static std::string dir() { return S().scratch.empty() ? std::string("/tmp/costg_scratch") : S().scratch; }
static std::string put(const std::string &f, const std::string &t) {
  mkdir(dir().c_str(), 0777);
  std::ofstream o(dir() + "/" + f, std::ios::binary);
  o << t;
  return dir() + "/" + f;
}
template <class... A> static std::string fmt(const char *f, A... a) {
  char b[900];
  snprintf(b, sizeof b, f, a...);
  return b;
}
static double d15(double x, const char *f = "%.15e") {
  char b[60];
  snprintf(b, sizeof b, f, x);
  return strtod(b, nullptr);
}
// ------------------------------------------------------------------ the world of one run
struct Row {
  double mjd, x[3], v[3], ref[3], R[9], xp, yp;
  int day;
  LD sod;                                                        // GPS
  LD tt_cent() const { return (day - 51544 + (sod + 51.184L - 43200) / 86400) / 36525; }
  MjdEpoch tt() const { return MjdEpoch(day, dso::FractionalSeconds((double)(sod + 51.184L))); }
};
static LD len(const LD *a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static A3 mul(const double *R, const A3 &v) {
  return {R[0] * v[0] + R[1] * v[1] + R[2] * v[2], R[3] * v[0] + R[4] * v[1] + R[5] * v[2], R[6] * v[0] + R[7] * v[1] + R[8] * v[2]};
}
static A3 mulT(const double *R, const A3 &v) {
  return {R[0] * v[0] + R[3] * v[1] + R[6] * v[2], R[1] * v[0] + R[4] * v[1] + R[7] * v[2], R[2] * v[0] + R[5] * v[1] + R[8] * v[2]};
}
static std::vector<Row> make_orbit(Rng &r, int n, int day, double from, double step) {
  std::vector<Row> o;
  const double a = r.real(6.78e6, 2.7e7), inc = r.real(.1, 3), w = std::sqrt(3.986e14 / a / a / a), u0 = r.real(0, 6), q0 = r.real(0, 6);
  for (int i = 0; i < n; i++) {
    Row k{};
    k.mjd = d15(day + (from + i * step) / 86400, "%.12f");
    k.day = (int)k.mjd, k.sod = ((LD)k.mjd - k.day) * 86400;
    const double u = u0 + w * i * step;
    const double p[3] = {a * cos(u), a * sin(u) * cos(inc), a * sin(u) * sin(inc)}, v[3] = {-a * w * sin(u), a * w * cos(u) * cos(inc), a * w * cos(u) * sin(inc)};
    for (int j = 0; j < 3; j++) k.x[j] = d15(p[j]), k.v[j] = d15(v[j]), k.ref[j] = d15(r.sym() * 1e-7);
    double s = q0 + 7.292e-5 * i * step, c[4] = {cos(s / 2), r.sym() * .1, r.sym() * .1, sin(s / 2)}, N = 0; // a rotation close to that of the Earth
    for (double y : c) N += y * y;
    for (double &y : c) y /= std::sqrt(N);
    const double W = c[0], X = c[1], Y = c[2], Z = c[3];
    const double M[9] = {1 - 2 * (Y * Y + Z * Z), 2 * (X * Y - Z * W), 2 * (X * Z + Y * W), 2 * (X * Y + Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z - X * W), 2 * (X * Z - Y * W), 2 * (Y * Z + X * W), 1 - 2 * (X * X + Y * Y)};
    for (int j = 0; j < 9; j++) k.R[j] = d15(M[j], "%.17e");
    k.xp = d15(r.real(-.4, .4) * (double)AS), k.yp = d15(r.real(0, .6) * (double)AS); // radians
    if (i && r.coin(.15)) // values may come again: a satellite that stays, a reference of zero
      for (int j = 0; j < 3; j++) {
        if (r.coin()) k.ref[j] = r.coin() ? 0 : o[i - 1].ref[j];
        if (r.coin()) k.x[j] = o[i - 1].x[j], k.v[j] = o[i - 1].v[j];
      }
    if (i && r.coin(.1)) memcpy(k.R, o[i - 1].R, sizeof k.R);
    if (i && r.coin(.1)) k.xp = o[i - 1].xp;
    o.push_back(k);
  }
  return o;
}
// text headers, blank and cut lines are not data
static std::string junk(Rng &r) {
  static const char *J[] = {"GROOPS instrument ascii, type(epoch, data)\n", "# number of epochs 2\n", "\n", "   \n", "mjd  x  y  z\n", "54650\n"};
  return r.coin(.3) ? "" : J[r.in(0, 5)];
}
static std::string num(Rng &r, double v) { return std::string(r.in(1, 3), ' ') + fmt(v == (long)v && r.coin() ? "%.0f" : r.coin(.2) ? "%.17g" : "%.17e", v); }
static std::string table(Rng &r, const std::vector<Row> &o, const std::function<std::vector<double>(const Row &)> &cols) {
  std::string t;
  for (int i = (int)r.in(0, 6); i--;) t += junk(r);
  const bool lead = r.coin();
  for (auto &k : o) {
    t += (lead ? "  " : "") + fmt("%.12f", k.mjd);
    for (double v : cols(k)) t += num(r, v);
    t += "\n";
  }
  return t;
}
static std::string orbit_file(Rng &r, const std::vector<Row> &o) {
  return put("orbit.txt", table(r, o, [&](const Row &k) { return std::vector<double>{k.x[0], k.x[1], k.x[2], k.v[0], k.v[1], k.v[2], r.sym(), r.sym(), r.sym()}; }));
}
static std::string acc_file(Rng &r, const std::vector<Row> &o) {
  return put("acc.txt", table(r, o, [](const Row &k) { return std::vector<double>{k.ref[0], k.ref[1], k.ref[2]}; }));
}
static std::string rot_file(Rng &r, const std::vector<Row> &o) {
  return put("rot.txt", table(r, o, [](const Row &k) { return std::vector<double>(k.R, k.R + 9); }));
}
static std::string eops_file(Rng &r, const std::vector<Row> &o) {
  return put("eops.txt", table(r, o, [&](const Row &k) { return std::vector<double>{k.xp, k.yp, r.sym() * 1e-10, r.sym(), r.sym() * 1e-3, r.sym() * 1e-4, r.sym() * 1e-4, r.sym() * 1e-8}; }));
}
// UT1 - UTC, a straight line over the days of the file
struct Ut1 {
  int d0;
  double a, b;
  LD at(LD utc_mjd) const { return a + b * (utc_mjd - d0); }
};
static std::string c04_file(Rng &r, const Ut1 &u, int n) {
  std::string t = "                EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)\n"
                  "                INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE\n                EOP (IERS) 14 C04 TIME SERIES\n\n";
  for (int i = 0; i < n; i++) {
    int y, m, d;
    dso::shim::ymd_of(u.d0 + i, y, m, d);
    t += fmt("%4d%4d%4d%7d", y, m, d, u.d0 + i) +
         fmt("%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f\n", r.sym(), r.sym(), u.a + u.b * i, r.sym() * 1e-3, r.sym() * 1e-3, r.sym() * 1e-3, .03, .03, .002, .0014, .0047, .002);
  }
  return put("eopc04", t);
}
static MjdEpoch ut1_of(const Row &k, const Ut1 &u) {
  const LD utc = k.sod + 19 - dso::shim::leap(k.day);
  return MjdEpoch(k.day, dso::FractionalSeconds((double)(utc + u.at(k.day + utc / 86400))));
}
static void delaunay(const Row &k, double *f) {
  static const LD P[5][5] = {{134.96340251L * 3600, 1717915923.2178L, 31.8792L, .051635L, -.00024470L},
                             {357.52910918L * 3600, 129596581.0481L, -.5532L, .000136L, -.00001149L},
                             {93.27209062L * 3600, 1739527262.8478L, -12.7512L, -.001037L, .00000417L},
                             {297.85019547L * 3600, 1602961601.2090L, -6.3706L, .006593L, -.00003169L},
                             {125.04455501L * 3600, -6962890.5431L, 7.4722L, .007702L, -.00005939L}};
  const LD t = k.tt_cent();
  for (int i = 0; i < 5; i++) f[i] = (double)remainderl((((P[i][4] * t + P[i][3]) * t + P[i][2]) * t + P[i][1]) * t + P[i][0], 1296000) * (double)AS;
}
static void body(const Row &k, int b, LD *s, bool velocity = false) {
  sky::state<LD>(b, k.tt_cent() * 36525 * 86400, s);
  for (int i = 0; i < (velocity ? 6 : 3); i++) s[i] *= 1000;
}
// ------------------------------------------------------------------ running a program
struct Out {
  int status; // of wait
  std::string text, err;
};
static std::string prog(const std::string &name) {
  char b[600];
  const ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string p(b, n > 0 ? n : 0);
  const size_t i = p.rfind("/costg-");
  return p.substr(0, i + 1) + name + p.substr(i + 6);
}
static Out launch(const std::string &name, const std::vector<std::string> &args) {
  const std::string of = dir() + "/stdout", ef = dir() + "/stderr", bin = prog(name);
  if (access(bin.c_str(), X_OK)) fprintf(stdout, "no program %s\n", bin.c_str()), exit(97);
  std::vector<char *> av{const_cast<char *>(bin.c_str())};
  for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
  av.push_back(nullptr);
  const pid_t pid = fork();
  if (!pid) {
    int a = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), b = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    dup2(a, 1), dup2(b, 2);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, SIG_DFL);
    alarm(200);
    execv(bin.c_str(), av.data());
    _exit(97);
  }
  Out o;
  waitpid(pid, &o.status, 0);
  if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 97) fprintf(stdout, "cannot run %s\n", bin.c_str()), exit(97);
  auto slurp = [](const std::string &f) { std::stringstream s; s << std::ifstream(f).rdbuf(); return s.str(); };
  o.text = slurp(of), o.err = slurp(ef);
  count("programs run");
  return o;
}
static bool sanitizer(const Out &o) { return o.err.find("Sanitizer") != std::string::npos || o.err.find("runtime error:") != std::string::npos || o.err.find("Assertion `") != std::string::npos; }
static std::string where(const Out &o) {
  const size_t a = std::min(o.err.find("ERROR: "), std::min(o.err.find("runtime error"), o.err.find("Assertion `")));
  return o.err.substr(a == std::string::npos ? 0 : (a > 120 ? a - 120 : 0), 700);
}
struct Line {
  int day;
  double sec, ref[3], a[3];
};
static std::vector<Line> lines_of(const std::string &t) {
  std::vector<Line> v;
  std::stringstream s(t);
  for (std::string l; std::getline(s, l);) {
    if (l.empty() || l[0] == '#' || l[0] == '>') continue;
    Line x;
    char rest[8];
    if (sscanf(l.c_str(), "%d %lf %lf %lf %lf %lf %lf %lf %7s", &x.day, &x.sec, x.ref, x.ref + 1, x.ref + 2, x.a, x.a + 1, x.a + 2, rest) == 8) v.push_back(x);
    else if (isdigit((unsigned char)l[0])) x.day = -1, v.push_back(x);
  }
  return v;
}
struct Want {
  A3 a;
  LD tol;
};
// the lines of the first n epochs
static void compare(const std::string &name, const Out &o, const std::vector<Row> &rows, size_t n, const std::function<Want(const Row &)> &want) {
  const auto v = lines_of(o.text);
  check(v.size() == n, "lines", "%s printed %zu lines for %zu epochs: %s", name.c_str(), v.size(), n, o.err.substr(0, 300).c_str());
  for (size_t i = 0; i < v.size() && i < n; i++) {
    const Row &k = rows[i];
    check(v[i].day == k.day && fabsl(v[i].sec - k.sod) < 1e-8L, "epoch", "%s line %zu: %d %.9f for %d %.9Lf", name.c_str(), i, v[i].day, v[i].sec, k.day, k.sod);
    for (int j = 0; j < 3; j++) check(v[i].ref[j] == k.ref[j], "reference", "%s line %zu: the reference is %.17e, printed %.17e", name.c_str(), i, k.ref[j], v[i].ref[j]);
    const Want w = want(k);
    for (int j = 0; j < 3; j++)
      check(fabsl(v[i].a[j] - w.a[j]) <= w.tol, name.c_str(), "line %zu component %d: printed %.17e expected %.17Le (tolerance %.2Le)", i, j, v[i].a[j], w.a[j], w.tol);
    count("lines compared");
    eval(hash(bits(k.mjd), bits(v[i].a[0])));
  }
}
// A program and its files: as they are; one file not there; the reference accelerations of other epochs
static void drive(Rng &r, const std::string &name, const std::vector<std::string> &args, const std::vector<int> &must, const std::vector<Row> &rows, const std::function<Want(const Row &)> &want) {
  ctx("%s: %zu epochs from %.6f", name.c_str(), rows.size(), rows[0].mjd);
  Out o = launch(name, args);
  check(!sanitizer(o), "sanitizer", "%s: %s", name.c_str(), where(o).c_str());
  check(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0, "status", "%s ended with %d: %s", name.c_str(), o.status, o.err.substr(0, 500).c_str());
  check(o.text.compare(0, 7, "#title ") == 0, "title", "%s starts with %s", name.c_str(), o.text.substr(0, 60).c_str());
  compare(name, o, rows, rows.size(), want);
  if (S().samples.size() < 4 && o.text.size() > 100) sample("%s: %s", name.c_str(), o.text.substr(o.text.find('\n') + 1, 170).c_str());
  auto b = args;
  const int gone = must[r.in(0L, (long)must.size() - 1)];
  b[gone] = dir() + "/not_there";
  ctx("%s without its file %d", name.c_str(), gone + 1);
  o = launch(name, b);
  check(!(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0), "missing-file", "%s ended well without its file %d", name.c_str(), gone + 1);
  check(lines_of(o.text).empty(), "missing-file-lines", "%s printed accelerations without its file %d", name.c_str(), gone + 1);
  check(!sanitizer(o), "sanitizer", "%s: %s", name.c_str(), where(o).c_str());
  eval(hash(name.size(), gone, 77));
  // one epoch of the references is not that of the orbit
  const size_t at = r.in(0L, (long)rows.size() - 1);
  auto q = rows;
  if (r.coin()) q[at].mjd = d15(q[at].mjd + r.real(1e-5, 1e-2), "%.12f");
  else q[at].mjd += r.coin() ? 1 : -1;
  acc_file(r, q);
  ctx("%s, another epoch in line %zu of the references", name.c_str(), at);
  o = launch(name, args);
  check(WIFEXITED(o.status) && WEXITSTATUS(o.status) != 0, "mismatch", "%s ended with %d", name.c_str(), o.status);
  check(!sanitizer(o), "sanitizer", "%s: %s", name.c_str(), where(o).c_str());
  compare(name, o, rows, at, want);
  // a file that ends before the orbit does
  {
    std::vector<std::string> cut{"acc.txt"};
    for (auto &a : args)
      for (auto f : {"/rot.txt", "/eops.txt"})
        if (a == dir() + f) cut.push_back(f + 1);
    const std::string f = cut[r.in(0L, (long)cut.size() - 1)];
    const size_t has = r.coin(.2) ? 0 : r.coin() ? rows.size() - 1 : (size_t)r.in(0L, (long)rows.size() - 1);
    const std::vector<Row> some(rows.begin(), rows.begin() + has);
    acc_file(r, f == "acc.txt" ? some : rows);
    if (f == "rot.txt") rot_file(r, some);
    if (f == "eops.txt") eops_file(r, some);
    ctx("%s with %zu of %zu epochs in %s", name.c_str(), has, rows.size(), f.c_str());
    o = launch(name, args);
    check(WIFEXITED(o.status) && WEXITSTATUS(o.status) != 0, "short-file", "%s ended with %d", name.c_str(), o.status);
    check(!sanitizer(o), "sanitizer", "%s: %s", name.c_str(), where(o).c_str());
    compare(name, o, rows, has, want);
    count("files ending early");
  }
  b = args, b.pop_back();
  ctx("%s with an argument less", name.c_str());
  if (name != "costg_09") { // any number of files
    o = launch(name, b);
    check(WIFEXITED(o.status) && WEXITSTATUS(o.status) != 0 && lines_of(o.text).empty(), "usage", "%s ended with %d", name.c_str(), o.status);
  }
}
static int some_day(Rng &r) {
  for (;;) {
    const int d = (int)r.in(51600, 58000);
    bool leap = false;
    for (int i = -6; i < 8; i++) leap |= dso::shim::leap(d + i) != dso::shim::leap(d);
    if (!leap) return d;
  }
}
static const LD GMS = 1.32712442076e20L, GMM = .49028010560e13L, GM = 3.986004418e14L, RE = 6378136.6L;
// ------------------------------------------------------------------ the programs
static std::vector<Row> some_orbit(Rng &r, int n) { return make_orbit(r, n, some_day(r), r.real(0, 86000), r.real(5, 3000)); }
static void bodies() {
  Rng r(S().seed);
  for (long k = 0, n = N(14, 200); k < n; k++) {
    const bool moon = r.coin();
    const auto o = some_orbit(r, (int)r.in(1, 60));
    const std::string name = moon ? "costg_03moon" : "costg_03sun", of = orbit_file(r, o), af = acc_file(r, o), a = put("de421.bsp", ""), b = put("naif.tls", "");
    drive(r, name, {of, af, a, b}, {0, 1}, o, [&](const Row &q) {
      LD s[6], d[3];
      body(q, moon ? 301 : 10, s);
      for (int i = 0; i < 3; i++) d[i] = s[i] - q.x[i];
      const LD R = len(s), D = len(d), g = moon ? GMM : GMS, xr = sqrtl((LD)q.x[0] * q.x[0] + (LD)q.x[1] * q.x[1] + (LD)q.x[2] * q.x[2]);
      Want w;
      for (int i = 0; i < 3; i++) w.a[i] = g * (d[i] / (D * D * D) - s[i] / (R * R * R));
      w.tol = 1e-8L * g * xr / (R * R * R);
      return w;
    });
  }
}
static A3 cross(const A3 &a, const A3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD dot(const A3 &a, const A3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void relativity() {
  Rng r(S().seed + 1);
  for (long k = 0, n = N(10, 150); k < n; k++) {
    const auto o = some_orbit(r, (int)r.in(1, 60));
    const std::string of = orbit_file(r, o), af = acc_file(r, o), a = put("de421.bsp", ""), b = put("naif.tls", "");
    drive(r, "costg_07", {of, af, a, b}, {0, 1}, o, [&](const Row &q) {
      LD s[6];
      body(q, 10, s, true);
      const A3 x{q.x[0], q.x[1], q.x[2]}, v{q.v[0], q.v[1], q.v[2]}, E{-s[0], -s[1], -s[2]}, Ev{-s[3], -s[4], -s[5]}, J{0, 0, 9.8e8L};
      const LD c2 = 299792458.L * 299792458.L, rr = sqrtl(dot(x, x)), RR = sqrtl(dot(E, E)), f = GM / (c2 * rr * rr * rr);
      const A3 xv = cross(x, v), vJ = cross(v, J), e{-GMS / (c2 * RR * RR * RR) * E[0], -GMS / (c2 * RR * RR * RR) * E[1], -GMS / (c2 * RR * RR * RR) * E[2]}, w3 = cross(cross(Ev, e), v);
      Want w;
      for (int i = 0; i < 3; i++)
        w.a[i] = f * ((4 * GM / rr - dot(v, v)) * x[i] + 4 * dot(x, v) * v[i]) + 2 * f * (3 / (rr * rr) * dot(x, J) * xv[i] + vJ[i]) + 3 * w3[i];
      w.tol = 1e-7L * f * (GM + rr * dot(v, v));
      return w;
    });
  }
}
static A3 pull(const dso::StokesCoeffs &cs, const Row &q, int N, LD rel, LD &tol) {
  const double x[3] = {q.x[0], q.x[1], q.x[2]};
  const auto f = oracle::field(cs, x, N, N, cs.Re(), cs.GM());
  tol = rel * (LD)f.sa;
  return mulT(q.R, {(LD)f.a[0], (LD)f.a[1], (LD)f.a[2]});
}
static Ut1 some_ut1(Rng &r, int day) { return {day - 6, std::floor(r.sym() * .4 * 1e4) * 1e-4, std::floor(r.real(-2e-3, 2e-3) * 1e5) * 1e-5}; }
static void solid() {
  Rng r(S().seed + 2);
  for (long k = 0, n = N(10, 150); k < n; k++) {
    const auto o = some_orbit(r, (int)r.in(1, 40));
    const Ut1 u = some_ut1(r, o[0].day);
    const std::string of = orbit_file(r, o), af = acc_file(r, o), a = put("de421.bsp", ""), b = put("naif.tls", ""), ef = c04_file(r, u, 16), rf = rot_file(r, o);
    drive(r, "costg_04", {of, af, a, b, ef, rf}, {0, 1, 4, 5}, o, [&](const Row &q) {
      Case c;
      c.gme = (double)GM, c.re = (double)RE, c.gms = (double)GMS, c.gmm = (double)GMM, c.tt = q.tt(), c.ut = ut1_of(q, u);
      LD s[6], m[6], C[5][5], Sn[5][5], sc[5];
      body(q, 10, s), body(q, 301, m);
      const A3 S3 = mul(q.R, {s[0], s[1], s[2]}), M3 = mul(q.R, {m[0], m[1], m[2]});
      for (int i = 0; i < 3; i++) c.sun(i) = (double)S3[i], c.moon(i) = (double)M3[i];
      delaunay(q, c.f);
      expect_stokes(c, C, Sn, sc);
      dso::StokesCoeffs cs(4, 4, (double)GM, (double)RE);
      cs.clear();
      for (int i = 0; i < 5; i++)
        for (int j = 0; j <= i; j++) cs.C(i, j) = (double)C[i][j], cs.S(i, j) = (double)Sn[i][j];
      Want w;
      w.a = pull(cs, q, 4, 1e-6L, w.tol);
      return w;
    });
  }
}
static void pole_m(const Row &q, LD &m1, LD &m2) {
  const LD y = q.tt_cent() * 100;
  m1 = q.xp / AS - (.055L + .001677L * y), m2 = -(q.yp / AS - (.3205L + .00346L * y));
}
static void pole() {
  Rng r(S().seed + 3);
  for (long k = 0, n = N(14, 200); k < n; k++) {
    const auto o = some_orbit(r, (int)r.in(1, 60));
    const std::string of = orbit_file(r, o), af = acc_file(r, o), rf = rot_file(r, o), ef = eops_file(r, o);
    drive(r, "costg_05", {of, rf, ef, af}, {0, 1, 2, 3}, o, [&](const Row &q) {
      LD m1, m2;
      pole_m(q, m1, m2);
      dso::StokesCoeffs cs(2, 2, (double)GM, (double)RE);
      cs.clear();
      cs.C(2, 1) = (double)(-1.333e-9L * (m1 + .0115L * m2)), cs.S(2, 1) = (double)(-1.333e-9L * (m2 - .0115L * m1));
      Want w;
      w.a = pull(cs, q, 2, 1e-8L, w.tol);
      return w;
    });
  }
}
static const int D = 180;
struct Set {
  std::vector<double> c, s; // by degree, order
  Set() : c((D + 1) * (D + 1), 0.), s(c) {}
  double &C(int n, int m) { return c[n * (D + 1) + m]; }
  double &Sn(int n, int m) { return s[n * (D + 1) + m]; }
};
static double size(int n) { return 1e-9 / (1 + n * n * .05); }
static Set rand_set(Rng &r) {
  Set x;
  for (int n = 0; n <= D; n++)
    for (int m = 0; m <= n; m++) x.C(n, m) = d15(r.sym() * size(n), "%.9e"), x.Sn(n, m) = m ? d15(r.sym() * size(n), "%.9e") : 0;
  return x;
}
static std::string block(Set &x, const std::string &of, int k) {
  std::string t = fmt("DATA SET %02d: %7d COEFFICIENTS %s\n", k, (D + 1) * (D + 2) / 2, of.c_str());
  for (int n = 0; n <= D; n++)
    for (int m = 0; m <= n; m++) t += fmt("%3d %3d %16.9e %16.9e\n", n, m, x.C(n, m), x.Sn(n, m));
  return t;
}
static std::string aod_head(const std::string &wave, int sets, const std::string &first, const std::string &last) {
  auto L = [](const char *k, const std::string &v) { return fmt("%-30s: %s\n", k, v.c_str()); };
  const bool tide = !wave.empty();
  return L("PRODUCER AGENCY", "GFZ") + L("PRODUCER INSTITUTION", "GFZ") + L("FILE TYPE ipAOD1BF", "999") + L("FILE FORMAT 0=BINARY 1=ASCII", "1") + L("NUMBER OF HEADER RECORDS", "29") + L("SOFTWARE VERSION", "x") +
         L("SOFTWARE LINK TIME", "Not Applicable") + L("REFERENCE DOCUMENTATION", "GRACE AOD1B PDD") + L("SATELLITE NAME", "GRACE") + L("SENSOR NAME", "Not Applicable") +
         (tide ? L("TIME FIRST OBS (YEAR START)", "2007") + L("TIME LAST OBS (YEAR END)", "2014")
               : L("TIME EPOCH (GPS TIME)", "2000-01-01 12:00:00") + L("TIME FIRST OBS(SEC PAST EPOCH)", first) + L("TIME LAST OBS(SEC PAST EPOCH)", last)) +
         L("NUMBER OF DATA RECORDS", std::to_string(sets * (D + 1) * (D + 2) / 2)) + L("PRODUCT START CREATE TIME(UTC)", "2018-01-01 00:00:00.000") + L("PRODUCT END CREATE TIME(UTC)", "2018-01-01 00:00:00.000") +
         L("FILESIZE (BYTES)", "1234") + L("FILENAME", "x") + L("PROCESS LEVEL (1A OR 1B)", "1B") + L(tide ? "PRESSURE TYPE (ATM OR OCN)" : "PRESSURE TYPE (SP OR VI)", tide ? "ATM" : "SP") +
         L("MAXIMUM DEGREE", std::to_string(D)) + L("COEFFICIENTS ERRORS (YES/NO)", "NO") + L("COEFF. NORMALIZED (YES/NO)", "YES") + L("CONSTANT GM [M^3/S^2]", "0.39860044180000E+15") + L("CONSTANT A [M]", "0.63781366000000E+07") +
         L("CONSTANT FLAT [-]", "298.257") + L("CONSTANT OMEGA [RAD/S]", "0.7292115e-04") + (tide ? L("PARTIAL TIDE", wave) : "") + L("NUMBER OF DATA SETS", std::to_string(sets)) + L("DATA FORMAT (N,M,C,S)", "(2(I3,x),E15.9,x,E15.9)") + "END OF HEADER\n";
}
static A3 pull_set(Set &x, const Row &q, LD rel, LD &tol) {
  dso::StokesCoeffs cs(D, D, (double)GM, (double)RE);
  cs.clear();
  for (int n = 2; n <= D; n++)
    for (int m = 0; m <= n; m++) cs.C(n, m) = x.C(n, m), cs.S(n, m) = x.Sn(n, m);
  return pull(cs, q, D, rel, tol);
}
static void dealias() {
  Rng r(S().seed + 4);
  for (long k = 0, n = N(4, 24); k < n; k++) {
    const int day = some_day(r), H = 6, files = r.coin(.7) ? 2 : 1;
    const double step = r.real(600, 4000), from = files == 2 ? 86400 - step * r.real(.5, 4) : r.real(0, 60000);
    auto o = make_orbit(r, (int)r.in(3, 9), day, from, step);
    while (!o.empty() && (o.back().day - day) * 86400 + o.back().sod > files * 86400 - H * 3600 - 60) o.pop_back();
    if (o.empty()) continue;
    std::vector<Set> glo;
    std::string first;
    for (int f = 0; f < files; f++) {
      int y, m, d;
      dso::shim::ymd_of(day + f, y, m, d);
      const long s0 = (day + f - 51544) * 86400L - 43200;
      std::string t;
      int b = 0;
      const bool other = r.coin();
      for (int h = 0; h < 24; h += H) {
        const std::string at = fmt("FOR %04d-%02d-%02d %02d:00:00 OF TYPE ", y, m, d, h);
        if (other) { Set z = rand_set(r); t += block(z, at + "atm", ++b); }
        glo.push_back(rand_set(r));
        t += block(glo.back(), at + "glo", ++b);
      }
      const std::string p = put(fmt("AOD1B_%04d-%02d-%02d_X_06.asc", y, m, d), aod_head("", b, fmt("%ld.000000 (%04d-%02d-%02d 00:00:00.00)", s0, y, m, d), fmt("%ld.000000 (%04d-%02d-%02d %02d:00:00.00)", s0 + (24 - H) * 3600L, y, m, d, 24 - H)) + t);
      if (!f) first = p;
    }
    const std::string of = orbit_file(r, o), af = acc_file(r, o), rf = rot_file(r, o);
    drive(r, "costg_08", {of, first, af, rf, dir()}, {0, 1, 2, 3}, o, [&](const Row &q) {
      const LD h = ((q.day - day) * 86400 + q.sod) / (H * 3600);
      const int i = (int)h;
      const LD f = h - i;
      Set z;
      for (size_t j = 0; j < z.c.size(); j++) z.c[j] = (double)(glo[i].c[j] * (1 - f) + glo[i + 1].c[j] * f), z.s[j] = (double)(glo[i].s[j] * (1 - f) + glo[i + 1].s[j] * f);
      Want w;
      w.a = pull_set(z, q, 1e-9L, w.tol);
      return w;
    });
    for (int f = 0; f < files; f++) {
      int y, m, d;
      dso::shim::ymd_of(day + f, y, m, d);
      unlink((dir() + fmt("/AOD1B_%04d-%02d-%02d_X_06.asc", y, m, d)).c_str());
    }
  }
}
static void airtide() {
  Rng r(S().seed + 5);
  // Doodson multipliers and the phase, in quarter turns
  static const struct { const char *n; int d[6], p; } W[] = {{"S1", {1, 1, -1, 0, 0, 0}, 2}, {"S2", {2, 2, -2, 0, 0, 0}, 0}, {"M2", {2, 0, 0, 0, 0, 0}, 0}, {"N2", {2, -1, 0, 1, 0, 0}, 0}, {"K1", {1, 1, 0, 0, 0, 0}, -1}, {"P1", {1, 1, -2, 0, 0, 0}, 1}};
  for (long k = 0, n = N(4, 24); k < n; k++) {
    const bool s1 = r.coin();
    const auto o = some_orbit(r, (int)r.in(2, 6));
    const Ut1 u = some_ut1(r, o[0].day);
    std::vector<int> idx{0};
    if (!s1) {
      idx.clear();
      for (int i = 0; i < 6; i++)
        if (r.coin(.4)) idx.push_back(i);
      if (idx.empty()) idx.push_back((int)r.in(0, 5));
    }
    std::vector<Set> c, s;
    std::vector<std::string> wf;
    for (int i : idx) {
      c.push_back(rand_set(r)), s.push_back(rand_set(r));
      wf.push_back(put(fmt("AOD1B_ATM_%s_06.asc", W[i].n), aod_head(W[i].n, 2, "", "") + block(c.back(), "OF TYPE cos", 1) + block(s.back(), "OF TYPE sin", 2)));
    }
    const std::string of = orbit_file(r, o), af = acc_file(r, o), rf = rot_file(r, o), ef = c04_file(r, u, 16);
    std::vector<std::string> args = s1 ? std::vector<std::string>{of, wf[0], rf, ef, af} : std::vector<std::string>{of, rf, ef, af};
    if (!s1) args.insert(args.end(), wf.begin(), wf.end());
    std::vector<int> must;
    for (size_t i = 0; i < args.size(); i++) must.push_back((int)i);
    drive(r, s1 ? "costg_09s1" : "costg_09", args, must, o, [&](const Row &q) {
      double f[5];
      LD be[6];
      delaunay(q, f);
      doodson(f, gmst(q.tt(), ut1_of(q, u)), be);
      Set z;
      for (size_t i = 0; i < idx.size(); i++) {
        LD a = W[idx[i]].p * PI / 2;
        for (int j = 0; j < 6; j++) a += W[idx[i]].d[j] * be[j];
        for (size_t j = 0; j < z.c.size(); j++) z.c[j] += (double)(c[i].c[j] * cosl(a) + s[i].c[j] * sinl(a)), z.s[j] += (double)(c[i].s[j] * cosl(a) + s[i].s[j] * sinl(a));
      }
      Want w;
      w.a = pull_set(z, q, 1e-7L, w.tol);
      return w;
    });
  }
}
static void oceanpole() {
  Rng r(S().seed + 6);
  for (long k = 0, n = N(4, 24); k < n; k++) {
    const auto o = some_orbit(r, (int)r.in(2, 6));
    std::string t = " n m Anm(Real) Bnm(Real) Anm(Imaginary) Bnm(Imaginary)\n";
    std::vector<std::array<double, 4>> T((D + 1) * (D + 1), std::array<double, 4>{});
    for (int a = 1; a <= 360; a++)
      for (int b = 0; b <= a; b++) {
        if (a > D && r.coin(.95)) continue;
        std::array<double, 4> v;
        for (auto &y : v) y = d15(r.sym() / a, "%.13e");
        t += fmt("%3d %3d %21.13e%21.13e%21.13e%21.13e\n", a, b, v[0], v[1], v[2], v[3]);
        if (a <= D) T[a * (D + 1) + b] = v;
      }
    const std::string of = orbit_file(r, o), af = acc_file(r, o), rf = rot_file(r, o), ef = eops_file(r, o), df = put("desai.txt", t);
    drive(r, "costg_06", {of, rf, ef, af, df}, {0, 1, 2, 3, 4}, o, [&](const Row &q) {
      LD m1, m2;
      pole_m(q, m1, m2);
      const LD fr = AS * (m1 * .6870L + m2 * .0036L), fi = AS * (m2 * .6870L - m1 * .0036L), w0 = 7.292115e-5L, F = w0 * w0 * RE * RE * RE * RE / GM * 4 * PI * 6.67428e-11L * 1025 / 9.7803278L;
      Set z;
      for (int a = 2; a <= D; a++)
        for (int b = 0; b <= a; b++) {
          const auto &x = T[a * (D + 1) + b];
          const LD R = F * (1 + (LD)KN[a]) / (2 * a + 1);
          z.C(a, b) = (double)(R * (x[0] * fr + x[2] * fi)), z.Sn(a, b) = (double)(R * (x[1] * fr + x[3] * fi));
        }
      Want w;
      w.a = pull_set(z, q, 3e-6L, w.tol);
      return w;
    });
  }
}
int main(int argc, char **argv) {
  return run(argc, argv, {{"bodies", bodies}, {"relativity", relativity}, {"solid", solid}, {"pole", pole}, {"dealias", dealias}, {"airtide", airtide}, {"oceanpole", oceanpole}});
}
