// The helper scripts of script/, run as a user runs them, inside a scratch directory.
// D04 (the generator of the series), E02 (conversion of the C headers), E03 (installation of the C++ SPICE library)
#include "mon.hpp"
#include "xy_tables.hpp"
#include <filesystem>
#include <fstream>
#include <regex>
#include <set>
#include <sys/wait.h>
#include <tuple>
using namespace mon;
namespace fs = std::filesystem;
static std::string dir() { return S().scratch.empty() ? std::string("/tmp/scripts_scratch") : S().scratch; }
static std::string q(const std::string &s) { return "'" + s + "'"; }
static int sh(const std::string &cmd) {
  fflush(stdout);
  const int st = system(("{ " + cmd + " ; } >" + q(dir() + "/sh.out") + " 2>&1 </dev/null").c_str());
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static std::string slurp(const std::string &p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
static void put(const std::string &p, const std::string &t) {
  std::ofstream o(p, std::ios::binary);
  o << t;
}
static std::map<std::string, std::string> tree(const std::string &d) {
  std::map<std::string, std::string> m;
  for (auto &e : fs::recursive_directory_iterator(d))
    if (e.is_regular_file()) m[fs::relative(e.path(), d).string()] = slurp(e.path().string());
  return m;
}
static void fresh(const std::string &d) {
  fs::remove_all(d);
  fs::create_directories(d);
}
static const std::string SCRIPT = std::string(VERIF_REPO) + "/script/";

// ---- D04: the arrays the generator prints are the published series, in the form the library evaluates
static void generator() {
  const std::string base = dir() + "/gen";
  fresh(base);
  ctx("script/tables52ab.py");
  const int e = sh("cd " + q(base) + " && PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 " + q(SCRIPT + "tables52ab.py") + " >" + q(base + "/out"));
  if (!check(e == 0, "generator-fails", "status %d: %s", e, slurp(dir() + "/sh.out").substr(0, 300).c_str())) return;
  const std::string t = slurp(base + "/out");
  struct LS { int f[5], nx, ny; };
  struct PL { int sum, f[9]; double s, c; int pow; };
  auto numbers = [&](const char *name, long &declared) {
    std::vector<double> v;
    declared = -1;
    std::smatch m;
    if (!std::regex_search(t, m, std::regex("array\\s*<[^<>]*,\\s*([0-9]+)\\s*>\\s*" + std::string(name) + "\\s*=?\\s*\\{"))) return v;
    declared = atol(m[1].str().c_str());
    const char *p = t.c_str() + m.position(0) + m.length(0), *end = strstr(p, "};");
    for (; end && p < end;) {
      if (*p == '/' && p[1] == '*') { p = strstr(p, "*/") + 2; continue; }
      if (isdigit((unsigned char)*p) || *p == '-' || *p == '+' || *p == '.') {
        char *n;
        v.push_back(strtod(p, &n));
        if (n == p) { v.clear(); break; }
        p = n;
      } else p++;
    }
    return v;
  };
  long nls, npl;
  const auto a = numbers("XyLunSol", nls), b = numbers("XyPln", npl);
  if (!check(nls > 0 && npl > 0 && (long)a.size() == 7 * nls && (long)b.size() == 13 * npl, "generator-arrays",
             "declared %ld and %ld rows, found %zu and %zu numbers", nls, npl, a.size(), b.size())) return;
  std::map<std::tuple<int, int, std::vector<int>>, std::vector<std::pair<double, double>>> want, got;
  long total = 0;
  auto add = [&](int xy, int pow, const XyTerm *tb, size_t n) {
    for (size_t i = 0; i < n; i++, total++) want[{xy, pow, std::vector<int>(tb[i].n, tb[i].n + 14)}].push_back({tb[i].s, tb[i].c});
  };
#define ADD(K, J) add(K, J, K ? Y##J : X##J, K ? sizeof Y##J / sizeof *Y##J : sizeof X##J / sizeof *X##J)
  ADD(0, 0), ADD(0, 1), ADD(0, 2), ADD(0, 3), ADD(0, 4), ADD(1, 0), ADD(1, 1), ADD(1, 2), ADD(1, 3), ADD(1, 4);
  check(npl == total, "generator-rows", "%ld rows of %ld", npl, total);
  size_t at = 0;
  std::set<std::vector<int>> seen;
  for (long i = 0; i < nls; i++) {
    const double *l = &a[7 * i];
    std::vector<int> n(l, l + 5);
    check(seen.insert(n).second, "generator-twice", "lunisolar row %ld", i);
    for (int k = 0; k < 2; k++)
      for (int j = 0; j < (int)l[5 + k]; j++, at++) {
        if (!check(at < (size_t)npl, "generator-rows", "row %zu of %ld", at, npl)) return;
        const double *p = &b[13 * at];
        std::vector<int> m = n;
        bool any = false;
        for (int x = 0; x < 9; x++) m.push_back((int)p[1 + x]), any = any || p[1 + x] != 0;
        ctx("row %zu", at);
        check((p[0] != 0) == any, "generator-planets", "marked %g", p[0]);
        got[{k, (int)p[12], m}].push_back({p[10], p[11]});
        eval(hash(77, at));
      }
  }
  check(at == (size_t)npl, "generator-rows", "the frequencies take %zu rows of %ld", at, npl);
  for (auto &w : want) {
    auto &g = got[w.first];
    std::sort(g.begin(), g.end()), std::sort(w.second.begin(), w.second.end());
    ctx("%c t^%d first multipliers %d %d %d %d %d", "XY"[std::get<0>(w.first)], std::get<1>(w.first), std::get<2>(w.first)[0], std::get<2>(w.first)[1],
        std::get<2>(w.first)[2], std::get<2>(w.first)[3], std::get<2>(w.first)[4]);
    if (!check(g.size() == w.second.size(), "generator-term", "%zu terms of %zu", g.size(), w.second.size())) continue;
    for (size_t i = 0; i < g.size(); i++)
      check(std::abs(g[i].first - w.second[i].first) <= 1e-9 * std::abs(w.second[i].first) && std::abs(g[i].second - w.second[i].second) <= 1e-9 * std::abs(w.second[i].second),
            "generator-term", "amplitudes %.10g %.10g for %.10g %.10g", g[i].first, g[i].second, w.second[i].first, w.second[i].second);
  }
  check(got.size() == want.size(), "generator-term", "%zu arguments of %zu", got.size(), want.size());
  check(tree(base).size() == 1, "generator-stray", "files left behind");
  count("rows compared", npl);
  sample("%ld lunisolar arguments, %ld terms", nls, npl);
}

// ---- E02
struct Hdr { std::string name, text, use, def; };
static Hdr make(Rng &r, int id, const std::vector<Hdr> &before) {
  Hdr h;
  const std::string k = "k" + std::to_string(id);
  const char *const names[] = {"Spice", "my header ", "x", "F2C", "a.b", "-opt", "h"};
  h.name = std::string(names[r.in(0, 6)]) + std::to_string(id) + ".h";
  std::vector<std::string> l;
  auto ind = [&] { return std::string((size_t)r.in(0, 9), r.coin(.7) ? ' ' : '\t'); };
  auto tail = [&] { return r.coin(.2) ? std::string((size_t)r.in(1, 4), ' ') : std::string(); };
  const bool guard = r.coin(.8);
  if (r.coin()) l.push_back("/*"), l.push_back("   -Header_File " + k + " ( \"quoted\" {brace} )"), l.push_back(""), l.push_back("*/");
  if (guard) l.push_back("#ifndef HAVE_" + k), l.push_back("#define HAVE_" + k);
  if (!before.empty() && r.coin() && guard) l.push_back("#include \"" + before[r.in(0L, (long)before.size() - 1)].name + "\"");
  const long c = r.in(1, 1000);
  const bool body = guard;       // without a guard only what may be seen twice
  if (r.coin()) l.push_back(ind() + "#define " + k + "_NUM ( " + std::to_string(c) + " \\"), l.push_back(ind() + " + 1 )");
  else l.push_back("#define " + k + "_NUM " + std::to_string(c + 1));
  l.push_back("#define " + k + "_STR \"a  b /* c */ " + k + "\"");
  h.use += "  bad += " + k + "_NUM != " + std::to_string(c + 1) + ";\n  bad += strcmp(" + k + "_STR, \"a  b /* c */ " + k + "\") != 0;\n";
  for (long j = r.in(0, 3); j > 0; j--) l.push_back(tail());
  if (body && r.coin(.7)) {
    l.push_back(ind() + "typedef struct _" + k + tail()), l.push_back("{"), l.push_back(ind() + "int    n;" + tail());
    l.push_back(ind() + "double v [" + std::to_string(c) + "];"), l.push_back("} " + k + "_t;");
    h.use += "  bad += sizeof(" + k + "_t) < " + std::to_string(8 * c) + ";\n";
  }
  for (long j = 0, n = r.in(0, 4); j < n; j++) {
    const std::string f = k + "_f" + std::to_string(j);
    if (r.coin()) l.push_back(ind() + "double " + f + " ( double x, const char * s );" + tail());
    else l.push_back("double           " + f), l.push_back(ind() + "( double   x,    /* in */"), l.push_back(ind() + "  ConstChar  s );"), l.back() = ind() + "const char * s );";
    h.use += "  bad += " + f + "(2., \"ab\") != " + std::to_string(c + j) + " + 4.;\n";
    h.def += "double " + f + "(double x, const char *s) { return " + std::to_string(c + j) + " + x + (s[0] == 'a' ? 2 : 0); }\n";
  }
  if (r.coin()) {
    l.push_back(ind() + "extern int " + k + "_count;");
    h.use += "  bad += " + k + "_count != " + std::to_string(c) + ";\n";
    h.def += "int " + k + "_count = " + std::to_string(c) + ";\n";
  }
  if (r.coin(.3)) l.push_back(ind() + "/* " + std::string((size_t)r.in(1, 3000), 'x') + " */");
  if (guard) l.push_back("#endif" + (r.coin() ? std::string(" /* " + k + " */") : std::string()));
  if (r.coin(.1))   // made for both languages by its author
    l.insert(l.begin(), {"#ifdef __cplusplus", "extern \"C\" {", "#endif"}), l.insert(l.end(), {"#ifdef __cplusplus", "}", "#endif"});
  const bool crlf = r.coin(.15), last = r.coin(.8);
  if (r.coin(.05)) l.clear(), h.use.clear(), h.def.clear();   // an empty header
  for (size_t i = 0; i < l.size(); i++) h.text += l[i] + (i + 1 < l.size() || last ? crlf ? "\r\n" : "\n" : "");
  return h;
}
static std::string tokens(const std::string &file, const char *inc) {   // what a C compiler sees
  const std::string o = dir() + "/tok";
  if (sh("gcc -xc -E -P -I " + q(inc) + " " + q(file) + " -o " + q(o))) return "gcc failed: " + slurp(dir() + "/sh.out").substr(0, 200);
  std::string t = slurp(o), n;
  for (char ch : t)
    if (!isspace((unsigned char)ch)) n += ch;
    else if (!n.empty() && n.back() != ' ') n += ' ';
  return n;
}
static void headers() {
  MON_KEY_RNG(r);
  Quiet qq;
  fs::create_directories(dir());
  const std::string base = dir() + "/hdr";
  for (long k = 0, n = N(40, 800); k < n; k++) {
    fresh(base), fresh(base + "/cwd"), fresh(base + "/org"), fresh(base + "/py");
    // the headers are where the user has them: here, elsewhere, or on another file system
    std::string inc = base + "/inc dir";
    const int where = (int)r.in(0, 3);
    bool other = false;
    if (where == 0) inc = base + "/cwd";
    if (where == 1) {
      char tmp[] = "/dev/shm/verif_hdr_XXXXXX";
      if (mkdtemp(tmp)) inc = tmp, other = true;
    }
    fs::create_directories(inc);
    std::vector<Hdr> hs;
    for (long j = r.in(0, 5); j >= 0; j--) {
      hs.push_back(make(r, (int)hs.size(), hs));
      put(inc + "/" + hs.back().name, hs.back().text);
      put(base + "/org/" + hs.back().name, hs.back().text);
    }
    // and others that are not
    std::map<std::string, std::string> extra;
    for (auto e : {"readme.txt", "makefile", "a.c", "b.hpp", "c.h.in", "noext", "H", "x.hh", "y.H"})
      if (r.coin(.4)) put(inc + "/" + e, extra[e] = std::string("  some text ") + e + " \n");
    if (r.coin(.3)) fs::create_directories(inc + "/sub"), put(inc + "/sub/in.h", extra["sub/in.h"] = "int in_sub(void);\n");
    const auto cwd0 = where == 0 ? std::map<std::string, std::string>() : tree(base + "/cwd");
    put(base + "/py/sitecustomize.py", "import sys, os\n"
        "left = int(os.environ['KILL_AT'])\n"
        "where = os.environ['KILL_IN']\n"
        "def hook(ev, args):\n"
        "    global left\n"
        "    if (ev == 'open' or ev.startswith('os.') or ev.startswith('shutil.')) and any(isinstance(a, str) and (a.startswith(where) or not a.startswith('/')) for a in args):\n"
        "        left -= 1\n"
        "        if left == 0: os._exit(9)\n"
        "if left > 0: sys.addaudithook(hook)\n");
    const int runs = (int)r.in(1, 3);
    bool ok = true;
    for (int run = 0; run < runs && ok; run++) {
      const long kill = run == 0 && r.coin(.35) ? r.in(1, 12) : 0;
      const std::string arg = where == 0 && r.coin() ? "." : r.coin(.3) ? inc + "/" : inc;
      const std::string cmd = "cd " + q(base + "/cwd") + " && KILL_AT=" + std::to_string(kill) + " KILL_IN=" + q(inc) +
          " PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" + q(base + "/py") + " timeout 60 python3 " + q(SCRIPT + "cppspice/c2cpp_header.py") + " " + q(arg);
      ctx("case %ld run %d of %d, %zu headers, kill at %ld, %s", k, run, runs, hs.size(), kill, cmd.c_str());
      const int e = sh(cmd);
      if (kill && e == 9) {
        count("runs stopped in the middle");
        for (auto &h : hs) {
          const std::string a = slurp(inc + "/" + h.name), b = slurp(inc + "/" + h.name + ".cvers");
          const bool kept = (fs::exists(inc + "/" + h.name) && a == h.text) || (fs::exists(inc + "/" + h.name + ".cvers") && b == h.text);
          ok = check(kept, "text-lost", "%s: stopped at step %ld, neither it nor its .cvers is the original", h.name.c_str(), kill) && ok;
        }
        // start over from the originals
        for (auto &f : fs::directory_iterator(inc))
          if (f.is_regular_file() && !extra.count(f.path().filename().string())) fs::remove(f.path());
        for (auto &f : fs::directory_iterator(base + "/cwd"))
          if (f.is_regular_file() && where != 0) fs::remove(f.path());
        for (auto &h : hs) put(inc + "/" + h.name, h.text);
        run = -1;
        if (!ok) break;
        continue;
      }
      ok = check(e == 0, "conversion-fails", "status %d: %s", e, slurp(dir() + "/sh.out").substr(0, 400).c_str());
      if (!ok) break;
    }
    if (ok) {
      const auto after = tree(inc);
      size_t known = 0;
      for (auto &h : hs) {
        const bool there = after.count(h.name) && after.count(h.name + ".cvers");
        if (!check(there, "header-missing", "%s", h.name.c_str())) continue;
        known += 2;
        check(after.at(h.name + ".cvers") == h.text, "original-lost", "%s.cvers has %zu bytes of %zu", h.name.c_str(), after.at(h.name + ".cvers").size(), h.text.size());
        const std::string t1 = tokens(base + "/org/" + h.name, (base + "/org").c_str()), t2 = tokens(inc + "/" + h.name, inc.c_str());
        check(t1 == t2, "other-declarations", "%s says '%.200s' for '%.200s'", h.name.c_str(), t2.c_str(), t1.c_str());
        eval(hash(S().seed, k, known));
      }
      for (auto &x : extra) {
        check(after.count(x.first) && after.at(x.first) == x.second, "other-file", "%s", x.first.c_str());
        known++;
      }
      check(after.size() == known, "stray", "%zu files for %zu", after.size(), known);
      if (where != 0) check(tree(base + "/cwd") == cwd0, "stray", "a file left where the script was started");
      // a C++ program that uses everything links with the C objects
      std::string c = "/* c */\n", x = "#include <string.h>\n";
      for (auto &h : hs) x += "#include \"" + h.name + "\"\n", c += h.def;
      x += "#include \"" + hs[0].name + "\"\nint main() {\n  int bad = 0;\n";
      for (auto &h : hs) x += h.use;
      x += "  return bad ? 1 : 0;\n}\n";
      put(base + "/d.c", c), put(base + "/m.cpp", x);
      const int e = sh("gcc -w -c " + q(base + "/d.c") + " -o " + q(base + "/d.o") + " && g++ -w -I " + q(inc) + " " + q(base + "/m.cpp") + " " + q(base + "/d.o") + " -o " + q(base + "/m") + " && " + q(base + "/m"));
      check(e == 0, "not-usable", "status %d from a C++ program with C objects: %s", e, slurp(dir() + "/sh.out").substr(0, 400).c_str());
      count("headers converted", (long)hs.size()), count("runs", runs);
      if (other) count("directories on another file system");
      if (k < 3) sample("%zu headers, %d runs, first '%s'", hs.size(), runs, hs[0].name.c_str());
    }
    if (other) fs::remove_all(inc);
  }
}
// ---- E03: install.sh on generated source trees, with /usr/local replaced by a directory of its own; it runs as the
// root of a user namespace whose files are those of an unprivileged user, so that nothing real is within its reach
static std::string links(const std::string &d) {   // everything under d: names, kinds, targets and contents
  std::string t;
  std::set<std::string> names;
  for (auto &e : fs::recursive_directory_iterator(d)) names.insert(e.path().string());
  for (auto &n : names)
    t += n + (fs::is_symlink(n) ? " -> " + fs::read_symlink(n).string() : fs::is_regular_file(n) ? " = " + slurp(n) : "/") + "\n";
  return t;
}
static void install() {
  static const char *PK[] = {"cspice", "csupport", "brief_c", "chrnos_c", "ckbref_c", "commnt_c", "cook_c", "dskbrief_c", "dskexp_c", "frmdif_c",
                             "inspkt_c", "mkdsk_c", "mkspk_c", "msopck_c", "spacit_c", "spkdif_c", "spkmrg_c", "tobin_c", "toxfr_c", "versn_c"};
  const int NP = 20;
  const std::string nobody = "setpriv --reuid=65534 --regid=65534 --clear-groups ", root = nobody + "unshare -Ur ";
  fs::create_directories(dir());
  if (sh(root + "true") != 0) {
    count("no user namespace here: nothing run");
    return;
  }
  char tpl[] = "/tmp/verif_install.XXXXXX";
  if (!mkdtemp(tpl)) return;
  const std::string top = tpl;
  MON_KEY_RNG(r);
  for (long k = 0, n = N(40, 400); k < n; k++) {
    const std::string base = top + "/c", usr = base + "/usr_local";
    std::vector<std::string> trees{base + "/cspice"};
    if (r.coin(.4)) trees.push_back(base + (r.coin() ? "/cspice2" : "/new cspice"));
    if (r.coin(.2)) trees[0] = base + "/my cspice";
    fresh(base);
    fs::permissions(top, fs::perms::all), fs::permissions(base, fs::perms::all);
    // the script, which would install into /usr/local
    std::string script = slurp(SCRIPT + "cppspice/install.sh"), from = "/usr/local";
    for (size_t i = 0; (i = script.find(from, i)) != std::string::npos; i += usr.size()) script.replace(i, from.size(), usr);
    put(base + "/install.sh", script);
    fs::create_directories(usr + "/include"), fs::create_directories(usr + "/lib");
    put(usr + "/include/other.h", "other"), put(usr + "/lib/libother.a", "other"), put(usr + "/lib/cspice.a", "of somebody else");
    if (r.coin(.3)) fs::create_directories(usr + "/include/cppspice"), put(usr + "/include/cppspice/own.h", "own");
    std::vector<std::string> heads{"SpiceUsr.h", "SpiceZpr.h", "f2c.h"}, libs{"cspice", "csupport"};
    for (int i = (int)r.in(0, 5); i > 0; i--) heads.push_back("x" + std::to_string(i) + ".h");
    std::vector<int> order(trees.size());
    for (size_t t = 0; t < trees.size(); t++) {
      for (int i = 0; i < NP; i++) {
        const std::string d = trees[t] + "/src/" + PK[i];
        fs::create_directories(d);
        std::string b = std::string("#!/bin/bash\n# builds with gcc\nCC=\"gcc -c\"\necho \"$PWD|$CC\" >> ../../built.log\n");
        if (i < 2) b += "echo \"" + std::string(PK[i]) + " of tree " + std::to_string(t) + "\" > ../../lib/" + PK[i] + ".a\n";
        put(d + "/mkprodct.csh", b);
        put(d + "/a.c", "/* compiles with gcc */\n");
      }
      fs::create_directories(trees[t] + "/include"), fs::create_directories(trees[t] + "/lib");
      for (auto &h : heads) put(trees[t] + "/include/" + h, h + " of tree " + std::to_string(t)), put(trees[t] + "/include/" + h + ".cvers", "C");
    }
    sh("chown -R 65534:65534 " + q(top));
    const int fault = r.coin(.5) ? 0 : (int)r.in(1, 4), runs = fault ? 1 : (int)r.in(1, 3);
    const std::string before = links(usr);
    std::string gone;
    if (fault == 1) gone = trees[0] + "/" + (const char *[]){"include", "lib", "src"}[r.in(0, 2)], fs::remove_all(gone);
    if (fault == 2) put(trees[0] + "/src/" + PK[r.in(0, NP - 1)] + "/mkprodct.csh", "#!/bin/bash\n# gcc\nexit 3\n");
    if (fault == 3) fs::remove_all(trees[0] + "/src/" + PK[r.in(0, NP - 1)]);
    for (int run = 0; run < runs; run++) {
      // the last tree given is the one to be found installed; an earlier one may have been deleted since
      const size_t t = fault ? 0 : run == 0 ? 0 : (size_t)r.in(0, (long)trees.size() - 1);
      const bool deleted = run > 0 && t == 1 && fs::exists(trees[0] + "/src") && r.coin();
      if (deleted) fs::rename(trees[0], trees[0] + ".moved");
      fs::remove(trees[t] + "/built.log");
      const std::string cmd = "cd " + q(trees[t]) + " && timeout 120 " + (fault == 4 ? nobody : root) + "bash " + q(base + "/install.sh");
      ctx("case %ld run %d fault %d: %s", k, run, fault, cmd.c_str());
      const int e = sh(cmd);
      const std::string say = slurp(dir() + "/sh.out").substr(0, 300);
      if (fault) {
        check(e != 0, "accepted", "status 0 with %s", fault == 1 ? ("no " + gone).c_str() : fault == 2 ? "a product that does not build" : fault == 3 ? "a product missing" : "no privileges");
        check(links(usr) == before, "installed-anyway", "fault %d: installed files differ", fault);
        count("refusals");
        eval(hash(S().seed, k, fault));
      } else {
        if (!check(e == 0, run ? "again-fails" : "install-fails", "run %d%s: status %d, %s", run, deleted ? " (earlier tree gone)" : "", e, say.c_str())) break;
        std::map<std::string, int> built;
        std::istringstream in(slurp(trees[t] + "/built.log"));
        for (std::string l; std::getline(in, l);) {
          const size_t bar = l.find('|');
          built[l.substr(0, bar)]++;
          check(l.find("g++ ", bar) == bar + 1, "compiler", "%s", l.c_str());
        }
        for (int i = 0; i < NP; i++) check(built[trees[t] + "/src/" + PK[i]] == 1, "not-built", "%s: %d times", PK[i], built[trees[t] + "/src/" + PK[i]]);
        check((int)built.size() == NP, "not-built", "built in %zu places", built.size());
        for (auto &h : heads) {
          check(slurp(usr + "/include/cppspice/" + h) == h + " of tree " + std::to_string(t), "header", "%s: '%s' after tree %zu", h.c_str(), slurp(usr + "/include/cppspice/" + h).c_str(), t);
          check(slurp(trees[t] + "/include/" + h) == h + " of tree " + std::to_string(t), "source-lost", "%s", h.c_str());
          eval(hash(S().seed, k, run, std::hash<std::string>()(h)));
        }
        for (auto &l : libs) {
          check(slurp(usr + "/lib/lib" + l + ".a") == l + " of tree " + std::to_string(t) + "\n", "library", "lib%s.a: '%s' after tree %zu", l.c_str(), slurp(usr + "/lib/lib" + l + ".a").c_str(), t);
          eval(hash(S().seed, k, run, std::hash<std::string>()(l)));
        }
        // nothing else: take what was installed away and compare
        const std::string copy = base + "/copy";
        fs::remove_all(copy);
        sh("cp -a " + q(usr) + " " + q(copy));
        for (auto &h : heads) fs::remove(copy + "/include/cppspice/" + h);
        for (auto &l : libs) fs::remove(copy + "/lib/lib" + l + ".a");
        if (before.find("/include/cppspice/own.h") == std::string::npos) fs::remove(copy + "/include/cppspice");
        std::string now = links(copy);
        for (size_t i = 0; (i = now.find(copy, i)) != std::string::npos; i += usr.size()) now.replace(i, copy.size(), usr);
        check(now == before, "other-files", "left under the prefix: %s", now.substr(0, 400).c_str());
        count("installations");
        if (run) count("installations over an earlier one");
        if (deleted) count("installations over one whose tree is gone");
      }
      if (deleted) fs::rename(trees[0] + ".moved", trees[0]);
    }
    if (k < 3) sample("%zu trees, %zu headers, %d runs, fault %d", trees.size(), heads.size(), runs, fault);
  }
  fs::remove_all(top);
}
int main(int c, char **v) { return run(c, v, {{"generator", generator}, {"headers", headers}, {"install", install}}); }
