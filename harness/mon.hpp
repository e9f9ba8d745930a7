// Monitor support: event accounting, verdicts, deterministic randomness.
// A harness is a set of named scenarios; each runs in its own process.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
    for (int i = 0; i < 4; i++) next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // integer in [a,b]
  template <class A, class B> long in(A a, B b) {
    static_assert(std::is_integral<A>::value && std::is_integral<B>::value, "use real()");
    return (long)a + (long)(next() % (uint64_t)((long)b - (long)a + 1));
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * u(); }
  double sym() { return real(-1.0, 1.0); }
  bool coin(double p = .5) { return u() < p; }
  // random magnitude over several decades, random sign
  double wide(int lo, int hi) {
    double m = std::pow(10.0, real((double)lo, (double)hi));
    return coin() ? m : -m;
  }
};

// an epoch, at times the one before again, or one next to it: what is remembered from one call to the next must not show
template <class Seconds, class Epoch> Epoch revisit(Rng &r, const Epoch &fresh) {
  static Epoch last = fresh;
  if (r.coin(.2)) {
    const double far = std::pow(10.0, r.real(-4.0, 4.5));
    if (!r.coin(.2)) last = last.add_seconds(Seconds(r.coin() ? far : -far));
  } else last = fresh;
  return last;
}

// an argument, at times that of the case before while the others change: what is remembered for one must not answer for
// another (one per argument)
template <class T> class Stay {
  bool any = false;
  T last{};
public:
  void operator()(Rng &r, T &v, double p = .25) {
    if (any && r.coin(p)) v = last;
    else last = v, any = true;
  }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
template <class... A> uint64_t hash(A... a) {
  uint64_t h = 1469598103934665603ull;
  ((h = mix(h, (uint64_t)a)), ...);
  return h;
}

struct Viol {
  std::string detail;
  long n = 0;
};

struct State {
  std::string scenario, tier = "quick", out, scratch;
  uint64_t seed = 1;
  double scale = 1;
  uint64_t evals = 0, checks = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, long> counters;
  std::map<std::string, Viol> viols;
  char ctx[1024] = "-";
};
inline State &S() {
  static State *s = new State;
  return *s;
}
inline bool thorough() { return S().tier == "thorough"; }
// number of cases, by tier
inline long N(long quick, long thor) {
  long n = thorough() ? thor : quick;
  n = (long)(n * S().scale);
  return n < 1 ? 1 : n;
}

__attribute__((format(printf, 1, 2))) inline void ctx(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  vsnprintf(S().ctx, sizeof S().ctx, f, ap);
  va_end(ap);
}
inline void eval(uint64_t h, bool nontrivial = true) {
  S().evals++;
  if (nontrivial && S().distinct.size() < 4000000) S().distinct.insert(h);
}
__attribute__((format(printf, 1, 2))) inline void sample(const char *f, ...) {
  if (S().samples.size() >= 4) return;
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  S().samples.push_back(b);
}
inline void count(const char *k, long n = 1) { S().counters[k] += n; }

__attribute__((format(printf, 3, 4))) inline bool check(bool ok, const char *key,
                                                        const char *f, ...) {
  S().checks++;
  if (ok) return true;
  auto &v = S().viols[key];
  if (!v.n++) {
    char b[3072];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    v.detail = std::string(b) + " [case: " + S().ctx + "]";
  }
  return false;
}
// |got-ref| <= tol, NaN is a failure
inline bool near(double got, double ref, double tol, const char *key, const char *what = "") {
  return check(std::abs(got - ref) <= tol, key,
               "%s got %.17g expected %.17g (|diff|=%.3g > %.3g)", what, got, ref,
               std::abs(got - ref), tol);
}
inline bool same(double got, double ref, const char *key, const char *what = "") {
  return check(bits(got) == bits(ref) || got == ref, key, "%s got %.17g expected exactly %.17g",
               what, got, ref);
}

inline long live_bytes() {
#if defined(__SANITIZE_ADDRESS__)
  return (long)__sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}
inline void write_out() {
  State &s = S();
  FILE *f = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
  if (!f) exit(97);
  fprintf(f, "{\"scenario\":%s,\"evals\":%lu,\"distinct\":%lu,\"checks\":%lu,\"samples\":[",
          jstr(s.scenario).c_str(), s.evals, (unsigned long)s.distinct.size(), s.checks);
  for (size_t i = 0; i < s.samples.size(); i++)
    fprintf(f, "%s%s", i ? "," : "", jstr(s.samples[i]).c_str());
  fprintf(f, "],\"counters\":{");
  bool first = true;
  for (auto &k : s.counters) {
    fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(k.first).c_str(), k.second);
    first = false;
  }
  fprintf(f, "},\"violations\":[");
  first = true;
  for (auto &k : s.viols) {
    fprintf(f, "%s{\"key\":%s,\"n\":%ld,\"detail\":%s}", first ? "" : ",",
            jstr(k.first).c_str(), k.second.n, jstr(k.second.detail).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}

inline void print_ctx() {
  const char *a = "\nMON-CTX: ";
  (void)!write(2, a, strlen(a));
  (void)!write(2, S().ctx, strlen(S().ctx));
  (void)!write(2, "\n", 1);
}
inline void on_abort(int sig) {
  print_ctx();
  signal(sig, SIG_DFL);
  raise(sig);
}

// Silences the library's own messages (stdio) but not the sanitizers' (fd 2).
struct Quiet {
  FILE *old, *nul;
  Quiet() : old(stderr), nul(fopen("/dev/null", "w")) {
    if (nul) stderr = nul;
  }
  ~Quiet() {
    stderr = old;
    if (nul) fclose(nul);
  }
};

// Run f in a child; returns 0 = returned normally, 1 = died (assert, signal,
// sanitizer), 2 = harness trouble.  Child output goes to /dev/null.
inline int dies(const std::function<void()> &f) {
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) return 2;
  if (p == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(0);
    signal(SIGABRT, SIG_DFL);
    f();
    _exit(0);
  }
  int st = 0;
  if (waitpid(p, &st, 0) != p) return 2;
  return (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 0 : 1;
}

struct Scn {
  const char *name;
  void (*fn)();
};
inline int run(int argc, char **argv, std::vector<Scn> scns) {
  State &s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--scenario") s.scenario = v;
    else if (k == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") s.tier = v;
    else if (k == "--out") s.out = v;
    else if (k == "--scale") s.scale = atof(v.c_str());
    else if (k == "--scratch") s.scratch = v;
  }
  signal(SIGABRT, on_abort);
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  __sanitizer_set_death_callback(print_ctx);
#else
  signal(SIGSEGV, on_abort);
#endif
  for (auto &c : scns)
    if (s.scenario == c.name) {
      c.fn();
      write_out();
      fflush(stdout);
      _exit(0);
    }
  fprintf(stderr, "unknown scenario '%s'; have:", s.scenario.c_str());
  for (auto &c : scns) fprintf(stderr, " %s", c.name);
  fprintf(stderr, "\n");
  return 96;
}
} // namespace mon
#define MON_KEY_RNG(name) \
  mon::Rng name(mon::hash(mon::S().seed, std::hash<std::string>{}(__func__)))
