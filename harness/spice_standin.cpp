// The SPICE calls of the library, answered from spice_standin.hpp once the two kernels have been loaded.
#include "spice_standin.hpp"
#include "cppspice/SpiceUsr.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::string> K;
static bool has(const char *ext) {
  for (auto &k : K)
    if (k.find(ext) != std::string::npos) return true;
  return false;
}
static void get(int targ, double et, const char *ref, const char *ab, int obs, int n, double *p) {
  double s[6];
  sky::state<double>(targ, et, s);
  const bool ok = !strcmp(ref, "J2000") && !strcmp(ab, "NONE") && obs == 399 && (targ == 301 || targ == 10) && has(".bsp");
  for (int i = 0; i < n; i++) p[i] = ok ? s[i] : NAN;
}
extern "C" {
double unitim_c(double e, const char *in, const char *out) { return !strcmp(in, "JDTDT") && !strcmp(out, "ET") && has(".tls") ? (e - 2451545.) * 86400 : NAN; }
void spkezp_c(int t, double et, const char *ref, const char *ab, int obs, double *p, double *lt) { get(t, et, ref, ab, obs, 3, p), *lt = 0; }
void spkezr_c(const char *t, double et, const char *ref, const char *ab, const char *obs, double *p, double *lt) { get(atoi(t), et, ref, ab, atoi(obs), 6, p), *lt = 0; }
void ktotal_c(const char *, int *n) { *n = (int)K.size(); }
void kdata_c(int w, const char *, int fl, int tl, int sl, char *file, char *type, char *src, int *h, int *found) {
  *found = w >= 0 && w < (int)K.size(), *h = w;
  snprintf(file, fl, "%s", *found ? K[w].c_str() : ""), snprintf(type, tl, "SPK"), snprintf(src, sl, "%s", "");
}
void furnsh_c(const char *f) { K.push_back(f); }
void bodvrd_c(const char *, const char *, int, int *n, double *v) { *n = 1, *v = NAN; }
}
