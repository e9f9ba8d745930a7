/* Stand-in for CSPICE: the calls iers2010 makes, recorded and answered by the monitor (see planets.cpp). */
#ifndef VERIF_SHIM_SPICE
#define VERIF_SHIM_SPICE
typedef int SpiceInt;
typedef char SpiceChar;
typedef int SpiceBoolean;
typedef double SpiceDouble;
extern "C" {
double unitim_c(double epoch, const char *insys, const char *outsys);
void spkezp_c(int targ, double et, const char *ref, const char *abcorr, int obs, double ptarg[3], double *lt);
void spkezr_c(const char *targ, double et, const char *ref, const char *abcorr, const char *obs, double starg[6], double *lt);
void ktotal_c(const char *kind, int *count);
void kdata_c(int which, const char *kind, int fillen, int typlen, int srclen, char *file, char *filtyp, char *source,
             int *handle, int *found);
void furnsh_c(const char *file);
void bodvrd_c(const char *body, const char *item, int maxn, int *dim, double *values);
}
#endif
