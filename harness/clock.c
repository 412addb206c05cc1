// A clock which advances by STEP_CLOCK nanoseconds at every look, and a record of the calls of
// the standard functions (number, least and greatest argument) written to the file CALL_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static unsigned long long now = 1000000000ull, step;
static void look(void) { if (!step) { const char *s = getenv("STEP_CLOCK"); step = s ? strtoull(s, 0, 10) : 1; } now += step; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; look(); t->tv_sec = (time_t)(now / 1000000000ull); t->tv_nsec = (long)(now % 1000000000ull); return 0; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; look(); t->tv_sec = (time_t)(now / 1000000000ull); t->tv_usec = (long)(now % 1000000000ull / 1000); return 0; }

#define ALL ONE(sin) ONE(cos) ONE(tan) ONE(exp) ONE(log) ONE(asin) ONE(acos) ONE(atan) ONE(tanh) TWO(atan2)
struct rec { unsigned long long n; double lo, hi; };
static void see(struct rec *r, double x) { if (!r->n++) r->lo = r->hi = x; if (x < r->lo) r->lo = x; if (x > r->hi) r->hi = x; }
#define ONE(F) \
  static struct rec r_##F, r_##F##f; \
  double F(double x) { static double (*g)(double); if (!g) g = (double (*)(double))dlsym(RTLD_NEXT, #F); see(&r_##F, x); return g(x); } \
  float F##f(float x) { static float (*g)(float); if (!g) g = (float (*)(float))dlsym(RTLD_NEXT, #F "f"); see(&r_##F##f, x); return g(x); }
#define TWO(F) \
  static struct rec r_##F, r_##F##f; \
  double F(double x, double y) { static double (*g)(double, double); if (!g) g = (double (*)(double, double))dlsym(RTLD_NEXT, #F); see(&r_##F, x); return g(x, y); } \
  float F##f(float x, float y) { static float (*g)(float, float); if (!g) g = (float (*)(float, float))dlsym(RTLD_NEXT, #F "f"); see(&r_##F##f, x); return g(x, y); }
ALL
#undef ONE
#undef TWO
#define ONE(F) fprintf(o, "%s %llu %a %a\n", #F, r_##F.n, r_##F.lo, r_##F.hi); fprintf(o, "%sf %llu %a %a\n", #F, r_##F##f.n, r_##F##f.lo, r_##F##f.hi);
#define TWO ONE
static void __attribute__((destructor)) report(void) {
  const char *n = getenv("CALL_LOG");
  FILE *o = n ? fopen(n, "w") : 0;
  if (!o) return;
  ALL
  fclose(o);
}
