// preloaded: another time of day and another process number than those of the run before
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#define SHIFT 3196801
int clock_gettime(clockid_t id, struct timespec *t) { int r = (int)syscall(SYS_clock_gettime, id, t); if (!r) t->tv_sec += SHIFT, t->tv_nsec ^= 1; return r; }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; if (clock_gettime(CLOCK_REALTIME, &s)) return -1; if (t) t->tv_sec = s.tv_sec, t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
clock_t clock(void) { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return (s.tv_sec - SHIFT + 77) * CLOCKS_PER_SEC + s.tv_nsec / 1000; }
pid_t getpid(void) { return (pid_t)syscall(SYS_getpid) + 12345; }
