// A clock that only goes on when someone sleeps, for checks run inside of the harness.
#define _GNU_SOURCE
#include <stddef.h>
#include <time.h>
#include <poll.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/select.h>
#include "vclk.h"
int vclk_on; long long vclk_now; int vclk_sleeps;   // microseconds
int __real_gettimeofday(struct timeval*,void*); int __real_clock_gettime(clockid_t,struct timespec*); time_t __real_time(time_t*);
int __real_select(int,fd_set*,fd_set*,fd_set*,struct timeval*); int __real_pselect(int,fd_set*,fd_set*,fd_set*,const struct timespec*,const sigset_t*);
int __real_poll(struct pollfd*,nfds_t,int); int __real_nanosleep(const struct timespec*,struct timespec*); int __real_clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*);
int __real_usleep(useconds_t); unsigned __real_sleep(unsigned);
static long long sec(long long t) { return t>=0? t/1000000 : -((-t+999999)/1000000); }
static void sl(long long us) { vclk_sleeps++; if (us>0) vclk_now+=us; }
int __wrap_gettimeofday(struct timeval *t,void *z) { if (!vclk_on) return __real_gettimeofday(t, z); t->tv_sec=sec(vclk_now); t->tv_usec=vclk_now-t->tv_sec*1000000; return 0; }
int __wrap_clock_gettime(clockid_t c,struct timespec *t) { if (!vclk_on) return __real_clock_gettime(c, t); t->tv_sec=sec(vclk_now); t->tv_nsec=(vclk_now-t->tv_sec*1000000)*1000; return 0; }
time_t __wrap_time(time_t *p) { if (!vclk_on) return __real_time(p); time_t t=sec(vclk_now); if (p) *p=t; return t; }
int __wrap_select(int n,fd_set *r,fd_set *w,fd_set *e,struct timeval *t)
{
    if (!vclk_on || r || w || e || !t) return __real_select(n, r, w, e, t);
    sl(t->tv_sec*1000000ll+t->tv_usec); t->tv_sec=t->tv_usec=0; return 0;
}
int __wrap_pselect(int n,fd_set *r,fd_set *w,fd_set *e,const struct timespec *t,const sigset_t *m)
{
    if (!vclk_on || r || w || e || !t) return __real_pselect(n, r, w, e, t, m);
    sl(t->tv_sec*1000000ll+(t->tv_nsec+999)/1000); return 0;
}
int __wrap_poll(struct pollfd *p,nfds_t n,int ms) { if (!vclk_on || n || ms<0) return __real_poll(p, n, ms); sl(ms*1000ll); return 0; }
int __wrap_nanosleep(const struct timespec *t,struct timespec *r) { if (!vclk_on) return __real_nanosleep(t, r); sl(t->tv_sec*1000000ll+(t->tv_nsec+999)/1000); return 0; }
int __wrap_clock_nanosleep(clockid_t c,int f,const struct timespec *t,struct timespec *r)
{
    if (!vclk_on) return __real_clock_nanosleep(c, f, t, r);
    long long d=t->tv_sec*1000000ll+(t->tv_nsec+999)/1000; sl(f&TIMER_ABSTIME? d-vclk_now : d); return 0;
}
int __wrap_usleep(useconds_t u) { if (!vclk_on) return __real_usleep(u); sl(u); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!vclk_on) return __real_sleep(s); sl(s*1000000ll); return 0; }
