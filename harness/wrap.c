#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include "wrap.h"

struct tw *tw;
static int virt;                                // in effect in this process
static volatile int hold, sched_tid, released;
static volatile int finished;
#define BASE 1500000000ll

int __real_kill(pid_t,int); int __real_killpg(pid_t,int);
int __real_gettimeofday(struct timeval*,void*); int __real_clock_gettime(clockid_t,struct timespec*); time_t __real_time(time_t*);
int __real_select(int,fd_set*,fd_set*,fd_set*,struct timeval*); int __real_pselect(int,fd_set*,fd_set*,fd_set*,const struct timespec*,const sigset_t*);
int __real_poll(struct pollfd*,nfds_t,int); int __real_nanosleep(const struct timespec*,struct timespec*); int __real_clock_nanosleep(clockid_t,int,const struct timespec*,struct timespec*);
int __real_usleep(useconds_t); unsigned __real_sleep(unsigned);
int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
int __real_ttyrec_r_play(int,const char*,const char*,void*,void*,void*,void*);
int __real_isatty(int);

// ------------------------------------------------------------ is everybody waiting?
static int look(unsigned long long *sum, int self)
{   // 0: someone is running
    DIR *d=opendir("/proc/self/task"); struct dirent *e; int ok=1; *sum=0;
    if (!d) _exit(97);
    while (ok && (e=readdir(d)))
    {
        int t=atoi(e->d_name);
        if (!t || t==sched_tid || t==self) continue;
        char fn[64], b[4096]; snprintf(fn, 64, "/proc/self/task/%d/status", t);
        int f=open(fn, O_RDONLY); if (f==-1) { ok=0; break; }
        int n=read(f, b, sizeof(b)-1); close(f); if (n<=0) { ok=0; break; }
        b[n]=0;
        char *s=strstr(b, "State:"); if (!s || s[7]!='S') { ok=0; break; }
        char *v=strstr(b, "\nvoluntary_ctxt_switches:"), *w=strstr(b, "\nnonvoluntary_ctxt_switches:");
        if (!v || !w) _exit(97);
        *sum=*sum*1000003+t*7919ull+strtoull(v+25,0,10)*31+strtoull(w+28,0,10);
    }
    closedir(d);
    return ok;
}
static void quiesce(int self)
{
    struct timespec a, b; __real_clock_gettime(CLOCK_MONOTONIC, &a);
    int tries=0;
    while (1)
    {
        unsigned long long x, y;
        if ((self || !hold) && look(&x, self) && look(&y, self) && x==y && (self || !hold)) break;
        if (++tries>20) { struct timespec q={0, 20000}; __real_nanosleep(&q, 0); } else sched_yield();
        __real_clock_gettime(CLOCK_MONOTONIC, &b);
        if (b.tv_sec-a.tv_sec>15) { tw->stuck=1; _exit(96); }
    }
}

// ------------------------------------------------------------ the clock
static pthread_mutex_t L=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t C=PTHREAD_COND_INITIALIZER;
static long long now;                           // microseconds
#define NSL 64
static long long dl[NSL]; static int ndl;
static void sleep_end(void *p) { *(long long*)p=0; pthread_mutex_unlock(&L); }
static void vsleep(long long us)
{
    if (us<=0) { pthread_testcancel(); return; }
    pthread_mutex_lock(&L);
    int i; for (i=0; i<NSL && dl[i]; i++) {}
    if (i==NSL) _exit(97);
    long long t=dl[i]=now+us;
    pthread_cleanup_push(sleep_end, &dl[i]);
    while (now<t) pthread_cond_wait(&C, &L);
    pthread_cleanup_pop(1);
}
static void advance(long long target)
{
    while (1)
    {
        quiesce(0);
        pthread_mutex_lock(&L);
        long long m=target; int any=0;
        for (int i=0; i<NSL; i++) if (dl[i] && dl[i]<=m) m=dl[i], any=1;
        if (m>now) now=m;
        tw->vnow=now; tw->steps++;
        pthread_cond_broadcast(&C);
        pthread_mutex_unlock(&L);
        if (!any) break;
    }
    quiesce(0);
}
static void put(int fd, const char *b, int n) { while (n>0) { int r=write(fd, b, n); if (r<=0) return; b+=r; n-=r; } }
static void key(const char *b, int n)
{   // keys written to a terminal arrive later
    unsigned long long x, y; struct timespec t0, t1;
    if (!look(&x, 0)) x=0;
    put(tw->keyfd, b, n);
    if (!__real_isatty(tw->keyfd)) return;
    __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    do
    {
        if (!look(&y, 0) || y!=x) return;
        __real_clock_gettime(CLOCK_MONOTONIC, &t1);
    }
    while ((t1.tv_sec-t0.tv_sec)*1000000000ll+t1.tv_nsec-t0.tv_nsec<2000000000ll);
}
static void *scheduler(void *a)
{
    sched_tid=syscall(SYS_gettid);
    quiesce(0);
    released=1;
    if (tw->hold_loader) { pthread_mutex_lock(&L); pthread_cond_broadcast(&C); pthread_mutex_unlock(&L); quiesce(0); }
    long long t=now;
    for (int i=0; i<tw->nev; i++)
    {
        struct tw_event *e=&tw->ev[i];
        t+=e->dt;
        if (e->kind==TE_RACEKEY)
        {   // the key comes while someone wakes up
            advance(t-1);
            pthread_mutex_lock(&L); now=t; tw->vnow=now; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
            for (volatile int k=0; k<e->len>>8; k++) {}
            key(tw->blob+e->off, e->len&255); quiesce(0);
            continue;
        }
        advance(t);
        switch (e->kind)
        {
        case TE_KEY: key(tw->blob+e->off, e->len); quiesce(0); break;
        case TE_FEED: put(tw->feedfd, tw->blob+e->off, e->len); quiesce(0); break;
        case TE_FEEDEND: close(tw->feedfd); quiesce(0); break;
        case TE_EOF: close(tw->keyfd); break;
        case TE_CHECK: { struct stat s; fstat(1, &s); tw->cp[tw->ncp].t=now; tw->cp[tw->ncp].size=s.st_size; tw->ncp++; break; }
        }
    }
    while (1) pause();
    return 0;
}
void tw_start(void)
{
    virt=tw->virt;
    if (!virt) return;
    pthread_t th; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    hold=1;
    if (__real_pthread_create(&th, &at, scheduler, 0)) _exit(97);
    while (!sched_tid) sched_yield();
    hold=0;
}

// ------------------------------------------------------------ stand-ins
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (tw && tw->fixtime) { tv->tv_sec=tw->fixtime; tv->tv_usec=0; return 0; } if (!virt) return __real_gettimeofday(tv, tz); pthread_mutex_lock(&L); tv->tv_sec=BASE+now/1000000; tv->tv_usec=now%1000000; pthread_mutex_unlock(&L); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (tw && tw->fixtime && c==CLOCK_REALTIME) { ts->tv_sec=tw->fixtime; ts->tv_nsec=0; return 0; } if (!virt) return __real_clock_gettime(c, ts); pthread_mutex_lock(&L); ts->tv_sec=BASE+now/1000000; ts->tv_nsec=now%1000000*1000; pthread_mutex_unlock(&L); return 0; }
time_t __wrap_time(time_t *t) { if (!virt && !(tw && tw->fixtime)) return __real_time(t); time_t x=virt? BASE+now/1000000 : tw->fixtime; if (t) *t=x; return x; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { if (!virt || n || !tv) return __real_select(n, r, w, e, tv); vsleep(tv->tv_sec*1000000ll+tv->tv_usec); tv->tv_sec=tv->tv_usec=0; return 0; }
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) { if (!virt || n || !ts) return __real_pselect(n, r, w, e, ts, m); vsleep(ts->tv_sec*1000000ll+(ts->tv_nsec+999)/1000); return 0; }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { if (!virt || n || ms<0) return __real_poll(p, n, ms); vsleep(ms*1000ll); return 0; }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) { if (!virt) return __real_nanosleep(ts, rem); vsleep(ts->tv_sec*1000000ll+(ts->tv_nsec+999)/1000); if (rem) rem->tv_sec=rem->tv_nsec=0; return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) { if (!virt) return __real_clock_nanosleep(c, fl, ts, rem); long long us=ts->tv_sec*1000000ll+(ts->tv_nsec+999)/1000; if (fl&TIMER_ABSTIME) { pthread_mutex_lock(&L); us-=BASE*1000000+now; pthread_mutex_unlock(&L); } vsleep(us); return 0; }
int __wrap_usleep(useconds_t u) { if (!virt) return __real_usleep(u); vsleep(u); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!virt) return __real_sleep(s); vsleep(s*1000000ll); return 0; }
int __wrap_isatty(int fd) { if (virt && fd==1 && tw->sx) return 1; return __real_isatty(fd); }
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *p=va_arg(ap, void*); va_end(ap);
    if (virt && fd==1 && tw->sx && req==TIOCGWINSZ) { struct winsize *w=p; memset(w, 0, sizeof(*w)); w->ws_col=tw->sx; w->ws_row=tw->sy; return 0; }
    return __real_ioctl(fd, req, p);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *x)
{
    if (!virt || !tw->gate || sched_tid==syscall(SYS_gettid)) return __real_pthread_create(t, a, f, x);
    hold=1;
    int r=__real_pthread_create(t, a, f, x);
    if (!r) quiesce(syscall(SYS_gettid));
    hold=0;
    return r;
}
int __wrap_ttyrec_r_play(int fd, const char *f, const char *n, void *a, void *b, void *c, void *d)
{
    if (virt && tw->hold_loader)
    {
        pthread_mutex_lock(&L);
        while (!released) pthread_cond_wait(&C, &L);
        pthread_mutex_unlock(&L);
    }
    return __real_ttyrec_r_play(fd, f, n, a, b, c, d);
}

// ------------------------------------------------------------ signals
static int mychild(pid_t p)
{   // a child of this process?
    char fn[64], b[512]; snprintf(fn, 64, "/proc/%d/stat", p); int f=open(fn, O_RDONLY); if (f==-1) return 0;
    int n=read(f, b, sizeof(b)-1); close(f); if (n<=0) return 0;
    b[n]=0; char *q=strrchr(b, ')'); if (!q) return 0;
    char st; int pp; if (sscanf(q+1, " %c %d", &st, &pp)!=2) return 0;
    return pp==getpid();
}
int __wrap_kill(pid_t p, int s)
{
    if (!tw || !tw->record_kill) return __real_kill(p, s);
    int e=errno, ok= p>1 && mychild(p), i=__atomic_fetch_add(&tw->nk, 1, __ATOMIC_SEQ_CST);
    if (i<1000) { tw->k[i].pid=p; tw->k[i].sig=s; tw->k[i].ok=ok; }
    errno=e;
    if (ok) return __real_kill(p, s);
    errno=ESRCH; return -1;
}
int __wrap_killpg(pid_t p, int s)
{
    if (!tw || !tw->record_kill) return __real_killpg(p, s);
    // the group led by a child is the recorded program's
    return __wrap_kill(-p, s);
}
