// Stand-ins for clocks, sleeps and kill() used while a program runs in a child of the harness.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
enum { TE_KEY, TE_CHECK, TE_FEED, TE_FEEDEND, TE_EOF, TE_RACEKEY };
struct tw_event { long long dt; int kind, off, len; };
struct tw {                       // shared between the harness and the child
    int virt;                     // virtual clock
    long long fixtime;            // if set, it is always this time
    int gate;                     // new threads run until they wait, before their creator goes on
    int hold_loader;              // the recording starts loading only once everything waits
    int record_kill;              // kill() goes nowhere but to children, and is recorded
    int sx, sy;                   // size of standard output as a terminal, 0: none
    int keyfd, feedfd;
    int nev; struct tw_event ev[1000];
    char blob[1<<17];
    int ncp; struct { long long t, size; } cp[1000];
    int nk; struct { int pid, sig, ok; } k[1000];
    int stuck;                    // the program didn't come to rest
    long long vnow; long long steps;
};
extern struct tw *tw;
void tw_start(void);              // in the child, before the program
#ifdef __cplusplus
}
#endif
