// The program that gets recorded: does what the harness asks for over an abstract unix socket.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>

static int so;
static void say(const void *b, int n) { while (send(so, b, n, MSG_NOSIGNAL)==-1 && errno==EINTR) {} }
static void size_to(unsigned char *b) { struct winsize w; memset(&w, 0, sizeof w); ioctl(0, TIOCGWINSZ, &w); b[0]=w.ws_row>>8; b[1]=w.ws_row; b[2]=w.ws_col>>8; b[3]=w.ws_col; }
static void sig(int s) { int e=errno; unsigned char b[6]={'S', s}; size_to(b+2); say(b, 6); errno=e; }

int main(int argc, char **argv)
{
    static char buf[70000];
    static const int sigs[]={SIGINT, SIGHUP, SIGQUIT, SIGTERM, SIGTSTP, SIGWINCH, SIGCONT};
    struct sockaddr_un a; struct termios t;
    if (argc<2) return 3;
    alarm(120); prctl(PR_SET_PDEATHSIG, SIGKILL);
    memset(&a, 0, sizeof a); a.sun_family=AF_UNIX; strcpy(a.sun_path+1, argv[1]);
    if ((so=socket(AF_UNIX, SOCK_SEQPACKET|SOCK_CLOEXEC, 0))==-1 || connect(so, (void*)&a, 3+strlen(argv[1]))) return 3;
    for (unsigned i=0; i<sizeof sigs/sizeof *sigs; i++) { struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler=sig; s.sa_flags=SA_RESTART; sigfillset(&s.sa_mask); sigaction(sigs[i], &s, 0); }
    if (argc<3 && !tcgetattr(0, &t)) { cfmakeraw(&t); tcsetattr(0, TCSANOW, &t); }
    unsigned char h[14]={'H'}; pid_t p=getpid(); memcpy(h+1, &p, 4); size_to(h+5); h[10]=isatty(0)&&isatty(1)&&isatty(2); h[11]=getsid(0)==getpid(); h[12]=tcgetpgrp(0)==getpgrp();
    say(h, 14);
    while (1)
    {
        int n=recv(so, buf, sizeof buf, 0);
        if (n==-1 && errno==EINTR) continue;
        if (n<=0) return 9;
        switch (buf[0])
        {
        case 'W': { int p=1, bad=0; while (p<n) { int r=write(1, buf+p, n-p); if (r<=0) { if (r==-1 && errno==EINTR) continue; bad=1; break; } p+=r; } char c=bad?'e':'w'; say(&c, 1); break; }
        case 'R': { int want; memcpy(&want, buf+1, 4); buf[0]='r'; int p=0; while (p<want) { int r=read(0, buf+1, want-p>60000? 60000 : want-p); if (r<=0) { if (r==-1 && errno==EINTR) continue; break; } say(buf, r+1); p+=r; } char c='d'; say(&c, 1); break; }
        case 'Z': { unsigned char z[5]={'Z'}; size_to(z+1); say(z, 5); break; }
        case 'B': if (!fork()) { for (unsigned i=0; i<sizeof sigs/sizeof *sigs; i++) signal(sigs[i], SIG_IGN); setsid(); close(0); close(1); close(2); struct pollfd p={so, 0, 0}; poll(&p, 1, 60000); _exit(0); } break; // a daemon
        case 'X': _exit((unsigned char)buf[1]);
        }
    }
}
