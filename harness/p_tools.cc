// The programs: U01..U05. Each run is a fork of the harness that calls the program's main().
#include "rec.h"
#include "vt.h"
#include "gen_vt.h"
#include "wrap.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <pty.h>
#include <termios.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <algorithm>
#include <map>
using std::string; using std::vector;
extern "C" { int termcat_main(int,char**); int termtime_main(int,char**); int termrec_main(int,char**); int termplay_main(int,char**); extern char **environ; }
typedef int (*Main)(int,char**);

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Fds { int in=-1,out=-1,err=-1; };
// starts a program; the descriptors become its standard ones
static pid_t start(Main m,const vector<string> &args,const string &dir,const Fds &fd,const vector<int> &keep,std::function<void()> pre) {
    wait_threads(); fflush(0);   // a fork takes along what the library counts
    vector<string> a=args; vector<char*> av; for (auto &x:a) av.push_back(&x[0]); av.push_back(0);
    pid_t me=getpid(),p=fork(); CHECK(p!=-1,"harness: fork failed");
    if (p) return p;
    prctl(PR_SET_PDEATHSIG,SIGKILL); if (getppid()!=me) _exit(77);
    dup2(fd.in,0); dup2(fd.out,1); dup2(fd.err,2);
    int lo=3; vector<int> k=keep; std::sort(k.begin(),k.end()); for (int x:k) { if (x>lo) close_range(lo,x-1,0); lo=x+1; } close_range(lo,~0u,0);
    if (chdir(dir.c_str())) _exit(77);
    if (pre) pre();
    exit(m((int)a.size(),av.data()));
}
static int finish(pid_t p,double sec,const char *what) { int st; double t=mono()+sec; while (1) { pid_t q=waitpid(p,&st,WNOHANG); if (q==p) return st; if (q==-1&&errno!=EINTR) _exit(77); if (mono()>t) { kill(p,SIGKILL); waitpid(p,&st,0); failf("%s doesn't end",what); } usleep(200); } }
static int newfile(const string &n) { int f=open(n.c_str(),O_RDWR|O_CREAT|O_TRUNC|O_CLOEXEC,0600); if (f==-1) _exit(77); return f; }
struct Run { int code; string out,err; };
static int status(int st,const char *what,const string &err) { CHECK(!WIFSIGNALED(st),"%s was killed by signal %d: %s",what,WTERMSIG(st),printable(err,800).c_str()); int c=WEXITSTATUS(st); CHECK(c!=99,"%s: %s",what,err.substr(0,3000).c_str()); if (c==77||c==97) { fprintf(stderr,"harness: trouble in a child: %s\n",err.c_str()); _exit(77); } return c; }
static Run run(Main m,const char *what,const vector<string> &args,const string &dir,const string *in=0,bool pipe_ok=false) {
    string fo=tmpname(".stdout"),fe=tmpname(".stderr"); Fds f; f.out=newfile(fo); f.err=newfile(fe); f.in=in? mem_fd(*in) : open("/dev/null",O_RDONLY);
    pid_t p=start(m,args,dir,f,{},0); close(f.in); close(f.out); close(f.err);
    int st=finish(p,20,what); Run r; r.out=get_file(fo); r.err=get_file(fe); unlink(fo.c_str()); unlink(fe.c_str()); r.code= pipe_ok&&WIFSIGNALED(st)&&WTERMSIG(st)==SIGPIPE? 128+SIGPIPE : status(st,what,r.err); return r;
}
static string newdir() { string d=tmpname(".d"); if (mkdir(d.c_str(),0700)) _exit(77); return d; }
static void rmdir_all(const string &d) { DIR *x=opendir(d.c_str()); if (!x) return; while (struct dirent *e=readdir(x)) if (strcmp(e->d_name,".")&&strcmp(e->d_name,"..")) unlink((d+"/"+e->d_name).c_str()); closedir(x); rmdir(d.c_str()); }
struct Dir { string d; Dir():d(newdir()) {} ~Dir() { rmdir_all(d); } };
static bool text_name_ok(const string &n) { return !n.empty()&&n[0]!='-'; }

// ------------------------------------------------------------------ recordings on disk
static const char *upper(Src &s,string &e) { if (s.flip(15)) for (auto &c:e) c=toupper(c); return e.c_str(); }
struct Input { string name,what,data; Trace tr; bool live=false; };
// a recording in some format, under some name; times stay small enough for the written formats
static Input gen_input(Src &s,const string &dir,int n,bool text,i64 maxt) {
    Input in; int k=s.weighted({5,3,3,2,2,1,1}); string ext; i64 t0= s.flip()?0:(i64)s.num(2000000000)*1000000+s.draw(1000000);
    vector<Frame> f=gen_frames(s,text||k==2||k==3,3,25,text?0:4,t0); i64 cut=f.empty()?0:f[0].t; for (auto &x:f) if (x.t-cut>maxt) x.t=cut+maxt;
    if (!f.empty()&&f[0].d.empty()) f[0].d="#";   // recognisable
    switch (k) {
    case 0: in.data=enc_ttyrec(f); ext=s.flip(80)?".ttyrec":""; in.what="ttyrec"; break;
    case 1: in.data=enc_nh(f,t0); ext=".nh"; in.what="nh_recorder"; break;
    case 2: case 3: { CastStyle c; c.version=k==2?2:1; c.sx=2+(int)s.num(200,{78}); c.sy=1+(int)s.num(60,{23}); c.ts=t0/1000000; c.fancy=s.draw(2); in.data=enc_cast(s,c,f,t0); ext=s.flip(80)?".cast":""; in.what=k==2?"asciicast":"asciicast-v1"; break; }
    case 4: for (auto &x:f) in.data+=x.d; ext=".txt"; in.what="ansi"; break;
    case 5: { int m=1+(int)s.draw(3); for (int i=0;i<m;i++) { DosFrame d=gen_dos(s); d.delay%=(u32)std::min<i64>(maxt/20000,1000000); in.data+=enc_dos(d); } ext=".dm2"; in.what="dosrecorder"; break; }
    case 6: in.data="hello, world"; for (auto &x:f) in.data+=x.d; ext=""; in.what="unknown"; break; }
    if (ext.empty()) { bool a,b; is_content(in.data,&a,&b); if (!a&&!b) in.live=true,in.what+=" (as it arrives)"; }
    ext=upper(s,ext); string raw=in.data; if (s.flip(30)) { int c=(int)s.draw(4); in.data=compress_ref(c,raw,(int)s.draw(9)); string e=comp_ext[c]; ext+=upper(s,e); }
    static const char *base[]={"a","x y","rec.","100%s%n","naïve","a:b","cast"}; in.name=string(base[s.weighted({6,1,1,1,1,1,1})])+std::to_string(n)+ext;
    put_file(dir+"/"+in.name,in.data);
    in.tr=play(-1,0,(dir+"/"+in.name).c_str()); CHECK(in.tr.ret,"a readable file can't be played");
    return in;
}
struct P3 { int step; string d; };
// an incomplete character at the end
static size_t partial8(const string &d) { size_t n=d.size(),k=0; while (k<3&&k<n&&((u8)d[n-1-k]&0xc0)==0x80) k++; if (k>=n) return 0; u8 c=d[n-1-k]; size_t need= c>=0xf0?4: c>=0xe0?3: c>=0xc0?2:1; return need>k+1? k+1 : 0; }

// ------------------------------------------------------------------ U01
static bool known(const char *key) { const char *k=getenv("VERIF_KNOWN"); return k&&strstr(k,key); }
static void u01(Src &s) {
    Dir D; int dk=s.weighted({5,3,3,2,2,2}); static const char *dext[]={".ttyrec",".nh",".cast",".cast-v1",".txt",""}; bool cast=dk==2||dk==3; bool text=cast||s.flip(30);
    i64 maxt= dk==1? 1000000ll*86400*2 : 1000000ll*86400*3000;
    vector<Input> pool; vector<string> args={"termcat"}; vector<int> order; int n=0; string in_stdin; bool use_stdin=false;
    for (List l(s,2,8);l.next()||n==0;) { n++; int what= s.weighted({8,2,pool.empty()?0:1,1});
        if (what==1) { args.push_back("missing"+std::to_string(n)+(s.flip()?".ttyrec":".nh.gz")); order.push_back(-1); s.note("input %s: missing",args.back().c_str()); }
        else if (what==2) { int i=(int)s.draw(pool.size()); args.push_back(pool[i].name); order.push_back(pool[i].name=="missing0"?-1:i); s.note("input %s again",args.back().c_str()); }
        else { Input in=gen_input(s,D.d,n,text,maxt); s.note("input %s: %s, %s",in.name.c_str(),in.what.c_str(),show(norm(in.tr)).c_str());
            bool a,b; is_content(in.data,&a,&b);
            if (what==3&&!use_stdin&&(a||b)&&(in.what[0]=='t'||in.what[1]=='s')) { use_stdin=true; in_stdin=in.data; in.name="-"; in.tr=play(mem_fd(in.data),0,"-"); s.note("(as standard input)"); }
            args.push_back(in.name); order.push_back((int)pool.size()); pool.push_back(in); if (use_stdin&&in.name=="-") pool.back().name="missing0"; } }
    string dest="out"; string ext=dext[dk]; if (dk==5&&s.flip(50)) { dest="-"; } else dest+=upper(s,ext); int comp=-1; if (dest!="-"&&s.flip(35)) { comp=(int)s.draw(4); string e=comp_ext[comp]; dest+=upper(s,e); }
    int fault= s.weighted({20,1,dest!="-"?1:0}); string dpath=D.d+"/"+dest;
    if (fault==1&&dest!="-") { dest="nodir/"+dest; } else if (fault==1) fault=0;
    if (fault==2&&symlink("/dev/full",dpath.c_str())) _exit(77);
    args.push_back(dest); s.note("destination %s%s",dest.c_str(),fault==2?" (a full device)":"");
    // a stdin given twice is at its end
    Run r=run(termcat_main,"termcat",args,D.d,&in_stdin,fault==2&&comp>=0); if (r.code==128+SIGPIPE) { s.label("full device"); return; }
    bool any=false; for (int i:order) if (i>=0) any=true;
    // messages
    if (fault==1) { CHECK(r.code!=0,"termcat exits with 0 though the output couldn't be opened"); s.label("unwritable output"); return; }
    size_t pos=0; for (size_t i=0;i<order.size();i++) if (order[i]<0) { string w=args[1+i]+": "; size_t nl=r.err.find('\n',pos); CHECK(nl!=string::npos&&!r.err.compare(pos,w.size(),w),"no message about %s: %s",args[1+i].c_str(),printable(r.err).c_str()); pos=nl+1; }
    CHECK(pos==r.err.size(),"unexpected messages: %s",printable(r.err.substr(pos)).c_str());
    // what all inputs together play
    vector<Frame> f; i64 t=0; bool live=false; bool seen_stdin=false;
    for (size_t q=0;q<order.size();q++) { int i=order[q]; if (i<0) continue; if (args[1+q]=="-") { seen_stdin=true; } if (pool[i].live) live=true; for (auto &e:pool[i].tr.ev) { if (e.k==1) t+=e.s*1000000+e.us; else if (e.k==2) f.push_back({t,e.d}); } }
    (void)seen_stdin;
    string all; for (auto &x:f) all+=x.d;
    if (fault==2) { if (!all.empty()&&r.code==0&&comp>=0&&known("full-compressed")) { s.label("known: full-compressed"); return; } if (!all.empty()) CHECK(r.code!=0,"termcat exits with 0 though the device is full"); s.label("full device"); return; }
    CHECK((r.code==0)==any,"termcat exits with %d though %s could be read",r.code,any?"something":"nothing");
    string got=dest=="-"? r.out : get_file(dpath); if (comp>=0) { bool ok; got=decompress_ref(comp,got,&ok); CHECK(ok,"the compressed output is damaged"); }
    if (dest!="-") CHECK(r.out.empty(),"unexpected output: %s",printable(r.out).c_str());
    if (dk>=4) { CHECK(got==all,"the output has %zu bytes, different from the %zu of the inputs",got.size(),all.size()); s.label("plain output"); s.nontrivial(order.size()>=2&&any); return; }
    static const char *fmt[]={"ttyrec","nh_recorder","asciicast","asciicast"}; Trace tr=play(mem_fd(got),fmt[dk],0); CHECK(tr.ret,"the output can't be played"); Norm g=norm(tr);
    Norm w; i64 tol=0; auto add=[&](i64 t,const string &d) { if (d.empty()) return; if (w.seg.empty()||w.seg.back().first!=t) w.seg.push_back({t,d}); else w.seg.back().second+=d; w.end=t; };
    if (cast) {
        int sx=80,sy=25; if (!f.empty()) { Model m(80,25,true); m.feed(f[0].d); sx=m.sx; sy=m.sy; } char b[60]; snprintf(b,60,"\e%%G\e[8;%d;%dt",sy,sx); add(0,b); string carry;
        for (size_t i=0;i<f.size();i++) { string d=f[i].d; if (i==0) { int a,c,k=0; if (sscanf(d.c_str(),"\e%%G\e[8;%d;%d%n",&a,&c,&k)>=2&&k&&(size_t)k<d.size()&&d[k]=='t') d=d.substr(k+1); if (d.empty()) continue; } d=carry+d; size_t p=partial8(d); carry=d.substr(d.size()-p); d.resize(d.size()-p); add(f[i].t,d); }
        w.started=g.started; w.start=g.start; CHECK(g.start==0,"the recording starts at %lld",(long long)g.start);
    } else {
        if (dk==1) for (auto &x:f) { string d; for (char c:x.d) if (c) d+=c; x.d=d; }
        i64 first=f.empty()?0:f[0].t; for (auto &x:f) add(x.t-first,x.d); w.started=g.started; w.start=g.start;
        if (!f.empty()) w.end=f.back().t-first; if (dk==1) tol=10000; if (w.seg.empty()&&g.seg.empty()) w.end=g.end;
        if (!g.seg.empty()) { i64 o=g.seg[0].first-(w.seg.empty()?0:w.seg[0].first); if (dk==1&&o>0) { for (auto &x:g.seg) x.first-=o; g.end-=o; } } // time before the first frame may or may not be kept
    }
    string e=normdiff(g,w,!live,tol); CHECK(e.empty(),"the output plays differently: %s",e.c_str());
    s.label(fmt[dk]); if (comp>=0) s.label("compressed"); if (use_stdin) s.label("standard input"); s.nontrivial(order.size()>=2&&any&&f.size()>=2);
}
static RegProp pu01({"U01",u01,20000,300000,25,280,false,30,"lists of generated inputs of all formats and compressions, missing ones included, joined by termcat into a file or standard output, which is decoded and compared with the inputs' frames; non-trivial: at least two inputs and two frames",0});

// ------------------------------------------------------------------ U02
static void u02(Src &s) {
    Dir D; vector<string> args={"termtime"}; string want,werr; int n=0,good=0,tot=0; string in_stdin; bool used=false;
    for (List l(s,3,10);l.next()||n==0;) { n++;
        if (s.flip(15)) { args.push_back("missing"+std::to_string(n)+(s.flip()?".ttyrec":".nh.gz")); werr+=args.back()+": No such file or directory\n"; s.note("%s: missing",args.back().c_str()); continue; }
        Input in=gen_input(s,D.d,n,s.flip(40),1000000ll*86400*3000); bool a,b; is_content(in.data,&a,&b);
        if (in.live) { unlink((D.d+"/"+in.name).c_str()); continue; }  // has no length of its own
        if (s.flip(8)) { vector<Frame> f; i64 x=1000000000ll*1000000; for (List q(s,2,6);q.next();) { i64 y=(i64)s.num(3000000000ull,{1,500000,999999,1000000,1000001}); x=s.flip(40)?std::max<i64>(0,x-y):x+y; f.push_back({x,"x"}); } in.data=enc_ttyrec(f); in.what="ttyrec"; in.name="back"+std::to_string(n)+".ttyrec"; put_file(D.d+"/"+in.name,in.data); in.tr=play(mem_fd(in.data),"ttyrec",0); }
        if (!used&&(a||b)&&(in.what[0]=='t'||in.what[1]=='s')&&s.flip(10)) { used=true; in_stdin=in.data; in.name="-"; in.tr=play(mem_fd(in.data),0,"-"); }
        args.push_back(in.name); i64 t=0; for (auto &e:in.tr.ev) if (e.k==1) t+=e.s*1000000+e.us;
        char b1[40],b2[60]; i64 ab=t<0?-t:t; snprintf(b1,40,"%s%lld",t<0?"-":"",(long long)(ab/1000000)); snprintf(b2,60,"%7s.%06lld\t",b1,(long long)(ab%1000000)); if (t<0) s.label("the clock goes back"); want+=b2+in.name+"\n"; good++; if (t) tot++; s.note("%s: %s, %lld us",in.name.c_str(),in.what.c_str(),(long long)t); }
    if (args.size()==1) return;
    Run r=run(termtime_main,"termtime",args,D.d,&in_stdin);
    CHECK(r.out==want,"termtime prints %s instead of %s",printable(r.out,800).c_str(),printable(want,800).c_str());
    size_t p=0; for (size_t i=1;i<args.size();i++) if (!args[i].compare(0,7,"missing")) { string w=args[i]+": "; size_t nl=r.err.find('\n',p); CHECK(nl!=string::npos&&!r.err.compare(p,w.size(),w),"no message about %s: %s",args[i].c_str(),printable(r.err).c_str()); p=nl+1; }
    CHECK(p==r.err.size(),"unexpected messages: %s",printable(r.err.substr(p)).c_str());
    CHECK((r.code==0)==(good>0),"termtime exits with %d though %d files were readable",r.code,good);
    s.label("files",args.size()-1); s.nontrivial(tot>=1&&args.size()>=3);
}
static RegProp pu02({"U02",u02,25000,300000,20,280,false,30,"lists of generated recordings of all formats and compressions, missing ones included, measured by termtime and compared with the sum of the generated delays; non-trivial: at least two names and one recording that takes time",0});

// ------------------------------------------------------------------ U05
struct PFrame { i64 t; string d; };
struct Player { // what termplay does, by the documentation
    const vector<PFrame> *f; size_t n=0; bool all=false, play=false, quit=false, amb=false, pend=false; int idx=-1, speed=1000; double pos=0, tol=0; i64 w=0; int shown=0, slid=0;
    void blur() { if (speed!=1000) tol+=2*(speed/1000.0)+2; }
    int at(double p) const { int k=-1; for (size_t i=0;i<n&&(*f)[i].t<=p;i++) k=(int)i; return k; }
    bool near(double p) const { if (tol==0) return false; for (size_t i=0;i<n;i++) { double d=(*f)[i].t-p; if (d<0) d=-d; if (d<=tol+speed/1000.0+2) return true; } return false; }
    void to(i64 W) { // time passes
        while (play&&idx+1<(int)n) { double d=((*f)[idx+1].t-pos)*1000.0/speed; // microseconds to go
            if (d<0) { if (d<-900000&&d>-1100000) amb=true; if (d<-1000000) { pos=(*f)[idx+1].t; blur(); slid++; } idx++; shown++; continue; }
            if (w+d>W) break;
            pos+=d*speed/1000.0; w+=(i64)d; if (d!=(i64)d) { pos-=(d-(i64)d)*speed/1000.0; if (tol==0) tol=1+speed/1000.0; idx++; shown++; continue; } idx++; shown++; }
        if (play) pos+=(W-w)*(speed/1000.0);
        w=W; }
    void settle() { if (play&&near(pos)) amb=true; }
    void stop() { if (!play) return; play=false; if (pend) amb=true; settle_now(); blur(); if (all&&idx+1>=(int)n) pos=n&&idx>=0?(double)(*f)[idx].t:0; }
    void settle_now() { if (near(pos)) amb=true; }
    void start() { if (play) return; play=true; blur(); if (idx+1<(int)n&&(*f)[idx+1].t<=pos+tol) pend=true; to(w); } // frames due may or may not appear before a key pressed at once
    void seek(double p) { pos=p; if (near(pos)) amb=true; idx=at(pos); if (all&&idx+1>=(int)n) pos=idx>=0?(double)(*f)[idx].t:0; }
    void key(int a,int v) {
        bool old=play;
        switch (a) {
        case 0: quit=true; break;
        case 1: if (play) stop(); else start(); break;
        case 2: stop(); seek(pos+v*1000000.0<0?0:pos+v*1000000.0); if (old) start(); break;
        case 3: stop(); pos=0; idx=at(0); break;
        case 4: stop(); if (v==0) speed=1000; else if (v<0) { if (!(speed/=2)) speed=1; } else if ((speed*=2)>1000000) speed=1000000; if (old) start(); break;
        case 5: stop(); if (idx+1<(int)n) { idx++; pos=(*f)[idx].t; shown++; } break;
        case 6: break; }
    }
};
struct Key { const char *k; int len,a,v; };
static const Key keys[]={{"q",1,0,0},{"Q",1,0,0},{" ",1,1,0},
    {"\033[D",3,2,-10},{"\033OD",3,2,-10},{"\033Ot",3,2,-10},{"\033[C",3,2,10},{"\033OC",3,2,10},{"\033Ov",3,2,10},
    {"\033[B",3,2,-60},{"\033OB",3,2,-60},{"\033Or",3,2,-60},{"\033[A",3,2,60},{"\033OA",3,2,60},{"\033Ox",3,2,60},
    {"\033[6~",4,2,-600},{"\033Os",3,2,-600},{"\033[5~",4,2,600},{"\033Oy",3,2,600},
    {"r",1,3,0},{"R",1,3,0},{"1",1,4,0},{"s",1,4,-1},{"S",1,4,-1},{"-",1,4,-1},{"f",1,4,1},{"F",1,4,1},{"+",1,4,1},{"\n",1,5,0},{"\r",1,5,0},{"\033OM",3,5,0},
    {"x",1,6,0},{"2",1,6,0},{"\0",1,6,0},{"\t",1,6,0},{"\033[Z",3,6,0},{"\033Oz",3,6,0},{"\033x",2,6,0},{"\033[11~",5,6,0},{"\033[[A",4,6,0},{"\033[OC",4,6,0},{"\033[7~",4,6,0},{"\033\033",2,6,0},{"D",1,6,0},{"\xff",1,6,0},{"\033[15~",5,6,0},{"=",1,6,0},{"p",1,6,0}};
static const int nkeys=sizeof keys/sizeof *keys;
static const Key &gen_key(Src &s,bool quit) { // by what they do
    int a=s.weighted({quit?1:0,6,8,2,4,4,3}); vector<int> c; for (int i=0;i<nkeys;i++) if (keys[i].a==a) c.push_back(i); if (a==2&&s.flip(50)) { vector<int> d; for (int i:c) if (keys[i].v==10||keys[i].v==-10) d.push_back(i); c=d; } return keys[c[s.draw(c.size())]]; }
static string show_key(const Key &k) { static const char *n[]={"quit","pause/resume","seek","rewind","speed","step","unknown"}; char b[60]; snprintf(b,60,"%s (%s%+d)",printable(string(k.k,k.len)).c_str(),n[k.a],k.v); return b; }

static void u05(Src &s) {
    // the recording
    static const Profile prof=profile({{K_TEXT,8},{K_WIDE,3},{K_COMB,2},{K_CHAR,2},{K_CTRL,3},{K_CURSOR,6},{K_ERASE,3},{K_INSDEL,2},{K_SCROLL,4},{K_SGR,4},{K_OSC,1},{K_MODE,1},{K_CHARSET,1},{K_SAVE,1},{K_RESET,1},{K_TRUNC,1}});
    int mode=s.weighted({6,2,3,3}); // 0: loaded before playing; 1: loading starts late; 2: a growing ttyrec; 3: live
    int dstyle=s.weighted({4,3,2,2}); Profile p=swarm(s,prof); vector<Frame> fr; i64 t=s.flip(60)?0:s.num(8000000,{0,1,5000000,3000000}); bool big=s.rare(12)&&mode<2;
    for (List l(s,mode<2?14:9,mode<2?220:40);l.next();) {
        if (!fr.empty()) switch (dstyle) { case 0: t+=s.num(6000000,{0,1,1000000,4999999,5000000,5000001}); break; case 1: t+=5000000; break; case 2: t+=(i64)s.draw(20)*1000000; break; default: if (!s.flip(30)) t+=s.num(300000); }
        string d; if (s.flip(75)) { char b[60]; snprintf(b,60,"\033[%d;%dH#%d",1+(int)s.draw(24),1+(int)s.draw(70),(int)fr.size()); d=b; } if (s.flip(60)) d+=gen_op(s,p,GenCtx{80,25}); if (big&&s.flip(15)) { string x=s.blob(50); for (auto &c:x) c=' '+(u8)c%95; while (x.size()<30000) x+=x+"\r\n"; d+=x; }
        if (mode>=2&&d.size()>1500) d.resize(1500); if (d.empty()) d=".";
        fr.push_back({t,d}); }
    Dir D; string name; vector<string> args={"termplay"}; vector<PFrame> pf; int feedr=-1,feedw=-1;
    int fmt=mode>=2? 0 : s.weighted({6,2,2}); bool live=mode==3;
    auto addframe=[&](i64 wait,const string &d) { i64 last=pf.empty()?0:pf.back().t; if (wait>=5000000||wait<0) wait=5000000; pf.push_back({last+wait,d}); };
    static const char *speeds[]={"1","2","0.5","0.25","4","1000","0.001","1.5","10","0.125"}; int speed=1000;
    if (mode<2) {
        vector<Frame> q=fr; string data,ext; i64 base=s.flip()?0:1234567890ll*1000000; for (auto &x:q) x.t+=base;
        if (fmt==0) { vector<Frame> z=q; if (!z.empty()&&z[0].t>base) z.insert(z.begin(),{base,""}); data=enc_ttyrec(z); ext=".ttyrec"; } else if (fmt==1) { data=enc_nh(q,base); ext=".nh"; } else { for (auto &x:q) { string y; for (u8 c:x.d) if (c<128) y+=(char)c; x.d=y; } CastStyle c; c.sx=80; c.sy=25; c.ts=base/1000000; data=enc_cast(s,c,q,base); ext=".cast"; }
        if (fmt==0&&s.flip(20)) { bool a,b; is_content(data,&a,&b); if (a) ext=""; }
        if (s.flip(20)) { int c=(int)s.draw(4); data=compress_ref(c,data,3); ext+=comp_ext[c]; }
        name="a"+ext; put_file(D.d+"/"+name,data); if (s.flip(15)) { args.push_back("-f"); args.push_back(fmt==0?"ttyrec":fmt==1?"nh_recorder":"asciicast"); }
        Trace tr=play(-1,fmt==0?"ttyrec":0,(D.d+"/"+name).c_str()); CHECK(tr.ret,"can't play");
        i64 wt=0; for (auto &e:tr.ev) if (e.k==1) wt+=e.s*1000000+e.us; else if (e.k==2) addframe(wt,e.d),wt=0;
    } else {
        int pp[2]; if (pipe2(pp,O_CLOEXEC)) _exit(77); feedr=pp[0]; feedw=pp[1]; name="/proc/self/fd/"+std::to_string(feedr); args.push_back("-f"); args.push_back(live?"live":"ttyrec"); }
    if (s.flip(25)) { const char *x=speeds[s.draw(10)]; args.push_back(s.flip()?"-s":"--speed"); args.push_back(x); speed=(int)(strtof(x,0)*1000); }
    args.push_back(name);
    if (s.rare(60)) { static const char *bad[]={"0","-1","1001","x","","1x","nan"}; vector<string> a={"termplay","-s",bad[s.draw(7)],name}; s.note("invalid speed %s",a[2].c_str()); string none; Run r=run(termplay_main,"termplay",a,D.d,&none); if (feedr!=-1) close(feedr),close(feedw); CHECK(r.code!=0,"an invalid speed is accepted"); CHECK(r.out.empty()&&!r.err.empty(),"an invalid speed: output %s, messages %s",printable(r.out).c_str(),printable(r.err).c_str()); s.label("invalid option"); return; }
    if (s.rare(80)) { vector<string> a={"termplay","missing"}; string none; Run r=run(termplay_main,"termplay",a,D.d,&none); if (feedr!=-1) close(feedr),close(feedw); CHECK(r.code!=0&&!r.err.empty()&&r.out.empty(),"a missing file: exit %d, output %s",r.code,printable(r.out).c_str()); s.label("missing file"); return; }
    s.note("%s, %zu frames, speed %d",mode==0?"loaded before playing":mode==1?"loaded while playing":live?"live":"a growing ttyrec",mode<2?pf.size():fr.size(),speed);
    { int k=0; if (mode<2) for (auto &x:pf) { if (k++>30) break; s.note("frame %d at %lld.%06lld: %s",k-1,(long long)(x.t/1000000),(long long)(x.t%1000000),printable(x.d,80).c_str()); } }
    // the session
    static struct tw *sh; if (!sh) { sh=(struct tw*)mmap(0,sizeof *sh,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (sh==MAP_FAILED) _exit(77); }
    memset(sh,0,offsetof(struct tw,ev)); sh->ncp=sh->nk=sh->stuck=0; sh->vnow=sh->steps=0; sh->virt=1; sh->gate=mode==0; sh->hold_loader=mode>0;
    if (s.flip(30)) { sh->sx=2+(int)s.num(150,{78,79,80}); sh->sy=1+(int)s.num(50,{24,23,25}); if (fmt==2) { if (sh->sx<80) sh->sx=80; if (sh->sy<25) sh->sy=25; } } int sx=sh->sx?sh->sx:80, sy=sh->sy?sh->sy:25; if (sh->sx) s.note("a terminal of %dx%d",sx,sy);
    Player m; m.f=&pf; m.speed=speed; if (speed!=1000) m.tol=speed/1000.0+1;
    if (mode<2) { m.n=pf.size(); m.all=true; } if (mode==0&&m.n) m.idx=0;
    int nb=0; struct Want { int idx; string what; }; vector<Want> want; i64 wprev=0; size_t fed=0; i64 lastfeed=0,loaderlast=0; bool ended=mode<2, dead=false; vector<string> log; int nkey=0, moved=0;
    auto emit=[&](int kind,i64 at,const string &b,int spin=0) { tw_event &e=sh->ev[sh->nev++]; e.dt=at-wprev; wprev=at; e.kind=kind; e.off=nb; e.len=(int)b.size()|(spin<<8); if (kind!=TE_RACEKEY) e.len=(int)b.size(); memcpy(sh->blob+nb,b.data(),b.size()); nb+=b.size(); };
    m.start(); m.pend=false; m.settle(); if (m.amb) return;
    auto check=[&](const char *what) { emit(TE_CHECK,m.w,""); char b[80]; snprintf(b,80,"%lld.%06lld s, after %s",(long long)(m.w/1000000),(long long)(m.w%1000000),what); want.push_back({m.idx,b}); };
    check("the start"); bool tty=s.flip(30);
    for (List l(s,14,120);l.next()&&!dead&&sh->nev<900&&nb<100000;) {
        int what= s.weighted({10,4,ended?0:7,ended?0:1,1}); i64 dt; Player old=m;
        switch (s.weighted({3,3,4,2,3})) { case 0: dt=0; break; case 1: dt=s.num(3000000); break; case 2: dt=(i64)s.draw(30)*500000; break; case 3: dt=s.num(60000000); break;
            default: { dt=0; if (m.play&&m.idx+1<(int)m.n) { double d=(pf[m.idx+1].t-m.pos)*1000.0/m.speed; if (d>0&&d<1e9) dt=(i64)d+(i64)s.draw(3)-1; if (dt<0) dt=0; } } } // just when a frame is due
        i64 at=m.w+dt;
        if (what==4) { // a seek exactly when a frame is due
            if (!(!tty&&m.play&&m.tol==0&&m.speed==1000&&m.idx+1<(int)m.n)) continue; i64 due=m.w+(i64)(pf[m.idx+1].t-m.pos); if (due<=m.w) continue;
            vector<int> c; for (int i=0;i<nkeys;i++) if (keys[i].a==2) c.push_back(i); const Key &k=keys[c[s.draw(c.size())]]; int spin=(int)s.num(20000);
            m.to(due); m.key(k.a,k.v); m.pend=false; m.settle(); s.note("at %lld us, together with a frame: %s",(long long)due,show_key(k).c_str()); emit(TE_RACEKEY,due,string(k.k,k.len),spin); nkey++; moved++; s.label("key racing with a frame"); if (m.amb) { dead=true; break; } check(show_key(k).c_str()); continue; }
        m.to(at); m.settle(); if (m.amb) { m=old; continue; }
        if (what==1) { s.note("at %lld us: look",(long long)at); check("waiting"); continue; }
        if (what==2) { // more of the recording
            if (fed>=fr.size()) continue; string d=fr[fed].d; string b=d; i64 wait;
            if (live) wait=at-lastfeed; else { vector<Frame> one={fr[fed]}; b=enc_ttyrec(one); wait=fed? fr[fed].t-fr[fed-1].t : 0; }
            Player o2=m; auto pf2=pf; addframe(wait,d); m.n=pf.size(); m.to(at); m.settle(); if (m.amb) { pf=pf2; m=old; continue; } (void)o2;
            lastfeed=at; emit(TE_FEED,at,b); fed++; s.note("at %lld us: frame %zu arrives, time %lld us: %s",(long long)at,fed-1,(long long)pf.back().t,printable(d,80).c_str()); check("more data"); continue; }
        if (what==3) { emit(TE_FEEDEND,at,""); ended=true; m.all=true; s.note("at %lld us: the recording ends",(long long)at); check("the recording's end"); continue; }
        string ks; string desc; int nk=s.flip(80)?1:1+(int)s.draw(4); Player o3=m; for (int i=0;i<nk;i++) { const Key &k=gen_key(s,false); m.key(k.a,k.v); ks.append(k.k,k.len); desc+=(i?", ":"")+show_key(k); if (k.a>=1&&k.a<=5) moved++; }
        m.pend=false; m.settle(); if (m.amb) { m=old; continue; } (void)o3;
        nkey+=nk; emit(TE_KEY,at,ks); s.note("at %lld us: %s",(long long)at,desc.c_str()); check(desc.c_str());
    }
    (void)loaderlast;
    int how=s.weighted({3,3,4}); bool partial=false; if (!dead&&s.flip(15)) { emit(TE_KEY,m.w,"\033["); partial=true; }
    if (how==2) { emit(TE_EOF,m.w,""); s.note("end of input%s",partial?" inside a key":""); } else { if (partial) emit(TE_KEY,m.w,"Z"); emit(TE_KEY,m.w,how?"q":"Q"); s.note("quit"); }
    // run it
    int kr,kw; struct termios ta,tb; memset(&ta,0,sizeof ta); memset(&tb,0,sizeof tb);
    if (tty) { if (openpty(&kw,&kr,0,0,0)) _exit(77); tcgetattr(kr,&ta); if (s.flip()) { ta.c_lflag^=ECHO; ta.c_iflag^=IXON; tcsetattr(kr,TCSANOW,&ta); tcgetattr(kr,&ta); } } else { int pp[2]; if (pipe(pp)) _exit(77); kr=pp[0]; kw=pp[1]; }
    sh->keyfd=kw; sh->feedfd=feedw; tw=sh;
    string fo=tmpname(".stdout"),fe=tmpname(".stderr"); Fds fd; fd.in=kr; fd.out=newfile(fo); fd.err=newfile(fe); vector<int> keep={kw}; if (feedr!=-1) { keep.push_back(feedr); keep.push_back(feedw); fcntl(feedr,F_SETFD,0); fcntl(feedw,F_SETFD,0); }
    pid_t pid=start(termplay_main,args,D.d,fd,keep,[]{ setenv("LC_ALL","C.UTF-8",1); tw_start(); }); close(fd.out); close(fd.err); if (!tty) close(kr); if (!tty||how==2) close(kw); if (feedr!=-1) close(feedr),close(feedw);
    int st; try { st=finish(pid,25,"termplay"); } catch (...) { if (tty) close(kr); if (tty&&how!=2) close(kw); throw; }
    if (tty) { if (how!=2) { tcgetattr(kr,&tb); close(kw); } close(kr); }
    string out=get_file(fo),err=get_file(fe); unlink(fo.c_str()); unlink(fe.c_str());
    CHECK(!sh->stuck,"termplay never comes to rest at %lld us",(long long)sh->vnow);
    int code=status(st,"termplay",err); CHECK(code==0,"termplay exits with %d: %s",code,printable(err).c_str()); CHECK(err.empty(),"messages: %s",printable(err).c_str());
    if (tty&&how!=2) CHECK(ta.c_iflag==tb.c_iflag&&ta.c_oflag==tb.c_oflag&&ta.c_cflag==tb.c_cflag&&ta.c_lflag==tb.c_lflag&&!memcmp(ta.c_cc,tb.c_cc,sizeof ta.c_cc),"the terminal's settings are not restored");
    CHECK(sh->ncp==(int)want.size(),"harness: %d of %zu observations",sh->ncp,want.size());
    // compare
    Model real(sx,sy,false); real.escc=true; size_t op=0; vector<Model> ref; int at=-2; Model now(sx,sy,true);
    auto shown=[&](int idx)->Model& { if (at<-1||idx<at) { now=Model(sx,sy,true); at=-1; } while (at<idx) now.feed(pf[++at].d); return now; };
    auto compare=[&](int idx,const string &when,bool cursor) { Model &a=shown(idx);
        CHECK(real.sx>=a.sx&&real.sy>=a.sy,"harness: %s: the recorded terminal is %dx%d",when.c_str(),a.sx,a.sy);
        for (int y=0;y<a.sy;y++) for (int x=0;x<a.sx;x++) { SCell q=a.at(x,y),w=real.at(x,y); q.attr&=~A_CJK; w.attr&=~A_CJK; if (memcmp(&q,&w,sizeof q)) { Screen one=a,two=a; one.sx=two.sx=1; one.sy=two.sy=1; one.c.assign(1,w); two.c.assign(1,q); string which="no frame"; for (int k=-1;k<(int)pf.size();k++) { Model &z=shown(k); bool same=true; for (size_t i=0;i<z.c.size()&&same;i++) { SCell q=z.c[i],w=real.at(i%z.sx,i/z.sx); q.attr&=~A_CJK; w.attr&=~A_CJK; if (memcmp(&q,&w,sizeof q)) same=false; } if (same) { which="frame "+std::to_string(k); break; } }
            failf("at %s: frame %d should be shown, the screen is that of %s (at %d,%d: %s)",when.c_str(),idx,which.c_str(),x,y,diff(one,two,0).c_str()); } }
        if (cursor) CHECK(real.cy==a.cy&&(real.cx==a.cx||(a.cx==a.sx&&real.cx==a.cx-1)),"at %s: the cursor is at %d,%d instead of %d,%d",when.c_str(),real.cx,real.cy,a.cx,a.cy); };
    for (int i=0;i<sh->ncp;i++) { CHECK((size_t)sh->cp[i].size<=out.size(),"the output shrinks"); real.feed(out.substr(op,sh->cp[i].size-op)); op=sh->cp[i].size; compare(want[i].idx,want[i].what,true); }
    string rest=out.substr(op); real.feed(rest); compare(m.idx,"the end",false); CHECK(real.cx==0&&real.cy==shown(m.idx).sy-1,"the cursor is left at %d,%d",real.cx,real.cy);
    s.label(mode==0?"loaded before":mode==1?"loaded late":live?"live":"growing"); if (tty) s.label("keys from a terminal"); if (m.slid) s.label("late frames"); s.label("keys",nkey); s.label("observations",want.size()); s.evals(want.size()); s.nontrivial(moved>=2&&m.shown>=2);
}
static RegProp pu05({"U05",u05,20000,300000,40,290,false,30,"termplay run under a virtual clock on generated recordings (complete, growing or live) with generated keys at generated times; the screen produced by its output is compared at every observation with a model of the position and a reference replay; non-trivial: at least two keys that act and two frames shown by playing",0});

// ------------------------------------------------------------------ U03, U04
static double wall() { struct timespec t; clock_gettime(CLOCK_REALTIME,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Sess { // termrec, the program it records, and us around them
    pid_t pid=0; int lst=-1, so=-1, in=-1, outf=-1; string out, inq, got; vector<std::pair<size_t,double>> at; bool out_end=false;
    string hello; int wrote=0, rdone=0, werr=0; vector<std::pair<int,u32>> sigs; u32 size=0; int nsize=0; bool ended=false; int st=0; string err; const char *errfile=0;
    ~Sess() { if (pid&&!ended) { kill(pid,SIGKILL); waitpid(pid,0,0); } if (lst!=-1) close(lst); if (so!=-1) close(so); if (in!=-1&&in!=outf) close(in); if (outf!=-1) close(outf); }
    static u32 sz(const u8 *b) { return (u32)b[0]<<24|b[1]<<16|b[2]<<8|b[3]; }
    void pump(int ms) {
        struct pollfd p[4]; int n=0,a=-1,b=-1,c=-1; static char buf[1<<17];
        if (so!=-1) p[a=n++]={so,POLLIN,0}; else if (lst!=-1) p[a=n++]={lst,POLLIN,0};
        if (outf!=-1&&!out_end) p[b=n++]={outf,POLLIN,0};
        if (in!=-1&&!inq.empty()) p[c=n++]={in,POLLOUT,0};
        poll(p,n,ms);
        if (b!=-1&&p[b].revents) { int r=read(outf,buf,sizeof buf); if (r>0) { out.append(buf,r); at.push_back({out.size(),wall()}); } else if (r==0||(errno!=EAGAIN&&errno!=EINTR)) out_end=true; }
        if (c!=-1&&p[c].revents) { int r=write(in,inq.data(),std::min<size_t>(inq.size(),30000)); if (r>0) inq.erase(0,r); else if (r==-1&&errno!=EAGAIN&&errno!=EINTR) inq.clear(); }
        if (a!=-1&&p[a].revents) {
            if (so==-1) { so=accept4(lst,0,0,SOCK_CLOEXEC|SOCK_NONBLOCK); return; }
            int r=recv(so,buf,sizeof buf,0); if (r==0||(r==-1&&errno!=EAGAIN&&errno!=EINTR)) { close(so); so=-1; close(lst); lst=-1; return; } if (r<1) return;
            switch (buf[0]) { case 'H': hello.assign(buf,r); break; case 'w': wrote++; break; case 'e': werr++; wrote++; break; case 'r': got.append(buf+1,r-1); break; case 'd': rdone++; break;
                case 'S': sigs.push_back({(u8)buf[1],sz((u8*)buf+2)}); break; case 'Z': size=sz((u8*)buf+1); nsize++; break; } }
    }
    bool over() { if (!ended) { pid_t q=waitpid(pid,&st,WNOHANG); if (q==pid) ended=true; } return ended; }
    void wait(std::function<bool()> f,const char *what) { double t=mono()+20; while (!f()) { pump(2); if (mono()>t) failf("%s: doesn't happen",what); if (!f()&&over()) { for (int i=0;i<50&&!f();i++) pump(0); if (f()) break; string e=errfile?get_file(errfile):""; if (WIFSIGNALED(st)||WEXITSTATUS(st)==99) status(st,"termrec",e); failf("%s: termrec has ended instead (status %d) %s",what,st,printable(e).c_str()); } } }
    void say(const string &m) { if (so==-1) failf("the recorded program is gone"); while (send(so,m.data(),m.size(),MSG_NOSIGNAL)==-1) { if (errno==EAGAIN||errno==EINTR) pump(1); else failf("the recorded program is gone"); if (so==-1) failf("the recorded program is gone"); } }
};
static string nosize(string d) { size_t p=0; while ((p=d.find("[8",p))!=string::npos) d[p+1]='9'; return d; }
struct Note { string d; size_t lo,hi; bool must; };

static void session(Src &s,bool sig) {
    Dir D; vector<string> args={"termrec"};
    static const struct { const char *f,*ext,*reader; } F[]={{"ttyrec",".ttyrec","ttyrec"},{"nh_recorder",".nh","nh_recorder"},{"asciicast",".cast","asciicast"},{"asciicast-v1",".cast-v1","asciicast"},{"ansi",".txt",0}};
    int fm=s.weighted({6,2,3,2,1}); bool cast=fm==2||fm==3; int comp=s.flip(30)?(int)s.draw(4):-1; bool app=s.flip(20), raw=s.flip(25), utf=s.flip(70); int named=s.weighted({10,app?0:2,2}); // 0: by extension, 1: no name, 2: -f
    int tin=0,tout=0; switch (s.weighted({5,3,2,2})) { case 0: tin=tout=1; break; case 1: break; case 2: tout=1; break; case 3: tin=1; break; } if (sig&&s.flip(60)) tin=tout=1;
    int W=1+(int)s.num(299,{79,131}), H=1+(int)s.num(99,{24}); if (tout&&s.flip(8)) W=0; bool sized=tout&&W; bool viashell=s.flip(15);
    // the file
    string name="rec"; string extra; if (named==0) { extra=F[fm].ext; extra=upper(s,extra); } else if (named==2) { args.push_back(s.flip()?"-f":"--format"); args.push_back(F[fm].f); extra=s.flip()?"":".ttyrec"; } else fm=s.flip()?0:fm;
    if (named==1) { cast=fm==2||fm==3; if (fm) { args.push_back("-f"); args.push_back(F[fm].f); } comp=1; }
    if (named!=1&&comp>=0) { string e=comp_ext[comp]; extra+=upper(s,e); } name+=extra;
    if (raw) args.push_back(s.flip()?"-r":"--raw"); if (app) args.push_back(s.flip()?"-a":"--append");
    bool full=!sig&&named!=1&&!app&&s.rare(30); if (full&&symlink("/dev/full",(D.d+"/"+name).c_str())) _exit(77);
    if (named!=1&&!app&&!full&&s.flip(25)) { put_file(D.d+"/"+name,string(1+s.num(300000,{1,20,70000}),'o')); s.note("the file exists"); s.label("replaces a file"); }
    string old; Trace oldtr; string olddata;
    if (app) { vector<Frame> f=gen_frames(s,true,2,8,0,1400000000ll*1000000); for (auto &x:f) { x.d=nosize(x.d); if (x.d.empty()) x.d="."; } if (f.empty()) f.push_back({1400000000ll*1000000,"old"}); i64 t0=f[0].t;
        if (fm==0) old=enc_ttyrec(f); else if (fm==1) { for (auto &x:f) { string y; for (char c:x.d) if (c) y+=c; x.d=y.empty()?".":y; } old=enc_nh(f,t0); } else if (cast) { CastStyle c; c.version=fm==2?2:1; c.ts=t0/1000000; old=enc_cast(s,c,f,t0); } else for (auto &x:f) old+=x.d;
        oldtr=play(mem_fd(old),F[fm].reader,fm==4?"x.txt":0); for (auto &e:oldtr.ev) if (e.k==2) olddata+=e.d;
        put_file(D.d+"/"+name,comp>=0?compress_ref(comp,old,(int)s.draw(9)):old); }
    // its surroundings
    static int serial; char sk[64]; snprintf(sk,64,"termrec-vp-%d-%d",(int)getpid(),serial++);
    Sess S; S.lst=socket(AF_UNIX,SOCK_SEQPACKET|SOCK_CLOEXEC|SOCK_NONBLOCK,0); struct sockaddr_un sa; memset(&sa,0,sizeof sa); sa.sun_family=AF_UNIX; strcpy(sa.sun_path+1,sk); if (bind(S.lst,(struct sockaddr*)&sa,3+strlen(sk))||listen(S.lst,1)) _exit(77);
    string cmd=string(tools_dir?tools_dir:".")+"/helper "+sk; if (!viashell) { args.push_back(s.flip()?"-e":"--exec"); args.push_back(cmd); }
    if (named!=1) args.push_back(name);
    { string l; for (size_t i=0;i<args.size();i++) l+=" "+(i&&(args[i-1]=="-e"||args[i-1]=="--exec")? string("PROGRAM"):args[i]); s.note("run%s%s; standard input a %s, output a %s %dx%d%s",l.c_str(),viashell?" (with SHELL=PROGRAM)":"",tin?"terminal":"pipe",tout?"terminal":"pipe",tout?W:0,tout?H:0,tin&&tout?" (the same)":""); }
    static struct tw *sh; if (!sh) { sh=(struct tw*)mmap(0,sizeof *sh,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (sh==MAP_FAILED) _exit(77); } memset(sh,0,offsetof(struct tw,ev)); sh->nk=0; sh->record_kill=1;
    Fds fd; int slave=-1; struct termios ta,tb; struct winsize ws; memset(&ws,0,sizeof ws); ws.ws_col=W; ws.ws_row=W?H:0; auto mkpty=[&](int *m,int *sl) { if (openpty(m,sl,0,0,&ws)) _exit(77); fcntl(*m,F_SETFD,FD_CLOEXEC); fcntl(*sl,F_SETFD,FD_CLOEXEC); };
    if (tin) { mkpty(&S.in,&slave); fd.in=slave; tcgetattr(slave,&ta); if (s.flip()) { ta.c_lflag^=ECHO|ECHOCTL; ta.c_iflag^=IXON|ICRNL; ta.c_oflag^=ONLCR; ta.c_cc[VMIN]=3; tcsetattr(slave,TCSANOW,&ta); } tcgetattr(slave,&ta); } else { int p[2]; if (pipe2(p,O_CLOEXEC)) _exit(77); fd.in=p[0]; S.in=p[1]; }
    int oslave=-1; if (tout&&tin) { S.outf=S.in; fd.out=slave; } else if (tout) { mkpty(&S.outf,&oslave); struct termios t; tcgetattr(oslave,&t); cfmakeraw(&t); tcsetattr(oslave,TCSANOW,&t); fd.out=oslave; } else { int p[2]; if (pipe2(p,O_CLOEXEC)) _exit(77); S.outf=p[0]; fd.out=p[1]; if (s.flip(30)) fcntl(p[1],F_SETPIPE_SZ,4096); }
    fcntl(S.in,F_SETFL,O_NONBLOCK|O_RDWR); fcntl(S.outf,F_SETFL,O_NONBLOCK|O_RDWR);
    string fe=tmpname(".stderr"); fd.err=newfile(fe); S.errfile=fe.c_str(); struct Unl { string f; ~Unl() { unlink(f.c_str()); } } unl{fe}; struct Cl { int *a,*b; ~Cl() { if (*a!=-1) close(*a); if (*b!=-1) close(*b); } } cl{&slave,&oslave};
    vector<string> taken; if (named==1&&s.flip()) for (int i=0;i<4;i++) { time_t t=time(0)+i; char b[60]; strftime(b,60,"%Y-%m-%d.%H-%M-%S",localtime(&t)); string n=string(b)+(fm==4?"":F[fm].ext)+".bz2"; taken.push_back(n); put_file(D.d+"/"+n,"taken"); }
    double t_start=wall();
    S.pid=start(termrec_main,args,D.d,fd,{},[&]{ tw=sh; setenv("LC_ALL",utf?"C.UTF-8":"C",1); if (viashell) setenv("SHELL",cmd.c_str(),1); else setenv("SHELL","/bin/false",1); });
    if (!tin) close(fd.in); if (!tout) close(fd.out); close(fd.err);
    S.wait([&]{ return !S.hello.empty(); },"starting the program");
    pid_t prog; memcpy(&prog,&S.hello[1],4); u32 cur=S.sz((u8*)&S.hello[5]); u32 want0= sized? (u32)H<<16|W : 0;
    CHECK(cur==want0,"the program's terminal is %ux%u instead of %ux%u",cur&0xffff,cur>>16,want0&0xffff,want0>>16); CHECK(S.hello[10],"the program has no terminal"); CHECK(S.hello[11]&&S.hello[12],"the terminal doesn't control the program");
    // what is written
    string E; vector<std::pair<size_t,double>> cmds; vector<Note> notes; string sent; int nW=0,nR=0; vector<int> kills; u32 real=want0; bool resized=false,half=false; u32 shown_size=want0;
    auto gen=[&](int big)->string { string d; if (cast||fm==1||s.flip()) d=gen_text(s,6); else d=gen_data(s,3); if (d.empty()) d="x";
        if (big) { size_t n=(size_t)s.num(220000,{4095,4096,65535,65536,65537,131072}); if (d.size()>n&&n) d.resize(n); string u=d; while (d.size()<n) d+= d.size()+u.size()<=n? u : string(n-d.size(),'z'); s.label("big output"); }
        if (fm==1) for (auto &c:d) if (!c) c='0'; if (cast) { for (auto &c:d) if (c=='\033') c='^'; if (sig||big) for (auto &c:d) if ((u8)c>=128) c='u'; d+="\033[1m"; } return nosize(d); };
    auto write=[&](const string &d) { s.note("the program writes %zu bytes: %s",d.size(),printable(d,60).c_str()); double t=wall(); for (size_t p=0;p<d.size();p+=60000) { cmds.push_back({E.size(),t}); string c=d.substr(p,60000); E+=c; S.say("W"+c); nW++; } };
    auto settle=[&] { S.wait([&]{ return S.wrote==nW&&S.out.size()>=E.size(); },"the program's output reaching standard output"); half=false; };
    auto input=[&](const string &d) { s.note("%zu bytes are typed: %s",d.size(),printable(d,60).c_str()); S.inq+=d; sent+=d; };
    auto readall=[&] { s.note("the program reads"); int n=(int)(sent.size()-S.got.size()); string m="R"; m.append((char*)&n,4); S.say(m); nR++; S.wait([&]{ return S.rdone==nR; },"the input reaching the program"); CHECK(S.got==sent,"the program gets different input: %s",printable(S.got.substr(0,300)).c_str()); };
    auto signal_=[&](int g) { s.note("signal %d%s",g,half?" (during output)":""); size_t n=0; for (auto &x:S.sigs) if (x.first==g) n++; kill(S.pid,g); kills.push_back(g); S.wait([&]{ size_t k=0; for (auto &x:S.sigs) if (x.first==g) k++; return k>n; },"the signal reaching the program"); if (half) s.label("signal during output"); };
    auto resize=[&](int w,int h) { s.note("the real terminal becomes %dx%d%s",w,h,half?" (during output)":""); struct winsize z; memset(&z,0,sizeof z); z.ws_col=w; z.ws_row=h; u32 v=(u32)h<<16|w; size_t lo=S.out.size(); bool change=v!=real;
        ioctl(S.outf,TIOCSWINSZ,&z); kill(S.pid,SIGWINCH); real=v;
        if (change&&v!=shown_size) { S.wait([&]{ for (size_t i=S.sigs.size();i-->0;) if (S.sigs[i].first==SIGWINCH) return S.sigs[i].second==v; return false; },"the new size reaching the program"); shown_size=v; }
        char b[40]; snprintf(b,40,"\033[8;%d;%dt",h,w); notes.push_back({b,lo,E.size(),change}); resized=true; if (half) s.label("resize during output"); };
    if (full) {
        string d=s.flip(30)?gen_text(s,6):"x"; if (d.empty()) d="x"; while (d.size()<70000&&s.flip(30)) d+=d; s.note("the program writes %zu bytes and exits",d.size()); string m="W"+d.substr(0,60000); double t=mono()+20; int k=0;
        while (!S.over()) { if (k<2&&S.so!=-1&&send(S.so,k?"X\0":m.data(),k?2:m.size(),MSG_NOSIGNAL)>0) k++; S.pump(2); if (mono()>t) failf("termrec doesn't end with the program"); }
        string err=get_file(fe); int code=status(S.st,"termrec",err); if (comp>=0&&code==0&&known("full-compressed")) { s.label("known: full-compressed"); return; }
        CHECK(code!=0,"termrec exits with 0 though the device is full"); CHECK(!err.empty(),"no message though the device is full"); if (slave!=-1) { tcgetattr(slave,&tb); CHECK(ta.c_iflag==tb.c_iflag&&ta.c_oflag==tb.c_oflag&&ta.c_cflag==tb.c_cflag&&ta.c_lflag==tb.c_lflag&&!memcmp(ta.c_cc,tb.c_cc,sizeof ta.c_cc),"the terminal's settings are not restored"); } s.label("full device"); return; }
    // the first byte shows that termrec is at work
    write("#"); settle(); if (tin) { struct termios t; for (int i=0;i<300;i++) { tcgetattr(slave,&t); if (!(t.c_lflag&(ICANON|ECHO))) break; S.pump(5); } CHECK(!(t.c_lflag&(ICANON|ECHO|ISIG|IEXTEN))&&!(t.c_oflag&OPOST)&&!(t.c_iflag&(IXON|ICRNL|INLCR|IGNCR|ISTRIP)),"the terminal isn't in raw mode"); CHECK(cfgetospeed(&t)==cfgetospeed(&ta)&&cfgetispeed(&t)==cfgetispeed(&ta)&&(t.c_cflag&(CREAD|CLOCAL|HUPCL|CSTOPB))==(ta.c_cflag&(CREAD|CLOCAL|HUPCL|CSTOPB)),"the terminal's line speed or control is changed, from %x to %x",(unsigned)ta.c_cflag,(unsigned)t.c_cflag); }
    int acts=0;
    for (List l(s,8,50);l.next();) {
                switch (s.weighted({6,sig?1:4,sig?1:3,2,sig?8:0,sig?5:0})) {
        case 0: write(gen(s.flip(sig?25:10))); if (s.flip(70)) settle(); else half=true; break;
        case 1: { string d=s.blob(40); if (d.empty()) d="k"; input(d); if (s.flip()) readall(); break; }
        case 2: { size_t n=(size_t)s.num(100000,{1,4095,4096,4097,65536,70000}); string d; for (size_t i=0;i<n;i++) d+=(char)(i*7+i/251); if (!n) d="x"; write(gen(1)); input(d); readall(); half=true; s.label("big input against output"); break; }
        case 3: { int ms=1+(int)s.num(20); double t=mono()+ms*1e-3; while (mono()<t) S.pump(1); s.note("(%d ms pass)",ms); break; }
        case 4: { static const int g[]={SIGINT,SIGHUP,SIGQUIT,SIGTERM,SIGTSTP}; int n=1+(s.flip(20)?(int)s.draw(3):0); for (int i=0;i<n;i++) { signal_(g[s.draw(5)]); acts++; } break; }
        case 5: { if (!tout) { s.note("signal SIGWINCH, there is no terminal to have a size%s",half?" (during output)":""); kill(S.pid,SIGWINCH); acts++; s.label("SIGWINCH without a terminal"); if (s.flip()) { S.nsize=0; S.say("Z"); S.wait([&]{ return S.nsize>0; },"an answer"); CHECK(S.size==want0,"the program's terminal became %ux%u",S.size&0xffff,S.size>>16); } break; }
            int w=1+(int)s.num(299,{79,131}), h=1+(int)s.num(99,{24}); resize(w,h); acts++; if (!half&&s.flip()) { S.nsize=0; S.say("Z"); S.wait([&]{ return S.nsize>0; },"an answer"); CHECK(S.size==real,"the program's terminal is %ux%u instead of %dx%d",S.size&0xffff,S.size>>16,w,h); } break; }
        }
    }
    // the end
    int end=s.weighted({6,2,2,!sig&&!tout?2:0}); string last;
    if (end==1) { input(s.blob(20)+"unread"); s.label("ends with unread input"); }
    S.wait([&]{ return S.inq.empty(); },"taking input"); if (tin&&sent.size()>S.got.size()) { double t=mono()+0.003; while (mono()<t) S.pump(1); } // what comes later could be echoed
    if (end==2&&tin) end=0; // a terminal has no end of input here
    size_t must=E.size(); if (end==3) { // nobody takes the output anymore
        settle(); must=E.size(); close(S.outf); S.outf=-1; s.note("standard output is closed"); string d=gen(s.flip(30)); s.note("the program writes %zu bytes",d.size()); for (size_t p=0;p<d.size();p+=60000) { string c=d.substr(p,60000); E+=c; if (S.so!=-1) { string m="W"+c; double t=mono()+20; while (!S.over()&&S.so!=-1&&send(S.so,m.data(),m.size(),MSG_NOSIGNAL)==-1&&mono()<t) S.pump(1); } } if (!d.empty()) S.wait([&]{ for (auto &x:S.sigs) if (x.first==SIGHUP) return true; return S.over(); },"the program being hung up"); if (S.so!=-1) send(S.so,"X\0",2,MSG_NOSIGNAL); s.label("output closed"); }
    else if (end==2) { settle(); if (sent.size()>S.got.size()) readall(); S.wait([&]{ return S.inq.empty(); },"taking input"); s.note("the input ends"); close(S.in); S.in=-1; S.wait([&]{ for (auto &x:S.sigs) if (x.first==SIGHUP) return true; return S.over(); },"the program being hung up"); if (S.so!=-1) S.say(string("X\0",2)); s.label("ends with the input"); }
    else { if (s.flip()) { write(gen(s.flip(30))); } int c=(int)s.num(255,{0,1}); if (s.flip(15)) { S.say("B"); s.note("the program leaves a daemon behind"); s.label("daemon left behind"); } s.note("the program exits with %d",c); S.say(string("X")+(char)c); }
    { double t=mono()+20; while (!S.over()) { S.pump(2); if (mono()>t) { failf("termrec doesn't end with the program"); } } for (int i=0;i<1000&&!S.out_end;i++) { size_t n=S.out.size(); S.pump(0); if (S.out.size()==n) break; } }
    string err=get_file(fe); int code=status(S.st,"termrec",err);
    if (end==3) { CHECK(S.out==E.substr(0,must),"standard output got %zu bytes: different from the %zu the program has written",S.out.size(),must); CHECK(!err.empty(),"no message though the output is closed"); }
    else {
    CHECK(S.out.compare(0,E.size(),E)==0&&S.out.size()>=E.size(),"standard output got %zu bytes: different from the %zu the program has written",S.out.size(),E.size()); CHECK(S.out.size()==E.size(),"standard output got more than the program has written: %s",printable(S.out.substr(E.size())).c_str());
    CHECK(code==0,"termrec exits with %d: %s",code,printable(err).c_str()); CHECK(err.empty(),"messages: %s",printable(err).c_str()); }
    if (slave!=-1) { tcgetattr(slave,&tb); CHECK(ta.c_iflag==tb.c_iflag&&ta.c_oflag==tb.c_oflag&&ta.c_cflag==tb.c_cflag&&ta.c_lflag==tb.c_lflag&&!memcmp(ta.c_cc,tb.c_cc,sizeof ta.c_cc),"the terminal's settings are not restored"); }
    // kills
    { int n=std::min(sh->nk,1000); vector<int> k; for (int i=0;i<n;i++) { CHECK(sh->k[i].ok&&sh->k[i].pid==prog,"termrec sends signal %d to process %d, the program is %d",sh->k[i].sig,sh->k[i].pid,(int)prog); k.push_back(sh->k[i].sig); } vector<int> a=kills; std::sort(a.begin(),a.end()); std::sort(k.begin(),k.end()); CHECK(a==k,"termrec passes %zu signals instead of %zu",k.size(),a.size()); }
    // the file
    string path=D.d+"/"+name;
    if (named==1) { path.clear(); DIR *x=opendir(D.d.c_str()); while (struct dirent *e=readdir(x)) { string n=e->d_name; if (n=="."||n=="..") continue; if (std::find(taken.begin(),taken.end(),n)!=taken.end()) { CHECK(get_file(D.d+"/"+n)=="taken","the existing file %s was overwritten",n.c_str()); continue; } CHECK(path.empty(),"more than one file was made: %s",n.c_str()); path=D.d+"/"+n; name=n; } closedir(x);
        CHECK(!path.empty(),"no file was made"); { struct stat ms; mode_t u=umask(022); umask(u); CHECK(!stat(path.c_str(),&ms)&&(ms.st_mode&07777)==(0666&~u),"the new file has mode %o",(unsigned)ms.st_mode&07777); } string suf=string(fm==4?"":F[fm].ext)+".bz2"; struct tm tm; memset(&tm,0,sizeof tm); tm.tm_isdst=-1; const char *r=strptime(name.c_str(),"%Y-%m-%d.%H-%M-%S",&tm); CHECK(r,"the file is called %s",name.c_str()); time_t t=mktime(&tm); CHECK(t>=(time_t)t_start-1&&t<=time(0)+1,"the file is called %s",name.c_str()); string rest=r; if (!taken.empty()&&rest[0]=='a') rest=rest.substr(1); CHECK(rest==suf||fm==4,"the file is called %s",name.c_str()); s.label("name by date"); }
    string got=get_file(path); if (comp>=0) { bool ok; got=decompress_ref(comp,got,&ok); CHECK(ok,"the compressed recording is damaged"); }
    if (app) CHECK(!got.compare(0,old.size(),old),"the old recording was changed");
    Trace tr=play(mem_fd(got),F[fm].reader,fm==4?"x.txt":0); CHECK(tr.ret,"the recording can't be played");
    string P; vector<std::pair<size_t,double>> T; double t=0,t0=0; for (auto &e:tr.ev) { if (e.k==0) t0=e.s+e.us*1e-6; else if (e.k==1) t+=e.s+e.us*1e-6; else { T.push_back({P.size(),t}); P+=e.d; } }
    CHECK(!P.compare(0,olddata.size(),olddata),"the old recording plays differently"); size_t skip=olddata.size();
    char note[60]; string pre; if (!raw) { if (utf) pre="\033%G"; if (sized) { snprintf(note,60,"\033[8;%d;%dt",H,W); pre+=note; } }
    if (cast) { Model m(80,25,true); m.feed(pre); snprintf(note,60,"\033%%G\033[8;%d;%dt",m.sy,m.sx); if (utf&&sized&&!raw) pre.clear(); pre=note+pre; }
    string body=P.substr(skip); CHECK(!body.compare(0,pre.size(),pre),"the recording starts with %s instead of %s",printable(body.substr(0,40)).c_str(),printable(pre).c_str()); skip+=pre.size(); body=body.substr(pre.size());
    // take out the notes
    struct Seen { string d; size_t at; }; vector<Seen> seen; string data; vector<size_t> where; // data offset -> offset in P
    for (size_t p=0;p<body.size();) { int a,b,k=0; if (!body.compare(p,4,"\033[8;")&&sscanf(body.c_str()+p,"\033[8;%d;%d%n",&a,&b,&k)==2&&k&&body[p+k]=='t') { seen.push_back({body.substr(p,k+1),data.size()}); p+=k+1; } else { where.push_back(skip+p); data+=body[p++]; } }
    if (end==3&&data.size()>=must&&!E.compare(0,data.size(),data)) E.resize(data.size());
    if (data!=E) { size_t i=0; while (i<data.size()&&i<E.size()&&data[i]==E[i]) i++; failf("the recording has %zu bytes, the program has written %zu; they differ from %zu on: %s instead of %s",data.size(),E.size(),i,printable(data.substr(i,60)).c_str(),printable(E.substr(i,60)).c_str()); }
    if (raw) CHECK(seen.empty(),"a size is noted in raw mode");
    else { size_t q=0; string lastnote= sized? pre.substr(pre.size()>=3?pre.find("\033[8;"):0) : ""; bool first=true; (void)first;
        for (auto &n:notes) { size_t k=q; while (k<seen.size()&&!(seen[k].d==n.d&&seen[k].at>=n.lo&&seen[k].at<=n.hi)) k++; if (k==seen.size()) { CHECK(!n.must,"the size %s is not noted where it changed (bytes %zu to %zu)",printable(n.d).c_str(),n.lo,n.hi); continue; } q=k; }
        for (auto &x:seen) { bool ok=false; for (auto &n:notes) if (x.d==n.d&&x.at>=n.lo) ok=true; if (!notes.empty()&&sized) { snprintf(note,60,"\033[8;%d;%dt",H,W); if (x.d==note) ok=true; } CHECK(ok,"%s is noted at byte %zu, where it was not set",printable(x.d).c_str(),x.at); } }
    // times
    if (fm<4) { double tol=fm==1?0.0201:0.0002; auto when=[&](size_t o) { double r=0; for (auto &x:T) { if (x.first>where[o]) break; r=x.second; } return r; }; auto cmd_at=[&](size_t o) { double r=0; for (auto &x:cmds) { if (x.first>o) break; r=x.second; } return r; }; auto recv_at=[&](size_t o) { for (auto &x:S.at) if (x.first>o) return x.second; return 1e18; };
        double z=when(0), zl=cmd_at(0), zh=recv_at(0); if (fm==0&&!app) CHECK(t0+z>=zl-tol&&t0+z<=zh+tol,"the first output is recorded at %f, it came between %f and %f",t0+z,zl,zh);
        for (size_t i=0;i<cmds.size();i++) { size_t o=cmds[i].first; double w=when(o)-z; CHECK(w>=cmd_at(o)-zh-tol&&w<=recv_at(o)-zl+tol,"the output at byte %zu is recorded at %f s, it came between %f and %f s",o,w,cmd_at(o)-zh,recv_at(o)-zl); } }
    s.label(F[fm].f); if (app) s.label("appended"); if (raw) s.label("raw"); if (comp>=0) s.label("compressed"); if (tin) s.label("input terminal"); if (tout) s.label("output terminal"); if (viashell) s.label("SHELL");
    s.nontrivial(sig? acts>=2 : nW>=2);
}
static void u03(Src &s) { session(s,false); }
static void u04(Src &s) { session(s,true); }
static RegProp pu03({"U03",u03,20000,300000,35,285,false,30,"termrec run on a program that writes and reads generated data as told, in all formats, compressions and options, with terminals or pipes around it; the recording is played and compared with what the program wrote and when; non-trivial: at least two writes",0});
static RegProp pu04({"U04",u04,20000,300000,35,285,false,30,"termrec run on a program that reports its signals and terminal size, while generated signals and size changes are sent to termrec between and during output; every kill is recorded; non-trivial: at least two signals or size changes",0});

// ------------------------------------------------------------------ U06: command lines
// What is given is decided item by item, then written in one of the ways getopt_long understands.
enum { IT_FMT, IT_BADFMT, IT_EXEC, IT_SPEED, IT_BADSPEED, IT_RAW, IT_APPEND, IT_FOLLOW, IT_HELP, IT_UNKNOWN, IT_NOARG };
struct Opt { char c; const char *n; bool arg; };
static const Opt rec_o[]={{'f',"format",true},{'e',"exec",true},{'r',"raw",false},{'a',"append",false},{'h',"help",false}}, play_o[]={{'f',"format",true},{'s',"speed",true},{'p',"follow",false},{'h',"help",false}};
static const Opt &opt_of(const Opt *o,char c) { while (o->c!=c) o++; return *o; }
static string abbrev(Src &s,const Opt *o,int n,const Opt &x) { size_t lo=1,L=strlen(x.n); for (int i=0;i<n;i++) if (&o[i]!=&x) { size_t k=0; while (k<L&&o[i].n[k]==x.n[k]) k++; lo=std::max(lo,k+1); } lo=std::min(lo,L); return string(x.n,s.flip()?L:lo+s.draw(L-lo+1)); }
struct Cmdline { vector<string> a; vector<std::pair<bool,bool>> fl; }; // the arguments; the ones that more flags fit behind
static string dirshot(const string &d,const string &pre,std::map<string,string> &m) {
    DIR *x=opendir((d+"/"+pre).c_str()); if (!x) return ""; while (struct dirent *e=readdir(x)) { string n=e->d_name; if (n=="."||n=="..") continue; n=pre+n; struct stat st; if (lstat((d+"/"+n).c_str(),&st)) continue; char l[300]; 
        if (S_ISDIR(st.st_mode)) { m[n]="a directory"; dirshot(d,n+"/",m); } else if (S_ISLNK(st.st_mode)) { ssize_t k=readlink((d+"/"+n).c_str(),l,299); m[n]="a link to "+string(l,k>0?k:0); } else m[n]="=" +get_file(d+"/"+n); } closedir(x); return ""; }
static string next_add(string a) { for (int i=(int)a.size()-1;i>=0;i--) { if (a[i]!='z') { a[i]++; return a; } a[i]='a'; } return a+"a"; }
struct Deep { string d; ~Deep() { string c="/"; std::map<string,string> m; dirshot(d,"",m); for (auto i=m.rbegin();i!=m.rend();++i) if (i->second=="a directory") rmdir((d+"/"+i->first).c_str()); else unlink((d+"/"+i->first).c_str()); } };
static void u06(Src &s) {
    Dir D; Deep deep{D.d}; static const struct { const char *f,*ext; } F[]={{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"asciicast",".cast"},{"asciicast-v1",".cast-v1"},{"ansi",".txt"},{"live",""},{"null",""}}, G[]={{"baudrate",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"dosrecorder",".dm2"},{"asciicast",".cast"},{"live",""},{"auto",""}};
    // a directory with things in it
    auto script=[&](const char *n,const char *tag,const string &out) { put_file(D.d+"/"+n,string("#!/bin/sh\nprintf ")+tag+" >>ran\nprintf '"+out+"'\n"); chmod((D.d+"/"+n).c_str(),0700); };
    string say="said"; { static const char al[]="abcxyz0189 .,:"; int n=(int)s.draw(21); for (int i=0;i<n;i++) say+=al[s.draw(14)]; say+="!"; }
    script("prog","E",say); script("shell","S",say); put_file(D.d+"/ran",""); put_file(D.d+"/old.ttyrec",enc_ttyrec({{1000000,string(3000,'o')}})); put_file(D.d+"/other","other"); mkdir((D.d+"/sub").c_str(),0700);
    int tool=s.weighted({10,1,1,5}); static const char *const tn[]={"termrec","termcat","termtime","termplay"}; Main mains[]={termrec_main,termcat_main,termtime_main,termplay_main};
    bool play_=tool==3; const Opt *o=play_?play_o:rec_o; int no=play_?4:5; vector<string> a; vector<bool> bundle; vector<string> files; string flist; // flist: formats to be listed
    int fmt=-1; string fmtname; bool cmd=false,raw=false,app=false; int res=0; string why; // 0: runs, 1: refused, 2: help
    auto refuse=[&](const char *w) { if (!res) res=1, why=w; };
    if (tool==0||play_) {
        int n=s.weighted({3,6,5,3,2,1}); bool ended=false;
        auto file=[&] { string x; switch (s.weighted({6,2,2,1,1})) { case 0: x="out"; break; case 1: x="old.ttyrec"; break; case 2: x="nowhere/out.ttyrec"; break; case 3: x="sub"; break; case 4: x= ended? "-out":"out-"; } if (x=="out"||x=="-out"||x=="out-") { string e; if (s.flip(70)) { e=F[s.draw(5)].ext; e=upper(s,e); } if (s.flip(30)) { string q=comp_ext[s.draw(4)]; e+=upper(s,q); } x+=e; } a.push_back(x); bundle.push_back(false); files.push_back(x); };
        int nf=s.weighted({play_?1:4,8,1}); vector<int> order; for (int i=0;i<n;i++) order.push_back(1); for (int i=0;i<nf;i++) order.insert(order.begin()+s.draw(order.size()+1),0);
        for (size_t i=0;i<order.size();i++) {
            if (!order[i]) { file(); continue; }
            if (ended||s.rare(12)) { if (!ended) { a.push_back("--"); bundle.push_back(false); ended=true; } continue; }
            int k= play_? s.weighted({6,1,0,5,1,0,0,3,1,1,i+1==order.size()?1:0}) : s.weighted({6,1,6,0,0,5,3,0,1,1,i+1==order.size()?1:0}); string v; char c=0; bool arg=false;
            switch (k) {
                case IT_FMT: { int x=(int)s.draw(7); v= play_?G[x].f:F[x].f; string w=v; v=upper(s,w); c='f'; arg=true; if (!res) { if (fmt>=0) refuse("two formats"); else fmt=x; } break; }
                case IT_BADFMT: { static const char *b[]={"","bogus","whatever","ttyrec2","tty",".ttyrec","ttyrec ","out.ttyrec"}; v= s.flip(20)? (play_?(s.flip()?"ansi":"null"):(s.flip()?"auto":"baudrate")) : b[s.draw(8)]; c='f'; arg=true; if (!res) { if (fmt>=0) refuse("two formats"); else refuse("an unknown format"), flist=v; } break; }
                case IT_EXEC: v="./prog"; c='e'; arg=true; if (!res) { if (cmd) refuse("two commands"); cmd=true; } break;
                case IT_SPEED: { static const char *b[]={"1","0.5","1000","2.25","1e2"," 3","+4","0x10",".1"}; v=b[s.draw(9)]; c='s'; arg=true; break; }
                case IT_BADSPEED: { static const char *b[]={"","x","0","-1","1001","1e9","2x","1,5","-0.001","nan","inf","-inf"," "}; v=b[s.draw(13)]; c='s'; arg=true; refuse("a bad speed"); break; }
                case IT_RAW: c='r'; if (!res) raw=true; break; case IT_APPEND: c='a'; if (!res) app=true; break; case IT_FOLLOW: c='p'; break;
                case IT_HELP: c='h'; if (!res) res=2; break;
                case IT_UNKNOWN: { static const char *b[]={"-x","-F","-?","--bogus","--formats","--raws","-=","--help=1","--r=","--e_","-:"}; const char *u=b[s.draw(11)]; if (play_&&!strcmp(u,"--r=")) u="--fo"; a.push_back(u); bundle.push_back(false); refuse("an unknown option"); continue; }
                case IT_NOARG: { c=play_?(s.flip()?'f':'s'):(s.flip()?'f':'e'); a.push_back(s.flip()? string("-")+c : string("--")+opt_of(o,c).n); bundle.push_back(false); refuse("an argument is missing"); continue; } }
            const Opt &x=opt_of(o,c); bool lng=s.flip(40), joinb=!a.empty()&&bundle.back()&&!lng&&s.flip(60); string t=lng? "--"+abbrev(s,o,no,x) : string("-")+c;
            bool was=false; if (joinb) { t=a.back()+c; a.pop_back(); bundle.pop_back(); was=true; } (void)was;
            if (!arg) { a.push_back(t); bundle.push_back(!lng); }
            else if (lng&&s.flip()) { a.push_back(t+"="+v); bundle.push_back(false); }
            else if (!lng&&!v.empty()&&s.flip()) { a.push_back(t+v); bundle.push_back(false); }
            else { a.push_back(t); a.push_back(v); bundle.push_back(false); bundle.push_back(false); } }
        if (!res&&files.size()>1) refuse("two files"); if (!res&&play_&&files.empty()) refuse("nothing to play");
        if (!res&&!files.empty()&&files[0].compare(0,8,"nowhere/")==0) refuse("a file that can't be opened"); if (!res&&!files.empty()&&!play_&&files[0]=="sub") refuse("a directory as the file");
    } else if (tool==1) { int n=s.weighted({1,1,3}); if (n<2) { if (n) a.push_back("old.ttyrec"); refuse("too few files"); } else { a={"old.ttyrec",s.flip()?"nowhere/out.ttyrec":"sub"}; if (s.flip()) a.insert(a.begin(),"old.ttyrec"); refuse("a file that can't be opened"); } }
    else refuse("no files");
    if (play_&&!res) { if (files[0]!="old.ttyrec"&&files[0]!="sub") refuse("a file that doesn't exist"); else return s.label("skipped"); }
    // the name by date
    time_t t=(time_t)1+(time_t)s.num(4000000000ll,{0,1500000000,951827696,1077926399,68169600}); int tz=(int)s.num(26)-13; char ev[40]; snprintf(ev,40,"XYZ%+d",-tz); string dest,date; bool autom=false;
    if (tool==0&&!res) {
        static const int ext[]={0,1,2,3,4}; (void)ext; if (fmt>=0) fmtname=F[fmt].f;
        if (files.empty()) { autom=true; if (fmt<0) fmt=0; time_t u=t+tz*3600; struct tm tm; gmtime_r(&u,&tm); char b[60]; snprintf(b,60,"%04d-%02d-%02d.%02d-%02d-%02d",tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec); date=b; string add, e=string(F[fmt].ext);
            if (app) { dest=date+e; if (s.flip(70)) put_file(D.d+"/"+dest,""); else refuse("nothing to append to"); if (s.flip()) put_file(D.d+"/"+date+e+".bz2","other"); }
            else { int k=s.weighted({4,6,1})==0?0:s.flip(80)?1+(int)s.draw(5):(int)s.num(60,{26,27,52,53}); for (int i=0;i<k;i++) { string p=D.d+"/"+date+add+e+".bz2"; switch (s.weighted({12,1,1})) { case 0: put_file(p,"other"); break; case 1: mkdir(p.c_str(),0700); break; case 2: if (symlink(s.flip()?"elsewhere":"other",p.c_str())) _exit(77); } add=next_add(add); } if (k&&s.flip(30)) { string z=next_add(add); put_file(D.d+"/"+date+z+e+".bz2","other"); } dest=date+add+e+".bz2"; if (k) s.label(k>26?"more than 26 names taken":"names taken"); } }
        else { dest=files[0]; string n=dest; for (auto &c:n) c=tolower(c); for (int i=0;i<4;i++) { size_t L=strlen(comp_ext[i]); if (n.size()>=L&&!n.compare(n.size()-L,L,comp_ext[i])) { n.resize(n.size()-L); break; } } if (fmt<0) { fmt=0; for (int i=0;i<5;i++) { size_t L=strlen(F[i].ext); if (n.size()>=L&&!n.compare(n.size()-L,L,F[i].ext)) fmt=i; } } }
    }
    int prog= cmd? 0 : s.flip(80)? 1 : 2; // -e, $SHELL, /bin/sh
    string l; for (auto &x:a) l+=" "+(x.empty()||x.find(' ')!=string::npos?"'"+x+"'":x); s.note("%s%s%s%s",tn[tool],l.c_str(),prog==1?" (with $SHELL)":"",autom?(" at "+date).c_str():"");
    std::map<string,string> before,after; dirshot(D.d,"",before);
    static struct tw *sh; if (!sh) { sh=(struct tw*)mmap(0,sizeof *sh,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (sh==MAP_FAILED) _exit(77); } memset(sh,0,offsetof(struct tw,ev)); sh->fixtime= autom?t:0;
    string fo=tmpname(".stdout"),fe=tmpname(".stderr"); Fds f; f.out=newfile(fo); f.err=newfile(fe); int p[2]; if (pipe2(p,O_CLOEXEC)) _exit(77); f.in=p[0]; if (prog==2) { if (write(p[1],"exec ./prog\n",12)!=12) _exit(77); }
    vector<string> av={tn[tool]}; av.insert(av.end(),a.begin(),a.end());
    pid_t q=start(mains[tool],av,D.d,f,{},[&]{ tw=sh; setenv("LC_ALL","C",1); setenv("TZ",ev,1); unsetenv("ENV"); unsetenv("POSIXLY_CORRECT"); setenv("PS1","",1); if (prog==1) setenv("SHELL","./shell",1); else if (prog==0) setenv("SHELL","/bin/false",1); else unsetenv("SHELL"); });
    close(f.in); close(f.out); close(f.err); struct Cl { int f; ~Cl() { close(f); } } cl{p[1]};
    int st=finish(q,20,tn[tool]); string out=get_file(fo),err=get_file(fe); unlink(fo.c_str()); unlink(fe.c_str()); int code=status(st,tn[tool],err);
    dirshot(D.d,"",after); string ran=after["ran"].substr(1); after["ran"]=before["ran"]="=";
    if (res) {
        CHECK(code==(res==1?1:0),"%s: exits with %d: %s",res==1?why.c_str():"help",code,printable(err).c_str()); CHECK(ran.empty(),"%s: the program was run all the same",res==1?why.c_str():"help");
        for (auto &x:before) CHECK(after.count(x.first)&&after[x.first]==x.second,"%s: %s was %s",res==1?why.c_str():"help",x.first.c_str(),after.count(x.first)?"changed":"deleted"); for (auto &x:after) CHECK(before.count(x.first),"%s: %s was made",res==1?why.c_str():"help",x.first.c_str());
        if (res==1) { CHECK(!err.empty(),"%s: no message",why.c_str()); CHECK(out.empty(),"%s: output %s",why.c_str(),printable(out).c_str()); }
        else { CHECK(err.empty(),"help: messages %s",printable(err).c_str()); for (int i=0;i<no;i++) CHECK(out.find(string("-")+o[i].c+", --"+o[i].n)!=string::npos,"help: --%s is not mentioned",o[i].n); }
        if (why=="an unknown format") { std::map<string,int> seen; size_t i=0; bool first=false; while (i<err.size()) { size_t e=err.find('\n',i); if (e==string::npos) e=err.size(); string L=err.substr(i,e-i); i=e+1; if (L.empty()||L[0]!=' ') continue; first=true; size_t b=1; while (b<L.size()&&L[b]!=' ') b++; string n=L.substr(1,b-1), x; size_t y=L.find('('); if (y!=string::npos) x=L.substr(y+1,L.find(')')-y-1); bool ok=false; for (int k=0;k<7;k++) if (n==(play_?G[k].f:F[k].f)&&x==(play_?G[k].ext:F[k].ext)) ok=true; CHECK(ok,"the list of formats has %s",printable(L).c_str()); CHECK(!seen[n]++,"%s is listed twice",n.c_str()); } CHECK(first&&seen.size()==7,"the list of formats has %zu of them",seen.size()); CHECK(err.find(flist)!=string::npos,"the message doesn't say which format is unknown"); }
        s.label(res==2?"help":why.c_str()); s.nontrivial(a.size()>1||res==1); return;
    }
    static const char tag[]="ESE"; CHECK(code==0,"exits with %d: %s",code,printable(err).c_str()); CHECK(err.empty(),"messages: %s",printable(err).c_str()); CHECK(ran==string(1,tag[prog]),"%s instead of %s was run",ran.empty()?"nothing":ran=="E"?"the given command":ran=="S"?"the shell":ran.c_str(),prog==0?"the given command":prog==1?"$SHELL":"/bin/sh"); CHECK(out.find(say)!=string::npos,"the output is not shown");
    for (auto &x:before) if (x.first!=dest) CHECK(after.count(x.first)&&after[x.first]==x.second,"%s was %s",x.first.c_str(),after.count(x.first)?"changed":"deleted"); for (auto &x:after) CHECK(before.count(x.first)||x.first==dest,"%s was made instead of %s",x.first.c_str(),dest.c_str()); CHECK(after.count(dest),"%s was not made",dest.c_str());
    string rec=after[dest].substr(1), lc=dest; for (auto &c:lc) c=tolower(c); for (int i=0;i<4;i++) { size_t L=strlen(comp_ext[i]); if (lc.size()>=L&&!lc.compare(lc.size()-L,L,comp_ext[i])) { bool ok; rec=decompress_ref(i,rec,&ok); CHECK(ok,"the compressed recording is damaged"); break; } }
    string old=before.count(dest)&&app&&before[dest].size()?before[dest].substr(1):""; CHECK(!rec.compare(0,old.size(),old),"what was in the file was replaced in spite of -a"); rec.erase(0,old.size());
    if (fmt==6) CHECK(rec.empty(),"the null recorder has written %zu bytes",rec.size());
    else { string want=out; if (fmt==2||fmt==3) want="\033%G\033[8;25;80t"+want; string got; if (fmt==4||fmt==5) got=rec; else { Trace tr=play(mem_fd(rec),fmt==3?"asciicast":F[fmt].f,0); CHECK(tr.ret,"the recording can't be played as %s",F[fmt].f); for (auto &e:tr.ev) if (e.k==2) got+=e.d; if (fmt==2||fmt==3) CHECK((rec.find("\"version\": 2")!=string::npos||rec.find("\"version\":2")!=string::npos)==(fmt==2),"a wrong version of asciicast"); }
        CHECK(got==want,"recorded as %s: %s instead of %s",F[fmt].f,printable(got.substr(0,200)).c_str(),printable(want.substr(0,200)).c_str()); }
    s.label("runs"); s.label(F[fmt].f); if (autom) s.label("named by date"); if (raw) s.label("raw"); if (app) s.label("append"); if (prog==2) s.label("/bin/sh"); s.nontrivial(a.size()>=1);
}
static RegProp pu06({"U06",u06,20000,300000,25,280,false,30,"command lines of valid and invalid options in all the spellings getopt_long takes, given to the four programs in a directory with other files, names by date included; non-trivial: at least one option or file, or a refusal",0});
