// Properties of streams: S01..S05
#include "rec.h"
#include "gen_vt.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <time.h>
#include <thread>
#include <atomic>
#include <algorithm>
using std::string; using std::vector;

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// writes all; a broken pipe gives an error but no signal, whatever the process's settings
static bool write_quiet(int fd,const char *p,size_t n) {
    sigset_t ss,old; sigemptyset(&ss); sigaddset(&ss,SIGPIPE); pthread_sigmask(SIG_BLOCK,&ss,&old); bool ok=true;
    while (n) { ssize_t r=write(fd,p,n); if (r<=0) { if (r<0&&errno==EINTR) continue; ok=false; break; } p+=r; n-=r; }
    if (!ok) { struct timespec z={0,0}; while (sigtimedwait(&ss,0,&z)==SIGPIPE) {} }
    pthread_sigmask(SIG_SETMASK,&old,0); return ok;
}
static string write_pieces(Src &s,int fd,const string &d,bool must=true) {
    size_t o=0; int style=s.weighted({3,3,2,1}); string how;
    while (o<d.size()) { size_t n= style==0? d.size() : style==1? 1+s.num(d.size()) : style==2? 1+s.num(200000,{32767,32768,32769,65536}) : d.size()/40+1; n=std::min(n,d.size()-o);
        char *p=(char*)malloc(n); memcpy(p,d.data()+o,n); bool ok=write_quiet(fd,p,n); free(p); if (!ok) { CHECK(!must,"writing %zu bytes at %zu to a stream fails: %s",n,o,strerror(errno)); return "broken"; } o+=n; }
    return "";
}
static int xopen(const string &url,int mode,int fd=-1) { const char *e=0; int r=open_stream(fd,url.c_str(),mode,&e); CHECK(r!=-1,"open_stream(%s) failed: %s",url.c_str(),e?e:"(no message)"); return r; }
static string recase(Src &s,string t) { for (char &c:t) if (s.flip(25)&&c>='a'&&c<='z') c-=32; return t; }
// data of interesting sizes
static string gen_payload(Src &s) {
    string d; int k=s.weighted({1,4,4,1});
    if (k==0) { if (s.flip()) return ""; return string(1,(char)s.draw(256)); }
    if (k==1) d=gen_data(s,0);
    if (k==2) { static const u64 b[]={32768,65536,131072,8192,16384,4096,131591,262144}; size_t n=s.flip()? s.num(100000) : b[s.draw(8)]+s.draw(5)-2; d=s.blob(n); }
    if (k==3) { int n=1+(int)s.draw(6); while (n--) d+=s.blob(s.num(s.tier?600000:120000)); if (s.rare(40)) while (d.size()<(s.tier?6000000:1500000)) d+=s.blob(400000); }
    return d;
}
static string xsuffix(Src &s,int k) { return k<0? "" : recase(s,comp_ext[k]); }

// ------------------------------------------------------------------ S01
static const char *const bases[]={"/a","/x.ttyrec","/.","/b.c","/name with space","/.gz.x","/A.CAST"};
static void s01(Src &s) {
    int k=s.weighted({3,3,2,3,1})-0; if (k==4) k=-1;
    string d=gen_payload(s); string dir=scratch(); string name=dir+bases[s.draw(7)]+xsuffix(s,k); if (k<0) { static const char *x[]={"",".gzx",".g",".bz",".xzz",".zs","gz",".gz.txt"}; name=dir+"/f"+x[s.draw(8)]; }
    s.note("%zu bytes, %s",d.size(),name.c_str()); string url=s.flip(20)? "file://"+name : name;
    int mode=s.weighted({4,3,4}); unlink(name.c_str());
    if (mode<2) { // written by the library
        if (mode==0) { int fd; if (s.flip(25)) { int f=open(name.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); fd=xopen("other"+xsuffix(s,k),SM_WRITE,f); } else fd=xopen(url,SM_WRITE); write_pieces(s,fd,d); close(fd); CHECK(wait_threads(),"the stream's thread doesn't end after closing"); }
        else { // complete once the process has ended normally
            // what is to be written must be chosen in this process
            vector<size_t> cut; size_t o=0; int np=s.flip()?1:1+(int)s.draw(5); while (o<d.size()) { size_t n= np--<=1? d.size()-o : 1+s.draw(d.size()-o); cut.push_back(n); o+=n; }
            int two=s.flip(20)? (int)s.draw(4) : -1; string n2=dir+"/second"+(two<0?"":comp_ext[two]);
            pid_t p=fork();
            if (!p) { const char *e=0; int fd=open_stream(-1,url.c_str(),SM_WRITE,&e); if (fd==-1) _exit(41); int f2= two>=0? open_stream(-1,n2.c_str(),SM_WRITE,&e) : -1; size_t o=0; for (size_t n:cut) { if (!write_quiet(fd,d.data()+o,n)) _exit(42); o+=n; } if (f2!=-1) { write_quiet(f2,d.data(),d.size()); close(f2); } close(fd); exit(0); }
            int st; waitpid(p,&st,0); CHECK(WIFEXITED(st)&&!WEXITSTATUS(st),"a process that writes a stream and exits ends with status %x",st);
            if (two>=0) { bool ok; string r=decompress_ref(two,get_file(n2),&ok); CHECK(ok&&r==d,"the second stream is incomplete after the process's end (%zu of %zu bytes%s)",r.size(),d.size(),ok?"":", damaged"); unlink(n2.c_str()); }
            s.label("at process end"); }
        string f=get_file(name); bool ok=true; string r=k<0? f : decompress_ref(k,f,&ok);
        size_t q=0; while (q<r.size()&&q<d.size()&&r[q]==d[q]) q++;
        CHECK(ok,"the reference decoder finds the file of %zu bytes damaged or cut",f.size()); CHECK(r==d,"the reference decoder gets %zu bytes instead of %zu, they differ from %zu",r.size(),d.size(),q);
        s.label("written by the library");
    } else { string f; if (k<0) f=d; else { int parts=s.flip(60)?1:1+(int)s.draw(4); size_t o=0; for (int i=0;i<parts;i++) { size_t n= i+1==parts? d.size()-o : s.draw(d.size()-o+1); f+=compress_ref(k,d.substr(o,n),(int)s.draw(36)); o+=n; } if (parts>1) s.label("several members"); if (s.flip(10)&&k==2) f+=string(4*s.draw(4),'\0'); if (s.flip(15)&&k==3) { string sk("\x50\x2a\x4d\x18",4); int n=(int)s.draw(20); sk+=(char)n; sk+=string(3,'\0'); sk+=string(n,'j'); f=s.flip()? sk+f : f+sk; } } put_file(name,f); s.label("written by the reference"); }
    int fd; if (s.flip(30)) { int f=open(name.c_str(),O_RDONLY); fd=xopen("http://any.where/x"+xsuffix(s,k),SM_READ,f); } else fd=xopen(url,s.flip(20)?SM_REPREAD:SM_READ);
    string g; { size_t bs=s.flip(20)?1+s.draw(100):65536; if (d.size()>20000) bs=65536; char *b=(char*)malloc(bs); ssize_t n; while ((n=read(fd,b,bs))>0) g.append(b,n); free(b); CHECK(n==0,"reading fails: %s",strerror(errno)); } close(fd);
    size_t q=0; while (q<g.size()&&q<d.size()&&g[q]==d[q]) q++;
    CHECK(g==d,"reading gives %zu bytes instead of %zu, they differ from %zu: %s",g.size(),d.size(),q,printable(g.substr(q,80)).c_str()); CHECK(wait_threads(),"the stream's thread doesn't end"); unlink(name.c_str());
    s.label(k<0?"plain":comp_ext[k]); if (d.size()>131072) s.label("large"); s.nontrivial(d.size()>1);
}
static RegProp ps01({"S01",s01,5500,180000,24,280,false,30,"data written to compressed streams in random pieces and decoded by the reference libraries, and reference-compressed files of any level and several members read back; non-trivial: more than one byte",0});

// ------------------------------------------------------------------ S02
static void s02(Src &s) {
    int k=s.weighted({3,3,2,3,2}); if (k==4) k=-1; string name=string(scratch())+"/app"+xsuffix(s,k); unlink(name.c_str());
    if (s.flip(35)) { // whole recordings
        static const char *const fm[]={"ansi","ttyrec","nh_recorder","asciicast","asciicast-v1"}; int f=(int)s.draw(5); string rname=string(scratch())+"/rec"+xsuffix(s,k); unlink(rname.c_str()); vector<Frame> all; Norm w; string first; i64 t0=(i64)s.num(2000000000)*1000000; i64 off=0; int n=2+(int)s.draw(2); string bytes; bool fix=false; vector<string> heads;
        for (int i=0;i<n;i++) {
            int mode= i&&s.flip(85)||s.flip(50)? SM_APPEND : SM_WRITE; if (mode==SM_WRITE) { all.clear(); off=0; w=Norm(); }
            vector<Frame> fr=gen_frames(s,f>=3,3,20,0,t0,false); if (fr.empty()) fr.push_back({t0,"x"}); if (f==2) { for (auto &x:fr) { x.t=std::min<i64>(x.t,t0+1000000ll*1000000); string q; for (char c:x.d) if (c) q+=c; x.d=q.empty()?".":q; x.t=t0+(x.t-t0)/10000*10000; } } if (f>=3) for (auto &x:fr) { if (x.t>t0+100000000000000ll) x.t=t0+100000000000000ll; }
            string before=file_exists(rname)?get_file(rname):""; int fd=xopen(rname,mode); struct timeval st=tv(t0); Recorder r=ttyrec_w_open(fd,fm[f],rname.c_str(),&st); CHECK(r,"ttyrec_w_open failed"); for (auto &x:fr) { struct timeval t=tv(x.t); CHECK(ttyrec_w_write(r,&t,x.d.data(),x.d.size()),"writing fails"); } CHECK(ttyrec_w_close(r),"closing fails"); CHECK(wait_threads(),"threads left");
            string after=get_file(rname); if (mode==SM_APPEND) CHECK(after.compare(0,before.size(),before)==0,"what was in the file is changed by appending"); s.note("%s %zu frames",mode==SM_APPEND?"append":"write",fr.size());
            i64 p=0; if (f>=3) { i64 q=off; char b[60]; snprintf(b,60,"\e%%G\e[8;25;80t"); all.push_back({q,b}); } for (auto &x:fr) { i64 q= f==1? x.t : off+x.t-t0; if (f==0) q=0; all.push_back({q,x.d}); p=q; } off=p; if (f==1) t0=fr.back().t+(i64)s.num(100000)*1000000; }
        (void)fix; const char *rf= f==0?"baudrate":f>=3?"asciicast":fm[f]; Trace tr=play(-1,rf,rname.c_str()); CHECK(tr.ret,"playing fails"); CHECK(wait_threads(),"threads left"); Norm g=norm(tr); i64 b= f==1? all[0].t : 0; Norm want=expect(0,all,b); want.started=g.started; want.start=g.start; string e=normdiff(g,want,f!=0); CHECK(e.empty(),"%s: %s",fm[f],e.c_str()); unlink(rname.c_str()); s.label("recordings"); s.label(fm[f]); s.label(k<0?"plain":comp_ext[k]); s.nontrivial(true); return; }
    string model; int sessions=0; bool exists=s.flip(30); if (exists) { model=gen_payload(s); put_file(name,k<0?model:compress_ref(k,model,(int)s.draw(36))); s.note("present: %zu bytes",model.size()); }
    for (List l(s,3,8);l.next();) {
        bool app=s.flip(75); string d=s.flip(15)?"":gen_payload(s); if (model.size()>600000) d.resize(std::min<size_t>(d.size(),1000)); string before=file_exists(name)?get_file(name):""; s.note("%s %zu bytes",app?"append":"write",d.size());
        static const int um[]={022,0,077,027}; int u=um[s.draw(4)]; struct stat ms; int had=stat(name.c_str(),&ms)?-1:(int)(ms.st_mode&07777); umask(u); s.note("umask %o",u);
        int fd=xopen(s.flip(20)?"file://"+name:name,app?SM_APPEND:SM_WRITE); write_pieces(s,fd,d); close(fd); CHECK(wait_threads(),"threads left"); umask(022);
        CHECK(!stat(name.c_str(),&ms),"no file is created"); { int m=ms.st_mode&07777, w=had==-1?0666&~u:had; CHECK(m==w,"%s file has mode %o instead of %o",had==-1?"the new":"the old",m,w); }
        string after=get_file(name); if (app) { model+=d; CHECK(after.compare(0,before.size(),before)==0,"what was in the file is changed by appending"); } else { model=d; if (k<0) CHECK(after==d,"the old content is not replaced"); }
        bool ok=true; string r=k<0?after:decompress_ref(k,after,&ok); CHECK(ok&&r==model,"the reference decoder gets %zu bytes instead of %zu%s",r.size(),model.size(),ok?"":", damaged"); sessions++; }
    if (!sessions&&!exists) return;
    int fd=xopen(name,SM_READ); string g=read_all(fd); close(fd); CHECK(g==model,"reading gives %zu bytes instead of %zu",g.size(),model.size()); CHECK(wait_threads(),"threads left"); unlink(name.c_str()); s.label(k<0?"plain":comp_ext[k]); s.label("streams"); s.nontrivial(sessions>=2&&model.size()>1);
}
static RegProp ps02({"S02",s02,4200,80000,24,280,false,30,"sequences of writing and appending sessions on one name, the file compared with a model by the reference decoder and by reading, and recordings of each format appended to each other; non-trivial: at least two sessions",0});

// ------------------------------------------------------------------ S03
static const char *const msgs[]={"\e[0mgzip: Error during decompression.\n","\e[0mbzip2: Error during decompression.\n","Invalid/corrupt .bz2 file.\n","Invalid/corrupt .gz file.\n"};
static bool message(const string &x) { if (x.empty()) return true; for (auto m:msgs) if (x==m) return true; // or another readable line
    string y=x; size_t p; while ((p=y.find("\e[0m"))!=string::npos) y.erase(p,4); if (y.size()>200||y.back()!='\n') return false; for (u8 c:y) if ((c<32&&c!='\n')||c>126) return false; return y.find("rror")!=string::npos||y.find("orrupt")!=string::npos; }
static string mangle(Src &s,string d,size_t *first) {
    string o=d;
    for (List l(s,2,12);l.next();) { size_t n=d.size(),p=n? (s.flip(40)?s.num(n) : s.flip(30)? n-1-s.draw(std::min<size_t>(n,30)) : s.draw(n)) : 0;
        switch (s.weighted({4,3,2,2,2,1})) { case 0: if (n) d[p]^=(char)(1<<s.draw(8)); break; case 1: if (n) d[p]=(char)s.draw(256); break; case 2: if (n) d.erase(p,1+s.num(50)); break; case 3: d.insert(p,s.blob(1+s.num(50))); break; case 4: if (n) { size_t q=s.draw(n); d.insert(p,d.substr(q,1+s.num(500))); } break; case 5: d+=s.blob(1+s.num(100)); } }
    size_t k=0; while (k<d.size()&&k<o.size()&&d[k]==o[k]) k++; *first=k; return d;
}
static void s03(Src &s) {
    int k=(int)s.draw(4); string d=gen_payload(s); if (d.size()>400000) d.resize(400000); if (d.empty()) d="q";
    string z; if (s.flip(30)) { string n=string(scratch())+"/lib"+comp_ext[k]; int fd=xopen(n,SM_WRITE); write_pieces(s,fd,d); close(fd); CHECK(wait_threads(),"threads left"); z=get_file(n); unlink(n.c_str()); } else { size_t c=s.flip(30)?s.draw(d.size()+1):d.size(); z=compress_ref(k,d.substr(0,c),(int)s.draw(36)); if (c<d.size()) z+=compress_ref(k,d.substr(c),(int)s.draw(36)); }
    int kind=s.weighted({4,5,2,3,1}); size_t intact; string bad=z; const char *what; bool sock=false,err=false;
    switch (kind) {
    case 0: intact=s.flip()? s.draw(z.size()) : z.size()-1-s.num(z.size()); if (intact>=z.size()) intact=0; bad.resize(intact); what="cut"; break;
    case 1: bad=mangle(s,z,&intact); what="damaged"; break;
    case 2: bad=s.blob(s.num(100000)); intact=0; while (intact<bad.size()&&intact<z.size()&&bad[intact]==z[intact]) intact++; what="random"; break;
    case 3: intact=s.flip()? s.draw(z.size()+1) : z.size()-s.num(z.size()+1); bad.resize(intact); what="read error"; sock=err=true; break;
    default: bad=""; intact=0; what="directory"; err=true; }
    s.note("%s: %zu bytes, compressed %zu, %s, %zu bytes intact of %zu",comp_ext[k],d.size(),z.size(),what,intact,bad.size());
    bool companion=s.flip(30); int good=-1; string gd; int gk=(int)s.draw(4);
    if (companion) { gd=s.blob(200+s.num(3000)); string n=string(scratch())+"/good"+comp_ext[gk]; put_file(n,compress_ref(gk,gd,3)); good=xopen(n,SM_READ); unlink(n.c_str()); }
    int fd; std::thread th; bool joined=true; string name=string(scratch())+"/bad"+comp_ext[k];
    if (kind==4) { mkdir(name.c_str(),0700); fd=xopen(name,SM_READ); rmdir(name.c_str()); }
    else if (sock||s.flip(15)) { int p[2]; if (socketpair(AF_UNIX,SOCK_STREAM,0,p)) _exit(77); if (sock&&write(p[0],"x",1)!=1) _exit(77); // unread data at the peer: an error after what is sent
        fd=xopen("x"+xsuffix(s,k),SM_READ,p[0]); bool rst=sock; th=std::thread([p,&bad,rst]{ sigset_t ss; sigfillset(&ss); pthread_sigmask(SIG_BLOCK,&ss,0); size_t o=0; while (o<bad.size()) { ssize_t r=send(p[1],bad.data()+o,std::min<size_t>(bad.size()-o,4096),MSG_NOSIGNAL); if (r<=0) break; o+=r; } close(p[1]); (void)rst; }); joined=false; }
    else { put_file(name,bad); fd=xopen(name,SM_READ); unlink(name.c_str()); }
    string g=read_all(fd); close(fd); if (!joined) th.join();
    CHECK(wait_threads(20)||companion,"the stream's thread doesn't end");
    // prefix and message
    size_t n=0; while (n<g.size()&&n<d.size()&&g[n]==d[n]) n++;
    bool trunc=kind==0||kind==3; 
    if (trunc&&!(k==0&&intact<3)) { bool ok=false; for (size_t q=n+1;q-->0&&!ok&&q+5>n;) ok=message(g.substr(q)); for (auto m:msgs) { size_t l=strlen(m); if (g.size()>=l&&!g.compare(g.size()-l,l,m)&&g.size()-l<=n) ok=true; } CHECK(ok,"%s: %zu bytes delivered, the first %zu right, then %s",what,g.size(),n,printable(g.substr(n,100)).c_str()); if (intact<z.size()) { if (kind==0) s.label(g.size()>n?"cut, message":"cut, silent"); } }
    if (err&&intact==z.size()&&kind==3) CHECK(n==d.size()||n+300000>d.size(),"a read error after the whole file leaves %zu of %zu bytes",n,d.size());
    // what comes before the damage
    { size_t in=sock? (k==0?20000:k==1?6000:0) : 0; in=intact>in?intact-in:0; // what a read error may take with it
      string dec=decompress_ref(k,bad.substr(0,in),0); size_t hold= k==0?50000:k==1?33000:k==2?33000:140000; size_t need=dec.size()>hold?dec.size()-hold:0; need=std::min(need,d.size()); if (k==0&&intact<3) need=0; CHECK(n>=need,"%s after %zu bytes, the reference decoder gets %zu bytes out of these, only %zu are delivered",what,intact,dec.size(),n); if (need) s.label("data before the damage"); }
    if (companion) { string q=read_all(good); close(good); CHECK(q==gd,"another stream is disturbed: %zu bytes instead of %zu",q.size(),gd.size()); CHECK(wait_threads(),"threads left"); s.label("another stream"); }
    if (s.flip(10)) { string nn=string(scratch())+"/after"+comp_ext[k]; int f=xopen(nn,SM_WRITE); write_pieces(s,f,d.substr(0,5000)); close(f); CHECK(wait_threads(),"threads left"); bool ok; CHECK(decompress_ref(k,get_file(nn),&ok)==d.substr(0,5000)&&ok,"a stream written afterwards is damaged"); unlink(nn.c_str()); }
    s.label(what); s.label(comp_ext[k]); s.nontrivial(z.size()>30);
}
static RegProp ps03({"S03",s03,9000,120000,24,280,false,30,"compressed data cut, damaged, replaced by random bytes or ended by a read error, next to intact streams; non-trivial: more than 30 compressed bytes",0});

// ------------------------------------------------------------------ servers
// Accepts connections on the loopback; serve() runs in its own thread
struct Server {
    int l=-1,port=0; std::thread th; std::atomic<bool> stop{false}, acc{false}, gone{false};
    // ports below and above those that clients get: none of these is still held by an ended connection, however many there were; odd ones are IPv6, so that the other family's same port is dead
    bool take(bool v6,bool high) { static unsigned n; for (int k=0;k<20000;k++) { n++; port=high? 61002+(getpid()*37u+n)%2200*2+v6 : 10000+(getpid()*131u+n*7u)%11000*2+v6; int r; if (v6) { struct sockaddr_in6 a; memset(&a,0,sizeof a); a.sin6_family=AF_INET6; a.sin6_addr=in6addr_loopback; a.sin6_port=htons(port); r=bind(l,(struct sockaddr*)&a,sizeof a); } else { struct sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); a.sin_port=htons(port); r=bind(l,(struct sockaddr*)&a,sizeof a); } if (!r&&!listen(l,16)) return true; if (errno!=EADDRINUSE) return false; if (!r) { close(l); sock(v6); } } return false; }
    void sock(bool v6) { l=socket(v6?AF_INET6:AF_INET,SOCK_STREAM|SOCK_CLOEXEC,0); int one=1; if (l!=-1) setsockopt(l,SOL_SOCKET,SO_REUSEADDR,&one,sizeof one); }
    Server(bool v6=false,bool high=false) { sock(v6); if (l!=-1&&!take(v6,high)) { close(l); l=-1; } if (l==-1&&!v6) _exit(77); }
    template<class F> void serve(F f) { th=std::thread([this,f]{ sigset_t ss; sigfillset(&ss); pthread_sigmask(SIG_BLOCK,&ss,0); struct pollfd p={l,POLLIN,0}; for (int i=0;i<3000&&!stop;i++) if (poll(&p,1,10)>0) { int c=accept4(l,0,0,SOCK_CLOEXEC); if (c==-1) return; int one=1; setsockopt(c,IPPROTO_TCP,TCP_NODELAY,&one,sizeof one); f(c); close(c); return; } }); }
    void join() { if (th.joinable()) th.join(); }
    ~Server() { stop=true; join(); if (l!=-1) close(l); }
};
// the client's end of this connection is in this process: waits until it has read everything
static int find_client(int c) {
    struct sockaddr_storage peer,own; socklen_t n=sizeof peer; if (getpeername(c,(struct sockaddr*)&peer,&n)) return -1;
    for (int fd=3;fd<64;fd++) { if (fd==c) continue; socklen_t m=sizeof own; if (getsockname(fd,(struct sockaddr*)&own,&m)||own.ss_family!=peer.ss_family) continue; in_port_t a,b; if (own.ss_family==AF_INET) a=((struct sockaddr_in*)&own)->sin_port,b=((struct sockaddr_in*)&peer)->sin_port; else if (own.ss_family==AF_INET6) a=((struct sockaddr_in6*)&own)->sin6_port,b=((struct sockaddr_in6*)&peer)->sin6_port; else continue; if (a==b) return fd; }
    return -1;
}
static bool send_pieces(int c,const string &d,const vector<size_t> &pc,size_t *pi,bool sync=true) {
    size_t o=0; int cl=sync? find_client(c) : -1; int waits=0;
    while (o<d.size()) { size_t n=*pi<pc.size()? pc[(*pi)++] : d.size()-o; n=std::min(n,d.size()-o); size_t e=o+n; while (o<e) { ssize_t r=send(c,d.data()+o,e-o,MSG_NOSIGNAL); if (r<=0) return false; o+=r; }
        if (cl!=-1&&*pi<pc.size()&&waits<400) { waits++; int q=0; for (int k=0;k<400;k++) { if (ioctl(cl,FIONREAD,&q)) { cl=-1; break; } if (!q) break; if (k>30) usleep(30); else sched_yield(); } } }
    return true;
}
static vector<size_t> gen_pieces(Src &s,size_t total) { vector<size_t> p; int st=s.weighted({2,3,2,2}); if (st==0) return p; int n=st==1? 40 : st==2? 150 : 25; size_t left=total; if (st!=3&&total>3000&&s.flip()) { size_t q=s.draw(total); p.push_back(q); left-=q; } for (int i=0;i<n&&left;i++) { size_t q= st==1? 1+s.num(20) : st==2? 1+s.draw(2) : 1+s.num(20000,{8192,8191,8193,4096}); q=std::min(q,left); p.push_back(q); left-=q; } return p; }
static string pstr(const vector<size_t> &p) { string r; for (size_t i=0;i<p.size()&&i<15;i++) r+=" "+std::to_string(p[i]); return r; }
static string hostport(Src &s,Server &v,bool v6) { string p=std::to_string(v.port); if (v6) return "[::1]:"+p; static const char *h[]={"127.0.0.1","127.0.0.1","127.0.0.1","localhost"}; return string(h[s.draw(4)])+":"+p; }

// ------------------------------------------------------------------ S04
// faults: the n-th call of this thread fails
static thread_local int f_kind,f_left; static thread_local bool f_hit; // 1 pipe, 2 thread, 3 memory, 4 dup, 5 socket
static thread_local bool own_thread; static std::atomic<int> thr_left{-1}; static std::atomic<int> thr_hits{0}, codec_left{-1}; // memory running out in a stream's thread
static bool failing(int k) { if (k==3&&!own_thread&&thr_left>=0&&thr_left--==0) { thr_hits++; return true; } if (f_kind!=k||f_left<0) return false; if (f_left--) return false; return f_hit=true; }
static std::atomic<const char*> fake_host{0}; static vector<string> fake_addrs; // a host name with addresses of its own
extern "C" {
int __real_pipe(int*); int __wrap_pipe(int *p) { if (failing(1)) { errno=EMFILE; return -1; } return __real_pipe(p); }
int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); int __wrap_pthread_create(pthread_t *t,const pthread_attr_t *a,void*(*f)(void*),void *x) { if (failing(2)) return EAGAIN; return __real_pthread_create(t,a,f,x); }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { if (failing(3)) { errno=ENOMEM; return 0; } return __real_malloc(n); }
void *__real_calloc(size_t,size_t); void *__wrap_calloc(size_t m,size_t n) { if (failing(3)) { errno=ENOMEM; return 0; } return __real_calloc(m,n); }
void *__real_realloc(void*,size_t); void *__wrap_realloc(void *p,size_t n) { if (failing(3)) { errno=ENOMEM; return 0; } return __real_realloc(p,n); }
char *__real_strdup(const char*); char *__wrap_strdup(const char *p) { if (failing(3)) { errno=ENOMEM; return 0; } return __real_strdup(p); }
int __real_dup(int); int __wrap_dup(int f) { if (failing(4)) { errno=EMFILE; return -1; } return __real_dup(f); }
int __real_socket(int,int,int); int __wrap_socket(int a,int b,int c) { if (failing(5)) { errno=EMFILE; return -1; } return __real_socket(a,b,c); }
// a decompressor or compressor that can't be set up, in a stream's thread
#define CODEC (!own_thread&&codec_left>=0&&codec_left--==0&&++thr_hits)
FILE *__real_fdopen(int,const char*); FILE *__wrap_fdopen(int f,const char *m) { if (CODEC) { errno=ENOMEM; return 0; } return __real_fdopen(f,m); }
void *__real_gzdopen(int,const char*); void *__wrap_gzdopen(int f,const char *m) { if (CODEC) return 0; return __real_gzdopen(f,m); }
void *__real_BZ2_bzReadOpen(int*,FILE*,int,int,void*,int); void *__wrap_BZ2_bzReadOpen(int *e,FILE *f,int a,int b,void *u,int n) { if (CODEC) { *e=-3; return 0; } return __real_BZ2_bzReadOpen(e,f,a,b,u,n); }
void *__real_BZ2_bzWriteOpen(int*,FILE*,int,int,int); void *__wrap_BZ2_bzWriteOpen(int *e,FILE *f,int a,int b,int c) { if (CODEC) { *e=-3; return 0; } return __real_BZ2_bzWriteOpen(e,f,a,b,c); }
int __real_lzma_stream_decoder(void*,uint64_t,uint32_t); int __wrap_lzma_stream_decoder(void *s,uint64_t m,uint32_t f) { if (CODEC) return 5; return __real_lzma_stream_decoder(s,m,f); }
int __real_lzma_easy_encoder(void*,uint32_t,int); int __wrap_lzma_easy_encoder(void *s,uint32_t p,int c) { if (CODEC) return 5; return __real_lzma_easy_encoder(s,p,c); }
void *__real_ZSTD_createDStream(void); void *__wrap_ZSTD_createDStream(void) { if (CODEC) return 0; return __real_ZSTD_createDStream(); }
void *__real_ZSTD_createCStream(void); void *__wrap_ZSTD_createCStream(void) { if (CODEC) return 0; return __real_ZSTD_createCStream(); }
size_t __real_ZSTD_initDStream(void*); size_t __wrap_ZSTD_initDStream(void *s) { if (CODEC) return (size_t)-64; return __real_ZSTD_initDStream(s); }
size_t __real_ZSTD_initCStream(void*,int); size_t __wrap_ZSTD_initCStream(void *s,int l) { if (CODEC) return (size_t)-64; return __real_ZSTD_initCStream(s,l); }
// a signal while connecting: the attempt goes on, and is met again by the next call
int __real_connect(int,const struct sockaddr*,socklen_t); int __wrap_connect(int f,const struct sockaddr *a,socklen_t l) { static thread_local int going=-1; if (going==f) { going=-1; return 0; } int r=__real_connect(f,a,l); if (!r&&failing(8)) { going=f; errno=EINTR; return -1; } return r; }
int __real_getaddrinfo(const char*,const char*,const struct addrinfo*,struct addrinfo**);
int __wrap_getaddrinfo(const char *h,const char *p,const struct addrinfo *hi,struct addrinfo **res) {
    const char *fh=fake_host; if (!fh||!h||strcmp(h,fh)) return __real_getaddrinfo(h,p,hi,res);
    struct addrinfo **q=res; *res=0; if (fake_addrs.size()==1&&fake_addrs[0].empty()) return EAI_AGAIN; for (auto &a:fake_addrs) { if (__real_getaddrinfo(a.c_str(),p,hi,q)) continue; q=&(*q)->ai_next; if (q) while (*q) q=&(*q)->ai_next; } return *res?0:EAI_NONAME; }
}
struct Tel { string wire,data,answers; };
static void tel_token(Src &s,Tel &t) {
    const char I=(char)255;
    switch (s.weighted({8,3,2,4,3})) {
    case 0: { string d=gen_data(s,0); for (char c:d) { t.wire+=c; if (c==I) t.wire+=I; } t.data+=d; break; }
    case 1: t.wire+=I; t.wire+=I; t.data+=I; break;
    case 2: t.wire+=I; t.wire+=(char)(236+s.draw(14)); break;       // up to 249: plain commands
    case 3: { int c=251+(int)s.draw(4), o=s.flip()? (int)(s.flip()?1:3) : (int)s.draw(256); t.wire+=I; t.wire+=(char)c; t.wire+=(char)o; int a; switch (c) { case 251: a=(o==1||o==3)?253:254; break; case 252: a=254; break; case 253: a=o==3?251:252; break; default: a=252; } t.answers+=I; t.answers+=(char)a; t.answers+=(char)o; break; }
    default: { t.wire+=I; t.wire+=(char)250; int o=(int)s.draw(255); t.wire+=(char)o; int n=(int)s.num(65,{64,63}); while (n--) { u8 c=(u8)(s.flip(20)? 236+s.draw(20) : s.draw(256)); if (c==255) { if (n) n--; t.wire+=I; t.wire+=I; } else t.wire+=(char)c; } t.wire+=I; t.wire+=(char)240; } }
}
static string recv_until_idle(int c,size_t want,double sec) { string r; char b[4096]; double t0=mono(); while (r.size()<want&&mono()-t0<sec) { struct pollfd p={c,POLLIN,0}; if (poll(&p,1,50)<=0) continue; ssize_t n=recv(c,b,sizeof b,0); if (n<=0) break; r.append(b,n); } return r; }
static string recv_rest(int c) { string r; char b[65536]; ssize_t n; struct pollfd p={c,POLLIN,0}; while (poll(&p,1,15000)>0&&(n=recv(c,b,sizeof b,0))>0) r.append(b,n); return r; }
static bool have6() { static int h=-1; if (h<0) { Server v(true); h=v.l!=-1; } return h; }
static string item(Src &s,const string &nm,char letter,bool full) {
    char b[60]; string r="\r\n"; snprintf(b,60,"\e[%dd",1+(int)s.draw(60)); r+=b; if (s.flip(80)) r+=' '; r+=letter; r+=") "; bool col=s.flip(60); if (col) r+="\e["+string(s.flip()?"1;32":"")+"m"; r+=nm; if (col&&s.flip(80)) r+="\e[0m"; r+=" "; if (s.flip(20)) r+="\e[37m"; r+="("; if (full) r+="idle 3m, connected 12:00, "+std::to_string(s.draw(900))+" viewers)"; return r;
}
static void s04(Src &s) {
    int kind=s.weighted({3,3,6,4,2,1}); bool v6=have6()&&s.flip(15); bool high=s.flip(20); Server v(kind<4&&v6,high); if (kind>=4||v.l==-1) v6=false; string hp=hostport(s,v,v6); string got; fake_host=0; if (kind<4&&s.flip(25)) { fake_addrs.clear(); int n=(int)s.draw(4); const char *dead[]={"127.0.0.2","127.0.0.3","::1","127.9.9.9"}; while (n--) { const char *d=dead[s.draw(4)]; if (*d==':'&&(v6||!have6())) continue; fake_addrs.push_back(d); } fake_addrs.push_back(v6?"::1":"127.0.0.1"); if (s.flip(30)) fake_addrs.push_back("127.0.0.4"); static const char *fn[]={"vp.test","vp","a-b.c.vp.test"}; const char *f=fn[s.draw(3)]; fake_host=f; hp=string(f)+":"+std::to_string(v.port); s.note("%s is%s",hp.c_str(),[&]{ string r; for (auto &a:fake_addrs) r+=" "+a; return r; }().c_str()); s.label(fake_addrs.size()>1?"several addresses":"named host"); } else if (v6&&s.flip(30)) hp=string("::1:")+std::to_string(v.port); int ck=s.flip(15)?(int)s.draw(4):-1;
    int fd0=nfds(); f_hit=false; if (s.flip(15)) { f_kind=8; f_left=0; }
    switch (kind) {
    case 0: { string d=gen_payload(s),z=ck<0?d:compress_ref(ck,d,(int)s.draw(36)); auto pc=gen_pieces(s,z.size()); s.note("tcp, %zu bytes in pieces of%s",z.size(),pstr(pc).c_str());
        bool ask=s.flip(30); string req; v.serve([&](int c){ if (ask) req=recv_rest(c); size_t pi=0; send_pieces(c,z,pc,&pi); if (!ask) { shutdown(c,SHUT_WR); req=recv_rest(c); } }); string url="tcp://"+hp; if (ck>=0) url+="/x"+xsuffix(s,ck); else if (s.flip()) url+="/path.ttyrec"; int fd=xopen(url,SM_READ); got=read_all(fd); close(fd); v.join(); CHECK(req.empty(),"tcp: %zu bytes are sent by a reader",req.size()); size_t n=0; while (n<got.size()&&n<d.size()&&got[n]==d[n]) n++; CHECK(got==d,"tcp: %zu bytes instead of %zu, they differ from %zu",got.size(),d.size(),n); s.label("tcp read"); s.nontrivial(d.size()>1); break; }
    case 1: { string d=gen_payload(s); v.serve([&](int c){ got=recv_rest(c); }); string url="tcp://"+hp; if (ck>=0) url+="/y"+xsuffix(s,ck); int fd=xopen(url,SM_WRITE); write_pieces(s,fd,d); close(fd); v.join(); bool ok=true; string r=ck<0?got:decompress_ref(ck,got,&ok); CHECK(ok&&r==d,"tcp: the server receives %zu bytes instead of %zu",r.size(),d.size()); s.label("tcp write"); s.nontrivial(d.size()>1); break; }
    case 2: { Tel t; if (ck<0) for (List l(s,8,200);l.next();) tel_token(s,t); else { string d=gen_payload(s); d.resize(std::min<size_t>(d.size(),60000)); t.data=d; string z=compress_ref(ck,d,(int)s.draw(36)); for (size_t i=0;i<z.size();i++) { t.wire+=z[i]; if ((u8)z[i]==255) t.wire+=z[i]; if (i<40&&s.flip(5)) { string keep=t.data; Tel q; q.answers=t.answers; do { q.wire=q.data=""; q.answers=t.answers; tel_token(s,q); } while (!q.data.empty()&&s.flip(90)); if (q.data.empty()) { t.wire+=q.wire; t.answers=q.answers; } t.data=keep; } } }
        auto pc=gen_pieces(s,t.wire.size()); s.note("telnet, %s in pieces of%s",hex(t.wire,300).c_str(),pstr(pc).c_str()); string ans; 
        v.serve([&](int c){ size_t pi=0; send_pieces(c,t.wire,pc,&pi); shutdown(c,SHUT_WR); ans=recv_rest(c); });
        string url="telnet://"+hp; if (ck>=0) url+="/z"+xsuffix(s,ck); int fd=xopen(url,SM_READ); got=read_all(fd); close(fd); v.join();
        size_t n=0; while (n<got.size()&&n<t.data.size()&&got[n]==t.data[n]) n++; CHECK(got==t.data,"telnet: %zu bytes instead of %zu, they differ from %zu: %s instead of %s",got.size(),t.data.size(),n,hex(got.substr(n,20)).c_str(),hex(t.data.substr(n,20)).c_str()); CHECK(ans==t.answers,"telnet: answers are %s instead of %s",hex(ans).c_str(),hex(t.answers).c_str()); s.label("telnet"); s.nontrivial(t.wire.size()>4); break; }
    case 3: { // termcast: a menu, maybe several times, then the session
        string nm; { int n=1+(int)s.draw(10); while (n--) nm+=(char)("abcdefghijklmnopqrstuvwxyzABCZ0123456789_"[s.draw(41)]); if (s.rare(25)) nm+=string(50+s.draw(40),'n'); } bool present=s.flip(85); string pre; int pages=1+(s.flip(20)?(int)s.draw(3):0); char letter='a'; Tel t; bool tn=s.flip(40); auto plain=[&](const string &x) { for (char c:x) { t.wire+=c; if ((u8)c==255) t.wire+=c; } t.data+=x; };
        vector<string> decoy; string cap=nm; cap[0]^=0x20; for (auto &q:{nm+"x","x"+nm,nm.substr(0,nm.size()-1),cap,nm+" "+nm,string("other"),nm+"2"}) if (q!=nm&&!q.empty()) decoy.push_back(q);
        char want=0;
        for (int p=0;p<pages&&!want;p++) { plain("\e[2J\e[H"); if (s.flip(60)) plain(gen_text(s,2)); if (s.rare(12)) { string big=s.blob(s.num(30000)); for (char &c:big) if (c=='\r') c='-'; plain(big); } plain("The following sessions are in progress:\r\n"); int n=(int)s.draw(6); letter='a'; for (int i=0;i<n;i++) { if (tn&&s.flip(20)) { Tel q; tel_token(s,q); if (q.data.empty()) { t.wire+=q.wire; t.answers+=q.answers; } } string q=item(s,decoy[s.draw(decoy.size())],letter++,true); switch (s.draw(8)) { case 0: q.erase(1,1); break; case 1: q=q.substr(2); break; default: break; } plain(q); }
            if (present&&p==pages-1) { want=letter; string q=item(s,nm,letter,false); plain(q); } else plain("\r\n\r\nWatch which session? ('q' quits) "); }
        string rest; if (want) { rest="idle 1s)\r\n\e[20d Watch which session?"; rest+=gen_payload(s); rest.resize(std::min<size_t>(rest.size(),70000)); string w; for (char c:rest) { w+=c; if ((u8)c==255) w+=c; } size_t cut=t.wire.size(); t.wire+=w; t.data+=rest; auto pc=gen_pieces(s,cut); auto pc2=gen_pieces(s,w.size()); s.note("termcast %s, menu %s, pieces%s",nm.c_str(),printable(t.wire.substr(0,cut),1500).c_str(),pstr(pc).c_str()); string ans; 
            v.serve([&](int c){ size_t pi=0; send_pieces(c,t.wire.substr(0,cut),pc,&pi); ans=recv_until_idle(c,t.answers.size()+1,15); pi=0; send_pieces(c,t.wire.substr(cut),pc2,&pi); shutdown(c,SHUT_WR); ans+=recv_rest(c); });
            int fd=xopen("termcast://"+hp+"/"+nm,SM_READ); got=read_all(fd); close(fd); v.join(); string a; bool sel=false; for (size_t i=0;i<ans.size();) { if ((u8)ans[i]==255&&i+2<ans.size()) { a+=ans.substr(i,3); i+=3; } else { CHECK(!sel,"something is sent after the selection: %s",hex(ans).c_str()); CHECK(ans[i]==want,"session %c is selected instead of %c",ans[i],want); sel=true; i++; } }
            CHECK(sel,"no session is selected once its menu line is complete"); CHECK(a==t.answers,"answers are %s instead of %s",hex(a).c_str(),hex(t.answers).c_str()); string e=t.data; size_t n=0; while (n<got.size()&&n<e.size()&&got[n]==e[n]) n++; CHECK(n==e.size()&&message(got.substr(n)+(got.size()>n?"":"")),"termcast: %zu bytes instead of %zu, they differ from %zu: %s",got.size(),e.size(),n,printable(got.substr(n,60)).c_str()); s.label("termcast"); }
        else { auto pc=gen_pieces(s,t.wire.size()); s.note("termcast %s absent, menu %s, pieces%s",nm.c_str(),printable(t.wire,1500).c_str(),pstr(pc).c_str()); string ans; v.serve([&](int c){ size_t pi=0; send_pieces(c,t.wire,pc,&pi); ans=recv_until_idle(c,t.answers.size()+1,0.01); shutdown(c,SHUT_WR); ans+=recv_rest(c); }); int fd=xopen("termcast://"+hp+"/"+nm,SM_READ); got=read_all(fd); close(fd); v.join(); CHECK(ans==t.answers,"something is selected although the session isn't there: %s",hex(ans).c_str()); string e=t.data+"\e[0mInput terminated.\n"; size_t n=0; while (n<got.size()&&n<t.data.size()&&got[n]==t.data[n]) n++; CHECK(n==t.data.size()&&got.compare(n,4,"\e[0m")==0&&got.size()<n+120,"termcast: %zu bytes, %zu of the menu: %s",got.size(),n,printable(got.substr(n,80)).c_str()); s.label("termcast, absent"); }
        s.nontrivial(); break; }
    case 4: { string d=gen_payload(s),z=ck<0?d:compress_ref(ck,d,3); int enc=(int)s.draw(3); string body,head="HTTP/1."+string(enc==1?"1":s.flip()?"1":"0")+" 200 OK\r\n"; if (s.flip()) head+="Content-Type: application/octet-stream\r\n"; if (enc==0) { head+="Content-Length: "+std::to_string(z.size())+"\r\n\r\n"; body=z; } else if (enc==1) { head+="Transfer-Encoding: chunked\r\n\r\n"; size_t o=0; char b[30]; while (o<z.size()) { size_t n=std::min<size_t>(1+s.num(30000),z.size()-o); snprintf(b,30,"%zx\r\n",n); body+=b+z.substr(o,n)+"\r\n"; o+=n; } body+="0\r\n\r\n"; } else { head+="Connection: close\r\n\r\n"; body=z; }
        string w=head+body; auto pc=gen_pieces(s,w.size()); string path="/r"+(ck>=0?xsuffix(s,ck):string()); string req; s.note("http, %zu bytes, encoding %d, pieces%s",z.size(),enc,pstr(pc).c_str());
        v.serve([&](int c){ char b[4096]; ssize_t n; while (req.find("\r\n\r\n")==string::npos&&(n=recv(c,b,sizeof b,0))>0) req.append(b,n); size_t pi=0; send_pieces(c,w,pc,&pi); shutdown(c,SHUT_WR); recv_rest(c); });
        int fd=xopen("http://127.0.0.1:"+std::to_string(v.port)+path,SM_READ); got=read_all(fd); close(fd); v.join(); CHECK(req.compare(0,5+path.size(),"GET "+path+" ")==0,"the request is %s",printable(req,200).c_str()); size_t n=0; while (n<got.size()&&n<d.size()&&got[n]==d[n]) n++; CHECK(got==d,"http: %zu bytes instead of %zu, they differ from %zu: %s",got.size(),d.size(),n,printable(got.substr(n,80)).c_str()); s.label("http read"); s.nontrivial(d.size()>1); break; }
    case 5: { string d=gen_payload(s); string req,raw; v.serve([&](int c){ char b[65536]; ssize_t n; while (raw.find("\r\n\r\n")==string::npos&&(n=recv(c,b,sizeof b,0))>0) raw.append(b,n); size_t h=raw.find("\r\n\r\n"); if (h==string::npos) return; req=raw.substr(0,h); raw.erase(0,h+4); if (req.find("100-continue")!=string::npos) { const char *m="HTTP/1.1 100 Continue\r\n\r\n"; send(c,m,strlen(m),MSG_NOSIGNAL); } while (raw.size()<5||raw.compare(raw.size()-5,5,"0\r\n\r\n")||(raw.size()>5&&raw[raw.size()-6]!='\n')) { if ((n=recv(c,b,sizeof b,0))<=0) break; raw.append(b,n); } const char *m="HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"; send(c,m,strlen(m),MSG_NOSIGNAL); shutdown(c,SHUT_WR); recv_rest(c); });
        int fd=xopen("http://127.0.0.1:"+std::to_string(v.port)+"/up"+(ck>=0?xsuffix(s,ck):string()),SM_WRITE); write_pieces(s,fd,d); close(fd); v.join(); 
        string body; size_t o=0; bool ok=req.find("chunked")!=string::npos; while (ok) { size_t e=raw.find("\r\n",o); if (e==string::npos) { ok=false; break; } size_t n=strtoul(raw.c_str()+o,0,16); o=e+2; if (!n) break; if (o+n+2>raw.size()) { ok=false; break; } body+=raw.substr(o,n); o+=n+2; } CHECK(ok,"http: the upload is not complete: %s, %zu bytes",printable(req,300).c_str(),raw.size()); if (ck>=0) { bool k; body=decompress_ref(ck,body,&k); CHECK(k,"http: the uploaded file is damaged"); } CHECK(body==d,"http: the server receives %zu bytes instead of %zu",body.size(),d.size()); s.label("http write"); s.nontrivial(d.size()>1); break; }
    }
    if (f_kind==8&&f_hit) s.label("signal while connecting"); f_kind=0; CHECK(wait_threads(),"the stream's threads don't end"); (void)fd0; CHECK(nfds()==fd0,"%d descriptors before, %d after",fd0,nfds()); if (v6) s.label("IPv6"); if (ck>=0) s.label("compressed");
}
static RegProp ps04({"S04",s04,12000,150000,24,280,false,30,"loopback servers sending random payloads, telnet commands, termcast menus and http answers cut into random segments; non-trivial: more than one byte of payload",0});

// ------------------------------------------------------------------ S05
// one operation sequence, decided by the choices; replayed for the leak check
struct Op { int k; string url; int mode; int n; string d; int comp; int fault; bool early; int srv; int refuse; };
static int own_std; // saved descriptor
static int hits; // faults that really happened
static bool is_open(int fd) { return fcntl(fd,F_GETFD)!=-1; }
static int sentinel(vector<std::pair<int,ino_t>> &v) { int f=memfd_create("s",0); struct stat st; fstat(f,&st); v.push_back({f,st.st_ino}); return f; }
static void check_sentinels(vector<std::pair<int,ino_t>> &v,const char *when) { for (auto &p:v) { struct stat st; CHECK(!fstat(p.first,&st)&&st.st_ino==p.second,"descriptor %d, not of any stream, was closed %s",p.first,when); } }
static int run_ops(const vector<Op> &ops,const vector<int> &order,const string &dir) {
    own_thread=true;
    vector<std::pair<int,ino_t>> sn; vector<Server*> servers; vector<int> fds(ops.size(),-1); int opened=0;
    for (int i=0;i<2;i++) sentinel(sn);
    for (size_t step=0;step<order.size();step++) { int i=order[step]; const Op &o=ops[i];
        if (fds[i]==-1) { // open
            string url=o.url; int use=-1; int peer=-1;
            if (o.srv) { Server *v=new Server(); servers.push_back(v); url=o.url.substr(0,o.url.find('@'))+"127.0.0.1:"+std::to_string(v->port)+o.url.substr(o.url.find('@')+1); int how=o.srv; string d=o.d; v->serve([how,d,v](int c){ if (how==1) { vector<size_t> pc; size_t pi=0; send_pieces(c,d,pc,&pi,false); shutdown(c,SHUT_WR); recv_rest(c); } else if (how==2) { send(c,d.data(),std::min<size_t>(d.size(),3000),MSG_NOSIGNAL); struct linger l={1,0}; setsockopt(c,SOL_SOCKET,SO_LINGER,&l,sizeof l); } else if (how==3) { char b[65536]; while (1) { struct pollfd p={c,POLLIN,0}; int r=poll(&p,1,5); if (r>0&&recv(c,b,sizeof b,0)<=0) break; if (!r&&v->stop) break; } } else if (how==5) { v->acc=true; while (!v->stop) { struct pollfd p={c,POLLOUT,0}; if (poll(&p,1,20)<=0) continue; if (send(c,d.data(),d.size(),MSG_NOSIGNAL|MSG_DONTWAIT)<0&&errno!=EAGAIN) break; } v->gone=true; } else if (how==4) { char b[100]; struct pollfd p={c,POLLIN,0}; if (poll(&p,1,300)>0&&recv(c,b,100,0)<0) return; } }); }
            int std=-1; ino_t stdino=0; if (o.k==3) { std=o.mode&SM_WRITE?1:0; int m=memfd_create("std",0); struct stat st; fstat(m,&st); stdino=st.st_ino; if (!std) { write_quiet(m,o.d.data(),o.d.size()); lseek(m,0,SEEK_SET); } fflush(stdout); own_std=fcntl(std,F_DUPFD_CLOEXEC,200); dup2(m,std); close(m); }
            if (o.k==1) { int p[2]; if (socketpair(AF_UNIX,SOCK_STREAM,0,p)) _exit(77); use=p[0]; peer=p[1]; }
            else if (o.k==2) { use=open(o.mode&SM_WRITE?"/dev/full":"/dev/null",O_RDWR); url="q"+o.url; }
            const char *e=(const char*)1; f_kind=(o.fault+1)/2; f_left=o.fault?(o.fault-1)%2:-1; if (f_kind==3&&o.n%3==0) f_left+=2; f_hit=false; thr_left=f_kind==6? f_left : -1; codec_left=f_kind==7? f_left : -1;
            int r=open_stream(use,o.n==77?0:url.c_str(),o.mode,o.n%5==4?0:&e); f_kind=0; if (f_hit) hits++;
            if (o.k==3) { struct stat st; string got; if (r!=-1) { CHECK(r>2,"- is opened as descriptor %d",r); fds[i]=-2; opened++; if (std) { write_quiet(r,o.d.data(),o.d.size()); } else got=read_all(r); CHECK(!close(r),"a stream's descriptor was already closed"); } bool kept=!fstat(std,&st)&&st.st_ino==stdino; if (kept&&std) { lseek(std,0,SEEK_SET); got=read_all(std); } dup2(own_std,std); close(own_std); CHECK(kept,"standard %s is closed along with -",std?"output":"input"); if (r!=-1) { CHECK(got==o.d,"-: %zu bytes instead of %zu",got.size(),o.d.size()); continue; } }
            if (r==-1) { if (o.n%5!=4) { CHECK(e&&e!=(const char*)1&&*e,"a failed open of %s gives no message",url.c_str()); CHECK(strlen(e)<300,"a failed open gives a message of %zu bytes",strlen(e)); } if (o.refuse==1&&!f_hit&&o.n%5!=4&&o.n!=77) CHECK(!strcmp(e,strerror(ENOENT)),"a failed open of %s, which doesn't exist, says: %s",url.c_str(),e); if (use!=-1) CHECK(!is_open(use),"a failed open of %s leaves the descriptor it was given open",url.c_str()); if (peer!=-1) close(peer); fds[i]=-2; sentinel(sn); check_sentinels(sn,"by a failed open"); continue; }
            CHECK(o.refuse<2,"%s is opened in mode %d",url.c_str(),o.mode); CHECK(is_open(r),"open_stream returns a closed descriptor"); for (auto &p:sn) CHECK(p.first!=r,"open_stream returns a descriptor that is not its own"); for (int q:fds) CHECK(q<0||q!=r,"open_stream returns a descriptor of another stream"); fds[i]=r; opened++;
            // do something with it
            if (peer!=-1) { if (o.mode&SM_WRITE) { if (o.early) close(peer),peer=-1; write_quiet(r,o.d.data(),std::min<size_t>(o.d.size(),60000)); } else { write_quiet(peer,o.d.data(),std::min<size_t>(o.d.size(),o.early?20000:60000)); } if (peer!=-1) close(peer); }
            else if (o.mode&SM_WRITE) write_quiet(r,o.d.data(),std::min<size_t>(o.d.size(),o.early?100:200000));
            if (!(o.mode&SM_WRITE)) { char b[4096]; size_t lim=o.early? (size_t)o.n*7 : 1u<<30; ssize_t n; struct pollfd p={r,POLLIN,0}; while (lim&&(o.srv!=3||poll(&p,1,20)>0)&&(n=read(r,b,std::min<size_t>(lim,sizeof b)))>0) lim-=n; }
        } else if (fds[i]>=0) { int r=fds[i]; CHECK(!close(r),"a stream's descriptor %d was already closed",r); fds[i]=-2; for (int k=0;k<3;k++) sentinel(sn); check_sentinels(sn,"by a stream's end"); } }
    for (int &f:fds) if (f>=0) { CHECK(!close(f),"a stream's descriptor %d was already closed",f); sentinel(sn); }
    for (auto v:servers) { for (int k=0;k<8000&&v->acc&&!v->gone;k++) usleep(1000); CHECK(!v->acc||v->gone,"a connection goes on although its reader left"); v->stop=true; }
    check_sentinels(sn,"by a stream's end");
    for (auto v:servers) { delete v; }
    CHECK(wait_threads(),"threads of closed streams remain"); check_sentinels(sn,"after all streams ended"); thr_left=codec_left=-1; for (auto &p:sn) close(p.first);
    return opened;
}
static void s05(Src &s) {
    fake_host="gone.test"; fake_addrs.clear(); if (s.flip(30)) fake_addrs.push_back("");
    vector<Op> ops; string dir=scratch(); if (dir[0]!='/'||chdir(dir.c_str())) _exit(77);
    for (List l(s,4,12);l.next();) {
        Op o; o.k=s.weighted({5,2,2}); o.comp=s.flip(60)?(int)s.draw(4):-1; o.refuse=0; o.fault=s.flip(30)?1+(int)s.draw(14):0; o.early=s.flip(40); o.n=(int)s.num(1000); o.srv=0; o.d=s.blob(s.num(s.flip(30)?200000:3000)); string sx=o.comp<0?"":comp_ext[o.comp]; o.mode=(int)s.draw(4);
        if (o.k==0) switch (s.weighted({5,5,2,3,2,2,1})) {
            case 0: o.url=dir+"/w"+std::to_string(s.draw(3))+sx; o.mode=s.flip()?SM_WRITE:SM_APPEND; break;
            case 1: { o.url=dir+"/r"+std::to_string(ops.size())+sx; string z=o.comp<0?o.d:compress_ref(o.comp,o.d,1); if (s.flip(30)) z.resize(s.draw(z.size()+1)); if (s.flip(20)) { size_t q; z=mangle(s,z,&q); } put_file(o.url,z); o.mode=s.flip(80)?SM_READ:SM_REPREAD; break; }
            case 2: { static const char *b[]={"/nonexistent/dir/x","","/","/proc/self/mem","/dev/null/x"}; o.url=string(b[s.draw(5)])+(s.flip()?sx:""); if (o.url=="/proc/self/mem") o.mode=SM_READ; if (!o.url.compare(0,12,"/nonexistent")) { o.refuse=1; if (s.flip()) o.url="file://"+o.url; } break; }
            case 3: { static const char *b[]={"tcp://","tcp://:","tcp://127.0.0.1","tcp://127.0.0.1:0","tcp://127.0.0.1:99999","tcp://127.0.0.1:1","tcp://[::1]","tcp://[::1]x:5","tcp://[::1","tcp://[127.0.0.1]:1","tcp://127.0.0.1:-5","tcp://127.0.0.1:4294967300","tcp://127.0.0.1:1x","telnet://127.0.0.1:1/a","telnet://[::1]:1","termcast://127.0.0.1:1/x","termcast://127.0.0.1:1","tcp:///","tcp://gone.test:5","telnet://gone.test","termcast://gone.test/x","http://127.0.0.1:1/a","nosuch://127.0.0.1:1/a","http://127.0.0.1:1/b","tcp://aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa:1/x"}; o.url=string(b[s.draw(25)])+(s.flip(20)?"/x"+sx:""); break; }
            case 4: o.srv=1+(int)s.draw(5); o.url=string("telnet://@/x")+sx; o.mode=SM_READ; if (s.flip(30)) { Tel t; o.d=""; for (List m(s,4,20);m.next();) tel_token(s,t); o.d=t.wire; } break;
            case 5: o.srv=1+(int)s.draw(5); o.url="termcast://@/"+string(s.flip(80)?"me":""); o.mode=SM_READ; if (s.flip()) o.d="hello\r\n\e[3d a) me (idle"+o.d.substr(0,200); break;
            default: o.srv=1+(int)s.draw(5); o.url=string("tcp://@/x")+sx; if (o.srv==5) o.mode=SM_READ; if (o.srv==4&&!(o.mode&SM_WRITE)) o.srv=1; if (o.srv==3&&!(o.mode&SM_WRITE)) o.early=true,o.n=0; break; }
        else if (o.k==1) { o.url="x"+sx; o.mode=s.flip()?SM_WRITE:SM_READ; }
        else { o.url="x"+sx; o.mode=s.flip()?SM_WRITE:SM_READ; }
        if (o.srv==3) { o.early=true; o.n=0; }
        if (o.srv==5) { o.early=true; if (o.d.size()<100) o.d+=string(1000,'d'); }
        if (o.k==0&&o.srv&&o.url.compare(0,4,"tcp:")&&s.flip(12)) { o.mode=s.flip()?SM_WRITE:SM_APPEND; o.refuse=2; o.early=true; }
        if (o.k==0&&o.mode>=2&&o.mode<4&&(!o.url.compare(0,5,"http:")||!o.url.compare(0,7,"nosuch:"))) o.refuse=2;
        if (s.rare(8)) { o.k=3; o.url="-"; o.srv=0; o.refuse=0; o.mode=(int)s.draw(4); if (o.fault&&s.flip()) o.fault=7; }
        if (s.rare(30)) o.mode=4+(int)s.draw(3)*7,o.refuse=0; if (o.n==77&&o.k) o.n=78; ops.push_back(o); s.note("%s mode %d%s%s fault %d, %zu bytes%s",o.url.c_str(),o.mode,o.k==1?" on a socket":o.k==2?" on a device":o.k==3?" standard":"",o.srv==1?", server sends":o.srv==2?", server resets":o.srv==3?", server receives":o.srv==4?", server stays silent":o.srv==5?", server never stops":"",o.fault,o.d.size(),o.early?", early end":""); }
    if (ops.empty()) return;
    vector<int> order; { vector<int> st(ops.size(),0); size_t left=2*ops.size(); while (left) { size_t i=s.flip(60)? 0 : s.draw(ops.size()); for (size_t k=0;k<ops.size();k++) { size_t j=(i+k)%ops.size(); if (st[j]<2) { st[j]++; order.push_back((int)j); left--; break; } } } }
    int fd0=nfds(); int op=run_ops(ops,order,dir); CHECK(nfds()==fd0,"%d descriptors before, %d after all streams are closed",fd0,nfds());
    size_t a=alloc_bytes(); run_ops(ops,order,dir); size_t b=alloc_bytes(); if (b>a+600) { size_t base=b; bool grows=true; for (int i=0;i<3&&grows;i++) { run_ops(ops,order,dir); size_t c=alloc_bytes(); if (c<=base+600) grows=false; base=c; } CHECK(!grows,"memory grows by %zu bytes each time the same streams are used and closed",b-a); }
    CHECK(nfds()==fd0,"%d descriptors before, %d after repeating",fd0,nfds());
    s.label("operations",ops.size()); s.label("fault happened",hits); s.label("memory ran out in a thread",thr_hits); thr_hits=0; hits=0; s.label("opened",op); s.label("failed opens",ops.size()-op); for (auto &o:ops) { if (o.fault) s.label("injected fault"); if (o.srv) s.label("network"); if (o.early) s.label("abandoned early"); } s.nontrivial(ops.size()>=2);
}
static RegProp ps05({"S05",s05,2800,60000,24,280,false,30,"interleaved opening, use, early closing and failing of files, devices, sockets, compressions and servers, with injected failures of pipe and thread creation; afterwards descriptors, threads and memory are counted; non-trivial: at least two streams",0});
