#include "engine.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <locale.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <algorithm>
#include <unordered_set>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
size_t alloc_bytes() { return __sanitizer_get_current_allocated_bytes? __sanitizer_get_current_allocated_bytes() : 0; }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:handle_sigill=1:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=0:print_summary=1:max_allocation_size_mb=4000:hard_rss_limit_mb=3500:malloc_context_size=12"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }

const char *tools_dir="";
int engine_tier=0;

#define MAXCH (1u<<17)
#define MAXSP (1u<<16)
enum { S_IDLE, S_RUN, S_FAIL, S_DONE };
struct Slot {
    volatile int status;
    volatile u64 case_idx;
    volatile double start;
    volatile u32 n, nsp;
    volatile u32 overflow;
    volatile u64 doneidx;
    char msg[8192];
    Choice ch[MAXCH];
    Span sp[MAXSP];
};
static Slot *slot;                 // the slot of this process
static u32 spstack[4096]; static u32 spdepth;
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void register_prop(const Prop &p) { props().push_back(p); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ---------------------------------------------------------------- coverage
static std::vector<std::pair<u8*,u8*>> &cnts() { static std::vector<std::pair<u8*,u8*>> c; return c; }
extern "C" void __sanitizer_cov_8bit_counters_init(u8 *a, u8 *b) { if (a!=b) { for (auto &c:cnts()) if (c.first==a) return; cnts().push_back({a,b}); } }
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
#define DICTN 4096
static u64 dict[DICTN]; static volatile u32 dictn;
static u64 dhash[8192];
static bool cmp_on;
static inline void dict_add(u64 c) {
    if (!cmp_on || dictn>=DICTN) return;
    u32 h=(u32)((c*0x9e3779b97f4a7c15ull)>>51);
    for (int i=0;i<16;i++) { u64 &e=dhash[(h+i)&8191]; if (e==c+1) return; if (!e) { e=c+1; u32 k=dictn; if (k<DICTN) { dict[k]=c; dictn=k+1; } return; } }
}
extern "C" {
void __sanitizer_cov_trace_cmp1(u8,u8) {} void __sanitizer_cov_trace_cmp2(uint16_t,uint16_t) {}
void __sanitizer_cov_trace_cmp4(u32,u32) {} void __sanitizer_cov_trace_cmp8(u64,u64) {}
void __sanitizer_cov_trace_const_cmp1(u8 a,u8) { dict_add(a); } void __sanitizer_cov_trace_const_cmp2(uint16_t a,uint16_t) { dict_add(a); }
void __sanitizer_cov_trace_const_cmp4(u32 a,u32) { dict_add(a); } void __sanitizer_cov_trace_const_cmp8(u64 a,u64) { dict_add(a); }
void __sanitizer_cov_trace_switch(u64 v, u64 *c) { (void)v; if (!cmp_on) return; for (u64 i=0;i<c[0]&&i<300;i++) dict_add(c[2+i]); }
void __sanitizer_cov_trace_div4(u32) {} void __sanitizer_cov_trace_div8(u64) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
}

static void rec_stop(const char *why) { snprintf(slot->msg,sizeof slot->msg,"harness: %s",why); slot->overflow=1; _exit(78); }
void Src::record(u64 v,u64 n) { u32 k=slot->n; if (k>=MAXCH) rec_stop("too many choices"); slot->ch[k]={v,n}; slot->n=k+1; }
void Src::begin_span() { u32 k=slot->nsp; if (spdepth<4096) spstack[spdepth]=k<MAXSP?k:~0u; spdepth++; if (k<MAXSP) { slot->sp[k]={slot->n,~0u}; slot->nsp=k+1; } }
void Src::end_span() { if (!spdepth) return; spdepth--; if (spdepth<4096 && spstack[spdepth]!=~0u) slot->sp[spstack[spdepth]].b=slot->n; }
u64 Src::dictval() { u32 n=dictn; if (!n) return rng.below(256); u64 v=dict[rng.below(n)]; switch (rng.below(6)) { case 0: return v+1; case 1: return v-1; default: return v; } }
u64 Src::num(u64 n, std::initializer_list<u64> special) {
    return drawf(n, [&](Rng &r)->u64 {
        u64 v;
        switch (r.below(10)) {
        case 0: v=0; break;
        case 1: case 2: v=r.below(n<20&&n?n:20); break;
        case 3: case 4: if (special.size()) { v=*(special.begin()+r.below(special.size())); if (r.pct(20)) v+=r.below(3)-1; break; }
            // fallthrough
        case 5: v=dictval(); break;
        case 6: v=r.below(300); break;
        case 7: v=(1ull<<r.below(33))+r.below(3)-1; break;
        case 8: { static const u64 b[]={1,2,127,128,255,256,257,511,512,513,999,1000,4095,4096,32767,32768,65535,65536,0x7fffffff,0x80000000u,0xffffffffu,0xfffffffeu}; v=b[r.below(sizeof b/sizeof*b)]; } break;
        default: v=r.below(n);
        }
        return n? v%n : v;
    });
}
std::string Src::blob(size_t len) {
    u64 seed=draw(1u<<16); int style=(int)draw(6);
    Rng r; r.seed(seed*7+style);
    std::string s; s.reserve(len);
    while (s.size()<len) switch (style) {
        case 0: s.push_back('a'+r.below(26)); break;
        case 1: s.push_back((char)r.next()); break;
        case 2: s.append(r.below(300)+1,(char)('A'+r.below(50))); break;
        case 3: { char b[40]; s.append(b,snprintf(b,40,"line %u\r\n",(unsigned)r.below(100000))); } break;
        case 4: s.append((size_t)r.below(5)+1,(char)0); s.push_back((char)r.next()); break;
        default: { char b[40]; s.append(b,snprintf(b,40,"\033[%u;%uH\033[3%um%c",(unsigned)r.below(30),(unsigned)r.below(90),(unsigned)r.below(10),(char)(33+r.below(90)))); } }
    s.resize(len);
    return s;
}
static int notes_fd=-1;
void Src::note(const char *fmt, ...) { if (!verbose) return; char b[4096]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if (n>(int)sizeof b-1) n=sizeof b-1; notes.append(b,n); notes.push_back('\n'); if (notes_fd>=0) { b[n<4095?n:4095]='\n'; if (write(notes_fd,b,n+1)<0) return; } }
static std::map<std::string,u64> labels;
static u64 extra_evals;
void Src::label(const char *name,u64 k) { if (k) labels[name]+=k; }
void Src::evals(u64 n) { extra_evals+=n-1; }
void failf(const char *fmt, ...) {
    char b[8000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    if (slot) { if (slot->status!=S_FAIL) { strncpy(slot->msg,b,sizeof slot->msg-1); slot->status=S_FAIL; } }
    else fprintf(stderr,"%s\n",b);
    _exit(77);
}
std::string hex(const std::string &s,size_t max) { std::string r; char b[4]; for (size_t i=0;i<s.size()&&i<max;i++) { snprintf(b,4,"%02x",(u8)s[i]); r+=b; } if (s.size()>max) r+="..."; return r; }
std::string printable(const std::string &s,size_t max) {
    std::string r; char b[8];
    for (size_t i=0;i<s.size()&&i<max;i++) { u8 c=s[i]; if (c==27) r+="\\e"; else if (c=='\n') r+="\\n"; else if (c=='\\') r+="\\\\"; else if (c>=32&&c<127) r.push_back(c); else { snprintf(b,8,"\\x%02x",c); r+=b; } }
    if (s.size()>max) { r+="...("+std::to_string(s.size())+" bytes)"; }
    return r;
}
static std::string scratch_root; static std::string scr_dir; static pid_t scr_pid;
const char *scratch() {
    if (scr_pid!=getpid()) { scr_pid=getpid(); scr_dir=scratch_root+"/p"+std::to_string(getpid()); mkdir(scr_dir.c_str(),0700); }
    return scr_dir.c_str();
}
static int rmcb(const char *p,const struct stat*,int,struct FTW*) { remove(p); return 0; }
static void rmtree(const std::string &d) { if (d.compare(0,scratch_root.size(),scratch_root)==0 && scratch_root.size()>8) nftw(d.c_str(),rmcb,32,FTW_DEPTH|FTW_PHYS|FTW_MOUNT); }

// ---------------------------------------------------------------- running
static const Prop *P; static u64 seed; static int tier; static std::string workdir, outdir;
static u64 mix(u64 a,u64 b) { a^=b+0x9e3779b97f4a7c15ull+(a<<6)+(a>>2); a*=0xff51afd7ed558ccdull; return a^(a>>32); }
static u64 strh(const char *s) { u64 h=1469598103934665603ull; while (*s) h=(h^(u8)*s++)*1099511628211ull; return h; }

struct Entry { std::vector<Choice> ch; std::vector<Span> sp; };

static void run_one(Src &s) {
    slot->n=0; slot->nsp=0; spdepth=0; slot->msg[0]=0; slot->start=now(); slot->status=S_RUN;
    P->run(s);
    slot->status=S_IDLE;
}

static std::vector<u8> virgin;     // bucket bits seen
static bool cov_new() {
    bool nw=false; size_t k=0;
    for (auto &c:cnts()) for (u8 *p=c.first;p<c.second;p++,k++) if (*p) {
        u8 v=*p, b=v<2?1:v==2?2:v==3?4:v<8?8:v<16?16:v<32?32:v<128?64:128;
        if (!(virgin[k]&b)) { virgin[k]|=b; nw=true; }
    }
    return nw;
}
static void cov_clear() { for (auto &c:cnts()) memset(c.first,0,c.second-c.first); }
static size_t cov_size() { size_t k=0; for (auto &c:cnts()) k+=c.second-c.first; return k; }

static std::vector<Choice> mutate(Rng &r,const std::vector<Entry> &corp) {
    const Entry &e=corp[r.pct(50)? r.below(corp.size()) : corp.size()-1-r.below(std::min<size_t>(corp.size(),16))];
    std::vector<Choice> c=e.ch; const std::vector<Span> *sp=&e.sp;
    bool structural=false;
    int k=1+(int)r.below(4);
    while (k--) {
        if (c.empty()) break;
        int op=(int)r.below(12);
        if (structural && op>=6) op=r.below(6);  // spans are stale after a structural change
        if (op<6) {
            Choice &x=c[r.below(c.size())]; u64 n=x.n;
            switch (r.below(6)) { case 0: x.v=n? r.below(n) : r.next(); break; case 1: x.v=0; break; case 2: x.v=n-1; break; case 3: x.v++; break; case 4: x.v--; break;
                default: if (dictn) x.v=dict[r.below(dictn)]; }
            if (n) x.v%=n;
        } else if (sp->empty()) continue;
        else {
            structural=true;
            const Span &a=(*sp)[r.below(sp->size())]; u32 ab=std::min<u32>(a.b,c.size()); if (a.a>=ab) continue;
            std::vector<Choice> part(c.begin()+a.a,c.begin()+ab);
            switch (op) {
            case 6: c.erase(c.begin()+a.a,c.begin()+ab); break;
            case 7: { int rep=r.pct(20)? (int)r.below(40)+1 : 1; for (int i=0;i<rep && c.size()<20000;i++) c.insert(c.begin()+a.a,part.begin(),part.end()); } break;
            case 8: { const Span &b=(*sp)[r.below(sp->size())]; c.insert(c.begin()+std::min<size_t>(b.a,c.size()),part.begin(),part.end()); } break;
            case 9: { const Entry &o=corp[r.below(corp.size())]; if (o.sp.empty()) break; const Span &b=o.sp[r.below(o.sp.size())]; u32 bb=std::min<u32>(b.b,o.ch.size()); if (b.a<bb) c.insert(c.begin()+a.a,o.ch.begin()+b.a,o.ch.begin()+bb); } break;
            case 10: c.resize(a.a); break;   // regenerate the tail
            default: { const Entry &o=corp[r.below(corp.size())]; if (o.sp.empty()) break; const Span &b=o.sp[r.below(o.sp.size())]; c.resize(a.a); if (b.a<o.ch.size()) c.insert(c.end(),o.ch.begin()+b.a,o.ch.end()); }
            }
        }
    }
    if (c.size()>3000 && r.pct(95)) c.resize(3000);
    return c;
}

static std::string jstr(const std::string &s) {
    std::string r="\""; char b[8];
    for (u8 c:s) { if (c=='"'||c=='\\') { r.push_back('\\'); r.push_back(c); } else if (c<32||c>=127) { snprintf(b,8,"\\u%04x",c); r+=b; } else r.push_back(c); }
    return r+"\"";
}

static void redirect_std(const std::string &f) { int fd=open(f.c_str(),O_RDWR|O_CREAT|O_APPEND|O_TRUNC,0600); dup2(fd,2); if (fd>2) close(fd); int n=open("/dev/null",O_RDWR); dup2(n,0); dup2(n,1); if (n>2) close(n); }

static void worker(int w,int W,u64 from,u64 ncases,double deadline,const std::string &res) {
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    redirect_std(workdir+"/err"+std::to_string(w));
    labels.clear(); extra_evals=0;
    std::unordered_set<u64> nth; std::vector<std::vector<Choice>> samples; u64 ntotal=0, evals=0, mutated=0;
    std::vector<Entry> corp; if (P->cov) virgin.assign(cov_size(),0);
    cmp_on=true;
    u64 i; u64 stop_idx=0; bool capped=false; double tsum=0; u64 tn=1;
    for (i=from; i<ncases; i+=W) {
        if ((evals&15)==0 && now()>deadline) { capped=true; stop_idx=i; break; }
        if ((evals&1023)==1023) { if (ftruncate(2,0)) {} }
        Src s; s.tier=tier; s.case_idx=i; s.rng.seed(mix(mix(seed,strh(P->id)),i));
        std::vector<Choice> pre;
        if (P->cov && corp.size()>4 && s.rng.pct(50)) { pre=mutate(s.rng,corp); s.pre=pre.data(); s.npre=pre.size(); mutated++; }
        slot->case_idx=i;
        if (P->cov) cov_clear();
        double tc=now();
        run_one(s);
        tc=now()-tc; evals++;
        if (pre.empty()) { tsum+=tc; tn++; }
        if (P->cov && cov_new() && slot->n<8000 && corp.size()<4000 && (tn<50 || tc<8*tsum/tn)) { Entry e; e.ch.assign(slot->ch,slot->ch+slot->n); e.sp.assign(slot->sp,slot->sp+slot->nsp); for (auto &x:e.sp) if (x.b==~0u) x.b=slot->n; corp.push_back(std::move(e)); }
        if (s.is_nontrivial) {
            u64 h=slot->n; for (u32 k=0;k<slot->n;k++) h=mix(h,slot->ch[k].v);
            ntotal++;
            if (nth.insert(h).second && samples.size()<3 && (ntotal<3 || ntotal%997==0)) samples.emplace_back(slot->ch,slot->ch+slot->n);
        }
    }
    // report
    FILE *f=fopen((res+".tmp").c_str(),"w");
    size_t edges=0; for (u8 v:virgin) edges+=v!=0;
    fprintf(f,"%llu %llu %zu %zu %zu %d %llu\n",(unsigned long long)(evals+extra_evals),(unsigned long long)evals,corp.size(),edges,virgin.size(),(int)capped,(unsigned long long)mutated);
    fprintf(f,"%zu\n",labels.size()); for (auto &l:labels) fprintf(f,"%llu %s\n",(unsigned long long)l.second,l.first.c_str());
    fprintf(f,"%zu\n",nth.size()); for (u64 h:nth) fprintf(f,"%llx\n",(unsigned long long)h);
    fprintf(f,"%zu\n",samples.size()); for (auto &s:samples) { fprintf(f,"%zu",s.size()); for (auto &c:s) fprintf(f," %llu %llu",(unsigned long long)c.v,(unsigned long long)c.n); fprintf(f,"\n"); }
    fclose(f); rename((res+".tmp").c_str(),res.c_str());
    slot->status=S_DONE;
    rmtree(scratch());
    _exit(0);
}

static Slot *mkslot() { void *p=mmap(0,sizeof(Slot),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (p==MAP_FAILED) { perror("mmap"); exit(3); } return (Slot*)p; }

static std::string tailfile(const std::string &f,size_t max=6000) { std::string r; FILE *h=fopen(f.c_str(),"r"); if (!h) return r; char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,h))>0) { r.append(b,n); if (r.size()>4*65536) r.erase(0,r.size()-2*65536); } fclose(h);
    size_t p=r.find("==ERROR"); if (p==std::string::npos) p=r.find("runtime error"); if (p!=std::string::npos) { r=r.substr(p); if (r.size()>max) r.resize(max); } else if (r.size()>max) r=r.substr(r.size()-max); return r; }

static void kill_tree(pid_t p) { kill(-p,SIGKILL); kill(p,SIGKILL); }

// run a choice sequence in a child; 0 = passed, 1 = failed, 2 = timeout, 3 = harness trouble
struct Res { int rc; std::string msg; std::vector<Choice> ch; std::vector<Span> sp; std::string notes; };
static Slot *tslot;
static Res run_child(const std::vector<Choice> &c,int timeout,bool verbose=false) {
    if (!tslot) tslot=mkslot();
    std::string errf=workdir+"/errc", nf=workdir+"/notes";
    unlink(nf.c_str());
    tslot->status=S_IDLE; tslot->overflow=0;
    pid_t p=fork();
    if (!p) {
        setpgid(0,0); prctl(PR_SET_PDEATHSIG,SIGKILL);
        redirect_std(errf);
        slot=tslot; cmp_on=false;
        if (verbose) notes_fd=open(nf.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0600);
        Src s; s.tier=tier; s.pre=c.data(); s.npre=c.size(); s.tail_random=false; s.verbose=verbose; s.rng.seed(1);
        run_one(s);
        slot->status=S_DONE;
        rmtree(scratch());
        _exit(0);
    }
    setpgid(p,p);
    double t0=now(); int st=0; int rc; bool to=false;
    while (1) { pid_t q=waitpid(p,&st,WNOHANG); if (q==p) break; if (now()-t0>timeout) { to=true; kill_tree(p); waitpid(p,&st,0); break; } usleep(now()-t0<0.05?200:2000); }
    kill(-p,SIGKILL);
    rmtree(scratch_root+"/p"+std::to_string(p));
    Res r;
    if (to) rc=2, r.msg="no end within "+std::to_string(timeout)+" s";
    else if (tslot->overflow) rc=3;
    else if (tslot->status==S_DONE && WIFEXITED(st) && !WEXITSTATUS(st)) rc=0;
    else if (tslot->status!=S_FAIL && WIFEXITED(st) && WEXITSTATUS(st)==77) rc=3, r.msg="the harness lacks something";
    else { rc=1; r.msg=tslot->msg; if (tslot->status!=S_FAIL) { char b[100]; snprintf(b,100,"process ended abnormally (status 0x%x)\n",st); r.msg=b+tailfile(errf); } }
    r.rc=rc; r.ch.assign(tslot->ch,tslot->ch+tslot->n); r.sp.assign(tslot->sp,tslot->sp+tslot->nsp); for (auto &x:r.sp) if (x.b==~0u||x.b>r.ch.size()) x.b=r.ch.size();
    if (verbose) { FILE *f=fopen(nf.c_str(),"r"); if (f) { char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) r.notes.append(b,n); fclose(f); } }
    return r;
}

static bool smaller(const std::vector<Choice> &a,const std::vector<Choice> &b) { if (a.size()!=b.size()) return a.size()<b.size(); for (size_t i=0;i<a.size();i++) if (a[i].v!=b[i].v) return a[i].v<b[i].v; return false; }

static Res shrink(Res best,double budget,int want,int to,u64 &tried) {
    double end=now()+budget;
    auto attempt=[&](const std::vector<Choice> &c)->bool { tried++; Res r=run_child(c,to); if (r.rc==want && smaller(r.ch,best.ch)) { best=r; return true; } return false; };
    bool progress=true;
    while (progress && now()<end) {
        progress=false;
        // delete spans, largest first
        std::vector<Span> sp=best.sp; std::sort(sp.begin(),sp.end(),[](const Span&a,const Span&b){ return a.b-a.a>b.b-b.a; });
        for (size_t i=0;i<sp.size() && now()<end;i++) {
            Span x=sp[i]; if (x.b>best.ch.size()||x.a>=x.b) continue;
            std::vector<Choice> c=best.ch; c.erase(c.begin()+x.a,c.begin()+x.b);
            if (attempt(c)) { progress=true; sp=best.sp; std::sort(sp.begin(),sp.end(),[](const Span&a,const Span&b){ return a.b-a.a>b.b-b.a; }); if (i>2) i-=2; else i=(size_t)-1; }
        }
        // truncate
        for (size_t k=best.ch.size();k>=1 && now()<end;k/=2) { if (best.ch.size()<=k) continue; std::vector<Choice> c(best.ch.begin(),best.ch.end()-k); while (now()<end && attempt(c)) { progress=true; if (best.ch.size()<=k) break; c.assign(best.ch.begin(),best.ch.end()-k); } }
        // delete runs of choices
        for (size_t k=8;k>=1 && now()<end;k/=2) for (size_t i=0;i+k<=best.ch.size() && now()<end;) { std::vector<Choice> c=best.ch; c.erase(c.begin()+i,c.begin()+i+k); if (attempt(c)) progress=true; else i++; }
        // lower values
        for (size_t i=0;i<best.ch.size() && now()<end;i++) {
            u64 v=best.ch[i].v; if (!v) continue;
            std::vector<Choice> c=best.ch; c[i].v=0; if (attempt(c)) { progress=true; continue; }
            u64 lo=0, hi=v;  // binary search
            while (hi-lo>1 && now()<end && i<best.ch.size()) { u64 m=lo+(hi-lo)/2; c=best.ch; c[i].v=m; if (attempt(c)) { progress=true; hi=i<best.ch.size()?best.ch[i].v:0; if (hi<=lo) break; } else lo=m; }
        }
    }
    return best;
}

static void write_replay(const std::string &path,const Res &r) {
    FILE *f=fopen(path.c_str(),"w"); if (!f) return;
    fprintf(f,"property %s\ntier %d\nchoices %zu\n",P->id,tier,r.ch.size());
    for (auto &c:r.ch) fprintf(f,"%llu %llu\n",(unsigned long long)c.v,(unsigned long long)c.n);
    fprintf(f,"--- failure\n%s\n--- case\n%s\n",r.msg.c_str(),r.notes.c_str()); fclose(f);
}

int main(int argc,char **argv) {
    std::string id, res="result.json", replay; int W=0; double capmul=1; u64 over=0; bool noshrink=false;
    for (int i=1;i<argc;i++) { std::string a=argv[i];
        if (a=="--seed") seed=strtoull(argv[++i],0,0); else if (a=="--tier") tier=!strcmp(argv[++i],"thorough"); else if (a=="--out") outdir=argv[++i];
        else if (a=="--work") workdir=argv[++i]; else if (a=="--result") res=argv[++i]; else if (a=="--replay") replay=argv[++i]; else if (a=="--workers") W=atoi(argv[++i]);
        else if (a=="--tools") tools_dir=argv[++i]; else if (a=="--noshrink") noshrink=true; else if (a=="--cap") capmul=atof(argv[++i]); else if (a=="--cases") over=strtoull(argv[++i],0,0);
        else if (a=="--list") { for (auto &p:props()) printf("%s\n",p.id); return 0; } else id=a; }
    engine_tier=tier;
    setlocale(LC_ALL,"C.UTF-8"); signal(SIGPIPE,SIG_DFL);
    if (workdir.empty()) { fprintf(stderr,"--work needed\n"); return 3; }
    scratch_root=workdir+"/scratch"; mkdir(scratch_root.c_str(),0700);
    std::vector<Choice> rc;
    if (!replay.empty()) { FILE *f=fopen(replay.c_str(),"r"); if (!f) { perror(replay.c_str()); return 3; } char b[64]; size_t n; if (fscanf(f,"property %63s\ntier %d\nchoices %zu\n",b,&tier,&n)!=3) return 3; engine_tier=tier; id=b; while (n--) { unsigned long long v,m; if (fscanf(f,"%llu %llu",&v,&m)!=2) return 3; rc.push_back({v,m}); } fclose(f); }
    for (auto &p:props()) if (id==p.id) P=&p;
    if (!P) { fprintf(stderr,"unknown property %s\n",id.c_str()); return 3; }
    if (!replay.empty()) { Res r=run_child(rc,P->case_timeout*3,false); Res v=run_child(rc,P->case_timeout*3,true); printf("%s\n%s\n%s\n",v.notes.c_str(),r.rc==1||r.rc==2?"FAILS":"passes",r.msg.c_str()); return r.rc?1:0; }
    u64 ncases=over? over : tier? P->thorough : P->quick; double cap=(tier? P->thorough_s : P->quick_s)*capmul;
    if (!W) W=P->workers? P->workers : 8;
    double t0=now(), deadline=t0+cap;
    std::vector<Slot*> sl(W); std::vector<pid_t> pid(W); std::vector<u64> from(W); std::vector<int> part(W,0);
    std::vector<std::string> resf;
    auto spawn=[&](int w) { sl[w]->status=S_IDLE; sl[w]->start=now(); sl[w]->overflow=0; std::string rf=workdir+"/res"+std::to_string(w)+"."+std::to_string(part[w]++); unlink(rf.c_str()); resf.push_back(rf); fflush(0); pid_t p=fork(); if (!p) { setpgid(0,0); slot=sl[w]; worker(w,W,from[w],ncases,deadline,rf); } setpgid(p,p); pid[w]=p; };
    for (int w=0;w<W;w++) { sl[w]=mkslot(); from[w]=w; spawn(w); }
    int alive=W; bool violated=false; Res vio; u64 flaky=0, timeouts=0, lost=0, tried=0, harness_err=0; std::string flakymsg; Res unsure; double extra=0;
    while (alive && !violated && flaky<200) {
        int st; bool any=false;
        for (int w=0;w<W;w++) if (pid[w]) {
            pid_t q=waitpid(pid[w],&st,WNOHANG); bool hang=false;
            if (!q) { if (sl[w]->status==S_RUN && now()-sl[w]->start>P->case_timeout) { hang=true; kill_tree(pid[w]); waitpid(pid[w],&st,0); } else continue; }
            kill(-pid[w],SIGKILL);
            any=true;
            if (!hang && WIFEXITED(st) && !WEXITSTATUS(st) && sl[w]->status==S_DONE) { pid[w]=0; alive--; continue; }
            // a failure: confirm it
            std::vector<Choice> c(sl[w]->ch,sl[w]->ch+sl[w]->n);
            std::string msg=sl[w]->status==S_FAIL? sl[w]->msg : tailfile(workdir+"/err"+std::to_string(w));
            rmtree(scratch_root+"/p"+std::to_string(pid[w]));
            bool lacking=!hang && sl[w]->status!=S_FAIL && WIFEXITED(st) && WEXITSTATUS(st)==77;
            if (sl[w]->overflow || lacking) harness_err++;
            else {
                // the other workers would disturb timing: stop them while confirming
                for (int k=0;k<W;k++) if (k!=w && pid[k]) kill(-pid[k],SIGSTOP);
                double ts=now();
                Res r[3]; int bad=0; for (int k=0;k<3;k++) { r[k]=run_child(c,P->case_timeout); if (r[k].rc==1||r[k].rc==2) bad++; else break; if (r[k].rc==2 && hang && k==1) { bad=3; break; } }  // (a case takes milliseconds: three times the whole limit, twice alone, is a hang)
                // a race may need many tries
                if (bad<3 && !hang && flaky<3) { int again=0; double t1=now(); for (int k=0;k<60&&now()-t1<10&&again<4;k++) { Res q=run_child(c,P->case_timeout); if (q.rc==1) { again++; q.msg="(not each time) "+q.msg; r[0]=q; } } if (again>=4) bad=3; }
                if (bad==3) { violated=true; vio=r[0]; vio.rc=r[0].rc; if (vio.rc==2) vio.ch=c; }
                else { if (hang) timeouts++; else { flaky++; if (flaky<=3) { for (auto &x:r) if (!x.ch.empty()||!x.notes.empty()) { write_replay(workdir+"/flaky"+std::to_string(flaky)+".replay",x); break; } } if (flakymsg.empty()) flakymsg=msg.substr(0,600); unsure.ch=c; unsure.msg=msg; unsure.rc=1; } double d=now()-ts; if (extra<200) deadline+=d; extra+=d; for (int k=0;k<W;k++) { if (k!=w && pid[k]) { sl[k]->start=sl[k]->start+d; kill(-pid[k],SIGCONT); } } }
            }
            if (!violated && flaky>=200) break;   // see below
            if (!violated) { from[w]=sl[w]->case_idx+W; lost++; if (lost>200) { pid[w]=0; alive--; } else spawn(w); }
            else { pid[w]=0; alive--; }
            if (violated) break;
        }
        if (!any) usleep(3000);
    }
    for (int w=0;w<W;w++) if (pid[w]) { kill(-pid[w],SIGCONT); kill_tree(pid[w]); waitpid(pid[w],0,0); }
    std::string rp;
    if (violated) {
        Res s=vio;
        if (vio.rc==1&&!noshrink) s=shrink(vio,tier?60:20,1,P->case_timeout,tried);
        int bad=0; Res r; if (vio.rc==2) bad=3; else for (int k=0;k<3;k++) { r=run_child(s.ch,P->case_timeout); if (r.rc==1||r.rc==2) bad++; }
        if (bad<3) { s=vio; }
        Res v=run_child(s.ch,P->case_timeout,true); s.notes=v.notes;
        rp=outdir+"/"+P->id+"-seed"+std::to_string(seed)+".replay"; write_replay(rp,s); vio=s;
    }
    // merge
    u64 evals=0,cases=0,corp=0,edges=0,edgetot=0,capped=0,mut=0; std::map<std::string,u64> lab; std::unordered_set<u64> nth; std::vector<std::vector<Choice>> samples;
    for (auto &rf:resf) { FILE *f=fopen(rf.c_str(),"r"); if (!f) continue; unsigned long long a,b,m; size_t c,e,et,n; int cp; if (fscanf(f,"%llu %llu %zu %zu %zu %d %llu\n",&a,&b,&c,&e,&et,&cp,&m)!=7) { fclose(f); continue; } evals+=a; cases+=b; corp+=c; edges=std::max<u64>(edges,e); edgetot=et; capped+=cp; mut+=m;
        char nm[300]; if (fscanf(f,"%zu\n",&n)==1) while (n--) { if (fscanf(f,"%llu %299[^\n]\n",&a,nm)==2) lab[nm]+=a; }
        if (fscanf(f,"%zu\n",&n)==1) while (n--) { if (fscanf(f,"%llx\n",&a)==1) nth.insert(a); }
        if (fscanf(f,"%zu\n",&n)==1) while (n--) { size_t k; if (fscanf(f,"%zu",&k)!=1) break; std::vector<Choice> s; while (k--) { if (fscanf(f," %llu %llu",&a,&b)!=2) break; s.push_back({a,b}); } samples.push_back(s); }
        fclose(f); }
    // failures that don't come back each time, but too many to be chance
    if (!violated && flaky>=40 && flaky*50>=cases) { violated=true; vio=unsure; vio.msg="not reproducible each time, but "+std::to_string(flaky)+" of "+std::to_string(cases+flaky)+" cases fail: "+unsure.msg; rp=outdir+"/"+P->id+"-seed"+std::to_string(seed)+".replay"; write_replay(rp,vio); }
    std::vector<std::string> txt; std::sort(samples.begin(),samples.end(),[](auto &a,auto &b){ return a.size()<b.size(); });
    for (size_t i=0;i<samples.size() && txt.size()<4;i+=1+samples.size()/4) { Res r=run_child(samples[i],P->case_timeout,true); if (r.rc==0 && !r.notes.empty()) { if (r.notes.size()>1500) r.notes=r.notes.substr(0,1500)+"..."; txt.push_back(r.notes); } }
    FILE *f=fopen(res.c_str(),"w"); if (!f) { perror(res.c_str()); return 3; }
    fprintf(f,"{\"property\":%s,\"evaluations\":%llu,\"cases\":%llu,\"planned_cases\":%llu,\"distinct_nontrivial\":%zu,\"rule\":%s,\"wall_s\":%.2f,\"workers\":%d,\"workers_stopped_by_time_cap\":%llu,\"mutated_cases\":%llu,\"corpus\":%llu,\"counters_hit\":%llu,\"counters_total\":%llu,\"flaky\":%llu,\"flaky_first\":%s,\"inconclusive_timeouts\":%llu,\"harness_overflow\":%llu,\"shrink_attempts\":%llu,\n\"labels\":{",
        jstr(P->id).c_str(),(unsigned long long)evals,(unsigned long long)cases,(unsigned long long)ncases,nth.size(),jstr(P->rule).c_str(),now()-t0,W,(unsigned long long)capped,(unsigned long long)mut,(unsigned long long)corp,(unsigned long long)edges,(unsigned long long)edgetot,(unsigned long long)flaky,jstr(flakymsg).c_str(),(unsigned long long)timeouts,(unsigned long long)harness_err,(unsigned long long)tried);
    bool first=true; for (auto &l:lab) { fprintf(f,"%s%s:%llu",first?"":",",jstr(l.first).c_str(),(unsigned long long)l.second); first=false; }
    fprintf(f,"},\n\"samples\":["); first=true; for (auto &t:txt) { fprintf(f,"%s%s",first?"":",",jstr(t).c_str()); first=false; }
    fprintf(f,"],\n\"violation\":%s,\"message\":%s,\"replay\":%s}\n",violated?"true":"false",jstr(vio.msg.substr(0,3000)).c_str(),jstr(rp).c_str());
    fclose(f);
    rmtree(scratch_root);
    return violated?1:0;
}
