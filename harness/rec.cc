#include "rec.h"
#include "vt.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
#include <algorithm>
#include <errno.h>
#include <time.h>
using std::string; using std::vector;

// ---------------------------------------------------------------- playing
static u64 play_limit=1ull<<30;
static void cb_init(const struct timeval *t,void *a) { Trace *r=(Trace*)a; CHECK(t->tv_usec>=0&&t->tv_usec<1000000,"the start has %ld microseconds",(long)t->tv_usec); r->ev.push_back({0,t->tv_sec,t->tv_usec,""}); }
static void cb_wait(const struct timeval *t,void *a) { Trace *r=(Trace*)a; CHECK(t->tv_usec>=0&&t->tv_usec<1000000,"a delay has %ld microseconds (and %ld seconds)",(long)t->tv_usec,(long)t->tv_sec); r->ev.push_back({1,t->tv_sec,t->tv_usec,""}); }
static void cb_print(const char *b,int n,void *a) { Trace *r=(Trace*)a; CHECK(n>0,"a chunk of length %d was delivered",n); r->bytes+=n; CHECK(r->bytes<play_limit,"endless data"); r->ev.push_back({2,0,0,string(b,n)}); }
Trace play(int fd,const char *f,const char *name) {
    Trace r; r.ret=ttyrec_r_play(fd,f,name,cb_init,cb_wait,cb_print,&r);
    int st=0; for (auto &e:r.ev) if (e.k==0) st++;
    CHECK(st<=1,"%d start times delivered",st);
    return r;
}
string Norm::data() const { string r; for (auto &p:seg) r+=p.second; return r; }
Norm norm(const Trace &t) {
    Norm n; i64 now=0;
    for (auto &e:t.ev) switch (e.k) {
        case 0: n.started=true; n.start=e.s*1000000+e.us; break;
        case 1: now+=e.s*1000000+e.us; break;
        case 2: if (n.seg.empty()||n.seg.back().first!=now) n.seg.push_back({now,e.d}); else n.seg.back().second+=e.d; break; }
    n.end=now; return n;
}
Norm expect(i64 start,const vector<Frame> &f,i64 first) {
    Norm n; n.started=true; n.start=start;
    for (auto &x:f) { i64 t=x.t-first; if (!x.d.empty()) { if (n.seg.empty()||n.seg.back().first!=t) n.seg.push_back({t,x.d}); else n.seg.back().second+=x.d; } n.end=t; }
    return n;
}
static i64 iabs(i64 x) { return x<0?-x:x; }
string normdiff(const Norm &g,const Norm &w,bool timing,i64 tol) {
    char b[1500];
    if (timing && (g.started!=w.started || g.start!=w.start)) { snprintf(b,sizeof b,"start time %lld instead of %lld",(long long)(g.started?g.start:-1),(long long)(w.started?w.start:-1)); return b; }
    string gd=g.data(), wd=w.data();
    size_t k=0; while (k<gd.size()&&k<wd.size()&&gd[k]==wd[k]) k++;
    if (k<gd.size()||k<wd.size()) { snprintf(b,sizeof b,"%zu bytes of data instead of %zu, they differ from %zu: %s instead of %s",gd.size(),wd.size(),k,printable(gd.substr(k,60),120).c_str(),printable(wd.substr(k,60),120).c_str()); return b; }
    if (!timing) return "";
    // the same bytes at the same times
    size_t i=0,j=0,pi=0,pj=0;
    while (i<g.seg.size()&&j<w.seg.size()) {
        if (iabs(g.seg[i].first-w.seg[j].first)>tol) { size_t pos=0; for (size_t q=0;q<j;q++) pos+=w.seg[q].second.size(); snprintf(b,sizeof b,"byte %zu (%s) is shown at %lld us instead of %lld us",pos+pj,printable(w.seg[j].second.substr(pj,20)).c_str(),(long long)g.seg[i].first,(long long)w.seg[j].first); return b; }
        size_t n=std::min(g.seg[i].second.size()-pi,w.seg[j].second.size()-pj); pi+=n; pj+=n;
        if (pi==g.seg[i].second.size()) i++,pi=0;
        if (pj==w.seg[j].second.size()) j++,pj=0;
    }
    if (iabs(g.end-w.end)>tol) { snprintf(b,sizeof b,"the recording lasts %lld us instead of %lld us",(long long)g.end,(long long)w.end); return b; }
    return "";
}
string show(const Norm &n) { string r; char b[100]; if (n.started) { snprintf(b,100,"start %lld.%06lld; ",(long long)(n.start/1000000),(long long)(n.start%1000000)); r+=b; } int k=0; for (auto &p:n.seg) { if (k++>6) { r+="..."; break; } snprintf(b,100,"@%lld ",(long long)p.first); r+=b+printable(p.second,60)+" "; } return r; }
struct timeval tv(i64 us) { struct timeval t; t.tv_sec=us/1000000; t.tv_usec=us%1000000; if (t.tv_usec<0) t.tv_usec+=1000000,t.tv_sec--; return t; }

// ---------------------------------------------------------------- files
string tmpname(const char *suf) { static int n; return string(scratch())+"/f"+std::to_string(n++)+suf; }
void put_file(const string &n,const string &d) { int f=open(n.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if (f==-1) { fprintf(stderr,"harness: %s: %s\n",n.c_str(),strerror(errno)); _exit(77); } size_t o=0; while (o<d.size()) { ssize_t r=write(f,d.data()+o,d.size()-o); if (r<=0) _exit(77); o+=r; } close(f); }
string get_file(const string &n) { int f=open(n.c_str(),O_RDONLY); CHECK(f!=-1,"%s does not exist",n.c_str()); string r=read_all(f); close(f); return r; }
bool file_exists(const string &n) { struct stat s; return !stat(n.c_str(),&s); }
int mem_fd(const string &d) { int f=memfd_create("rec",0); size_t o=0; while (o<d.size()) { ssize_t r=write(f,d.data()+o,d.size()-o); if (r<=0) _exit(77); o+=r; } lseek(f,0,SEEK_SET); return f; }
string read_all(int fd) { string r; char b[65536]; ssize_t n; while ((n=read(fd,b,sizeof b))>0||(n<0&&errno==EINTR)) if (n>0) { r.append(b,n); CHECK(r.size()<(1u<<30),"endless data"); } return r; }
static int count_dir(const char *d) { DIR *x=opendir(d); int n=0; while (readdir(x)) n++; closedir(x); return n-2; }
int nfds() { return count_dir("/proc/self/fd")-1; }
// the kernel's own count: reading /proc/self/task may miss threads while others end
int nthreads() { char b[1024]; int f=open("/proc/self/stat",O_RDONLY|O_CLOEXEC); if (f==-1) _exit(77); ssize_t n=read(f,b,sizeof b-1); close(f); if (n<=0) _exit(77); b[n]=0; char *p=strrchr(b,')'); if (!p) _exit(77); int v=0; for (int k=0;*p&&k<18;p++) if (*p==' '&&++k==18) v=atoi(p+1); return v; }
bool wait_threads(double sec) { struct timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a); while (nthreads()>1) { clock_gettime(CLOCK_MONOTONIC,&b); if (b.tv_sec-a.tv_sec+(b.tv_nsec-a.tv_nsec)*1e-9>sec) return false; usleep(100); } return true; }

// ---------------------------------------------------------------- compression
const char *comp_ext[4]={".gz",".bz2",".xz",".zst"};
string compress_ref(int k,const string &d,int level) {
    string out;
    switch (k) {
    case 0: { z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,1+level%9,Z_DEFLATED,15+16,8,level%5); out.resize(deflateBound(&z,d.size())+64); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); z.next_out=(Bytef*)&out[0]; z.avail_out=out.size(); deflate(&z,Z_FINISH); out.resize(z.total_out); deflateEnd(&z); break; }
    case 1: { unsigned n=d.size()+d.size()/50+1000; out.resize(n); BZ2_bzBuffToBuffCompress(&out[0],&n,(char*)d.data(),d.size(),1+level%9,0,0); out.resize(n); break; }
    case 2: { size_t n=lzma_stream_buffer_bound(d.size()), p=0; out.resize(n); lzma_easy_buffer_encode(level%4,level&8?LZMA_CHECK_CRC32:LZMA_CHECK_CRC64,0,(const u8*)d.data(),d.size(),(u8*)&out[0],&p,n); out.resize(p); break; }
    case 3: { ZSTD_CCtx *c=ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c,ZSTD_c_compressionLevel,1+level%9); ZSTD_CCtx_setParameter(c,ZSTD_c_checksumFlag,level&1); out.resize(ZSTD_compressBound(d.size())); size_t n=ZSTD_compress2(c,&out[0],out.size(),d.data(),d.size()); out.resize(n); ZSTD_freeCCtx(c); break; }
    }
    return out;
}
string decompress_ref(int k,const string &d,bool *ok) {
    string out; bool good=true; char b[65536]; size_t pos=0; if (ok) *ok=true;
    switch (k) {
    case 0: while (pos<d.size()&&good) { z_stream z; memset(&z,0,sizeof z); inflateInit2(&z,15+16); z.next_in=(Bytef*)d.data()+pos; z.avail_in=d.size()-pos; int r; do { z.next_out=(Bytef*)b; z.avail_out=sizeof b; r=inflate(&z,Z_NO_FLUSH); out.append(b,sizeof b-z.avail_out); } while (r==Z_OK); if (r!=Z_STREAM_END) good=false; pos+=z.total_in; inflateEnd(&z); } break;
    case 1: while (pos<d.size()&&good) { bz_stream z; memset(&z,0,sizeof z); BZ2_bzDecompressInit(&z,0,0); z.next_in=(char*)d.data()+pos; unsigned a=z.avail_in=d.size()-pos; int r; do { z.next_out=b; z.avail_out=sizeof b; unsigned was=z.avail_in; r=BZ2_bzDecompress(&z); out.append(b,sizeof b-z.avail_out); if (r==BZ_OK&&z.avail_in==was&&z.avail_out==sizeof b) break; } while (r==BZ_OK); if (r!=BZ_STREAM_END) good=false; pos+=a-z.avail_in; BZ2_bzDecompressEnd(&z); } if (d.empty()) good=false; break;
    case 2: { lzma_stream z=LZMA_STREAM_INIT; if (lzma_stream_decoder(&z,UINT64_MAX,LZMA_CONCATENATED)!=LZMA_OK) _exit(77); z.next_in=(const u8*)d.data(); z.avail_in=d.size(); lzma_ret r; do { z.next_out=(u8*)b; z.avail_out=sizeof b; r=lzma_code(&z,LZMA_FINISH); out.append(b,sizeof b-z.avail_out); } while (r==LZMA_OK); good=r==LZMA_STREAM_END; lzma_end(&z); break; }
    case 3: { ZSTD_DStream *z=ZSTD_createDStream(); ZSTD_initDStream(z); ZSTD_inBuffer in={d.data(),d.size(),0}; size_t r=0; for (;;) { ZSTD_outBuffer o={b,sizeof b,0}; size_t was=in.pos; r=ZSTD_decompressStream(z,&o,&in); out.append(b,o.pos); if (ZSTD_isError(r)) { good=false; break; } if (in.pos==in.size&&(!r||o.pos<sizeof b)) break; if (in.pos==was&&!o.pos) break; } if (r&&good) good=false; ZSTD_freeDStream(z); break; }
    }
    if (ok) *ok=good;
    return out;
}

// ---------------------------------------------------------------- data
string gen_data(Src &s,int big) {
    if (big && s.flip(big)) { // around and beyond the buffers of 32 KB and 64 KB
        static const int base[]={32768,65536,4096,98304}; int n=base[s.weighted({6,2,2,1})]+(int)s.draw(7)-3; if (s.flip(20)) n+=(int)s.draw(40000); return s.blob(n); }
    string r;
    for (List l(s,3,30);l.next();) switch (s.weighted({6,3,2,2,1,1})) {
        case 0: { int n=1+(int)s.num(12); while (n--) r+=(char)('a'+s.draw(26)); break; }
        case 1: r+=(char)s.draw(256); break;
        case 2: { static const char *q[]={"\e[31m","\e[2J","\e[8;30;100t","\r\n","\e]0;t\a","\e%G","\e[8;25;80t"}; r+=q[s.draw(7)]; break; }
        case 3: r+='\0'; break;
        case 4: r+=s.blob(s.num(400)); break;
        case 5: r+=utf8(s.draw(2)?0x20ac:0x1f600); break; }
    return r;
}
string gen_text(Src &s,int avg) {
    string r;
    for (List l(s,avg,avg*20);l.next();) switch (s.weighted({6,4,3,3,2,2,1})) {
        case 0: { int n=1+(int)s.num(10); while (n--) r+=(char)(' '+s.draw(95)); break; }
        case 1: r+=(char)s.draw(32); break;
        case 2: r+="\"\\/\x7f"[s.draw(4)]; break;
        case 3: { u32 c; switch (s.draw(4)) { case 0: c=0x80+s.num(0x780); break; case 1: c=0x800+s.num(0xf800); break; default: c=0x10000+s.num(0x100000); } if (c>=0xd800&&c<0xe000) c=0xd7ff; r+=utf8(c); break; }
        case 4: { static const char *q[]={"\e[1m","\\n","\\u0041","\\\"","],[","\"o\"","}","{","\r\n"}; r+=q[s.draw(9)]; break; }
        case 5: r+=utf8(0x20ac); break;
        case 6: r+=string(s.num(300),'x'); break; }
    return r;
}
i64 gen_delay(Src &s) {
    switch (s.weighted({4,3,3,2,1})) {
    case 0: return s.num(2000000,{0,1,999999,1000000});
    case 1: return s.num(100)*10000;
    case 2: return s.draw(20)*500000;
    case 3: return 4999998+(i64)s.draw(5);
    default: return (i64)s.num(3600*24*30)*1000000+s.draw(1000000); }
}
vector<Frame> gen_frames(Src &s,bool text,int avg,int max,int big,i64 t0,bool zero) {
    vector<Frame> f; i64 t=t0;
    for (List l(s,avg,max);l.next();) { if (!f.empty()||s.flip(30)) if (!s.flip(15)) t+=gen_delay(s); string d=text?gen_text(s,3):gen_data(s,big); if (d.empty()&&!zero) d="."; f.push_back({t,d}); }
    return f;
}

// ---------------------------------------------------------------- encoders
static void le32(string &o,u32 v) { for (int i=0;i<4;i++) o+=(char)(v>>(8*i)); }
static void le16(string &o,u32 v) { o+=(char)v; o+=(char)(v>>8); }
string enc_ttyrec(const vector<Frame> &f,vector<size_t> *ends) { string o; for (auto &x:f) { le32(o,(u32)(x.t/1000000)); le32(o,(u32)(x.t%1000000)); le32(o,x.d.size()); o+=x.d; if (ends) ends->push_back(o.size()); } return o; }
string enc_nh(const vector<Frame> &f,i64 start,vector<size_t> *ends) { string o(5,'\0'); for (auto &x:f) { o+='\0'; le32(o,(u32)((x.t-start)/10000)); for (char c:x.d) if (c) o+=c; if (ends) ends->push_back(o.size()); } return o; }
string json_str(Src &s0,const string &t,int fancy) {
    // long texts take their variety from a single choice
    Rng lr; bool lng=t.size()>500; if (lng&&fancy) lr.seed(s0.draw(65536));
    struct W { Src &s; Rng &r; bool l; u64 draw(u64 n) { return l? r.below(n) : s.draw(n); } bool flip(int p=50) { return l? r.pct(p) : s.flip(p); } int weighted(std::initializer_list<int> w) { if (!l) return s.weighted(w); int t=0; for (int x:w) t+=x; int k=(int)r.below(t); for (size_t i=0;i<w.size();i++) { if (k<w.begin()[i]) return (int)i; k-=w.begin()[i]; } return 0; } } s{s0,lr,lng};
    string o="\""; size_t i=0; char b[20];
    while (i<t.size()) {
        u8 c=t[i]; u32 cp=c; int n=1;
        if (c>=0xf0) cp=c&7,n=4; else if (c>=0xe0) cp=c&15,n=3; else if (c>=0xc0) cp=c&31,n=2;
        for (int k=1;k<n;k++) cp=cp<<6|(t[i+k]&63);
        bool must=cp<32||cp=='"'||cp=='\\';
        int how= must? 1+(fancy?(int)s.draw(2):0) : fancy? s.weighted({8,1,cp=='/'||cp==8||cp==12?4:0}) : 0;
        const char *sh=0; switch (cp) { case '"': sh="\\\""; break; case '\\': sh="\\\\"; break; case '/': sh="\\/"; break; case 8: sh="\\b"; break; case 12: sh="\\f"; break; case 10: sh="\\n"; break; case 13: sh="\\r"; break; case 9: sh="\\t"; break; }
        if (how==2 && sh) o+=sh;
        else if (how) { const char *fm=fancy&&s.flip(30)?"\\u%04X":"\\u%04x"; if (cp>=0x10000) { u32 v=cp-0x10000; snprintf(b,20,fm,0xd800+(v>>10)); o+=b; snprintf(b,20,fm,0xdc00+(v&0x3ff)); o+=b; } else { snprintf(b,20,fm,cp); o+=b; } }
        else o+=t.substr(i,n);
        i+=n;
    }
    return o+"\"";
}
static string ws(Src &s,int fancy) { if (!fancy||!s.flip(25)) return ""; string r; int n=1+(int)s.draw(3); while (n--) r+=" \t\n\r"[s.draw(4)]; return r; }
static string json_junk(Src &s,int depth) {
    if (!depth&&s.flip(4)) { int n=1+(int)s.drawf(300,[](Rng &r)->u64 { return r.below(r.pct(50)?20:300); }); string b,e; while (n--) if (s.flip()) { b+="["; if (s.flip(10)) b+="1,"; e="]"+e; } else { b+="{\"a\":"; e=(s.flip(10)?",\"b\":{}}":"}")+e; } return b+json_junk(s,2)+e; }
    switch (s.weighted({2,2,1,1,1,depth<3?2:0,depth<3?2:0})) {
    case 0: return json_str(s,gen_text(s,1),1);
    case 1: { static const char *q[]={"0","1","12","-5","1.5","-0.25","1e3","2.5E-3","1e+2","123456789012"}; return q[s.draw(10)]; }
    case 2: return "null"; case 3: return "true"; case 4: return "false";
    case 5: { string r="["+ws(s,1); int n=(int)s.draw(4); for (int i=0;i<n;i++) r+=(i?","+ws(s,1):string())+json_junk(s,depth+1)+ws(s,1); return r+"]"; }
    default: { string r="{"+ws(s,1); int n=(int)s.draw(4); for (int i=0;i<n;i++) r+=(i?","+ws(s,1):string())+json_str(s,i?"k"+std::to_string(i):s.flip()?"version":"a",0)+ws(s,1)+":"+ws(s,1)+json_junk(s,depth+1)+ws(s,1); return r+"}"; } }
}
static string json_time(Src &s,i64 us,int fancy) { // exactly this many microseconds
    char b[100]; i64 a=us/1000000, f=us%1000000;
    int k=fancy? s.weighted({4,3,2,2,2,f==0?4:0,1,1}) : 0;
    switch (k) {
    default: snprintf(b,100,"%lld.%06lld",(long long)a,(long long)f); return b;
    case 1: snprintf(b,100,"%lld.%06lld",(long long)a,(long long)f); { string r=b; while (r.back()=='0'&&r[r.size()-2]!='.') r.pop_back(); return r; }
    case 2: snprintf(b,100,"%llde-6",(long long)us); return b;
    case 3: { snprintf(b,100,"%lld.%06lld%0*dE0",(long long)a,(long long)f,1+(int)s.draw(25),0); return b; }
    case 4: { snprintf(b,100,"%lld.%06lld",(long long)a,(long long)f); string r=b; size_t p=r.find('.'); int sh=(int)s.draw(p<3?p:3); r.erase(p,1); r.insert(p-sh,"."); if (p==(size_t)sh) r="0"+r; snprintf(b,100,"%s%de%s%d","",0,s.flip()?"+":"",sh); string e=b; size_t q=0; while (q+1<r.size()&&r[q]=='0'&&r[q+1]!='.') q++; r=r.substr(q); return r+e.substr(1); }
    case 6: { int n=(int)s.draw(s.flip()?150:9); return std::to_string(us)+string(us?n:0,'0')+"E-"+std::to_string((us?n:0)+6); }
    case 7: { int n=(int)s.draw(s.flip()?150:9); string d=std::to_string(us); int e=n+(int)d.size()-6; return "0."+string(n,'0')+d+(e<0?"e-":s.flip()?"e+":"e")+std::to_string(abs(e)); }
    case 5: snprintf(b,100,"%lld",(long long)a); return b; }
}
string enc_cast(Src &s,const CastStyle &c,const vector<Frame> &f,i64 start,vector<size_t> *ends) {
    string o; int fy=c.fancy; vector<string> fl; char b[60];
    auto field=[&](const char *n,const string &v) { return (fy==2&&s.flip(10)&&strcmp(n,"version")? "\""+string("\\u00")+(snprintf(b,60,"%02x",n[0]),b)+(n+1)+"\"" : "\""+string(n)+"\"")+ws(s,fy)+":"+ws(s,fy)+v; };
    fl.push_back(field("width",std::to_string(c.sx))); fl.push_back(field("height",std::to_string(c.sy)));
    if (c.ts) fl.push_back(field("timestamp",std::to_string(c.ts)));
    if (fy) { static const char *q[]={"command","title","env","duration","idle_time_limit","theme","x","env2","notes"}; int n=(int)s.draw(5); for (int i=0;i<n;i++) { string k=q[s.draw(9)]; string v= k=="env"? (s.flip()?"{}":"{\"TERM\":\"xterm\",\"SHELL\":\"/bin/sh\"}") : k=="duration"? "12.5" : json_junk(s,0); fl.push_back(field(k.c_str(),v)); }
        for (size_t i=fl.size();i>1;i--) std::swap(fl[i-1],fl[s.draw(i)]); }
    string ver=field("version",std::to_string(c.version));
    size_t vp= fy==2&&s.flip(30)? s.draw(fl.size()+1) : 0; fl.insert(fl.begin()+vp,ver);
    o="{"+ws(s,fy);
    for (size_t i=0;i<fl.size();i++) o+=(i?","+(fy?ws(s,fy):string(" ")):string())+fl[i]+ws(s,fy);
    if (c.version==1) o+=","+ws(s,fy)+"\"stdout\""+ws(s,fy)+":"+ws(s,fy)+"["+(fy?ws(s,fy):string("\n")); else o+=fy?"}"+ws(s,fy):string("}\n");
    i64 last=start;
    for (size_t i=0;i<f.size();i++) {
        if (c.version==1 && i) o+=","+(fy?ws(s,fy):string("\n"));
        if (c.version==2 && i) o+= fy==2? ws(s,fy) : string("\n");
        if (fy && c.version==2 && s.flip(15)) { static const char *q[]={"i","m","r","x","io","oo",""}; o+="["+ws(s,fy)+json_time(s,(i? f[i-1].t : start)-start,fy)+ws(s,fy)+","+ws(s,fy)+"\""+q[s.draw(7)]+"\","+json_str(s,s.flip()?gen_text(s,1):"80x24",fy)+"]"+(fy==2?ws(s,fy):string("\n")); }
        o+="["+ws(s,fy)+json_time(s,c.version==1? f[i].t-last : f[i].t-start,fy)+ws(s,fy)+","+(fy?ws(s,fy):string(" "));
        last=f[i].t;
        if (c.version==2) o+="\"o\""+ws(s,fy)+","+(fy?ws(s,fy):string(" "));
        o+=json_str(s,f[i].d,fy)+ws(s,fy)+"]";
        if (ends) ends->push_back(o.size());
    }
    if (c.version==1) { o+=(fy?ws(s,fy):string("\n"))+"]"+ws(s,fy); if (fy&&s.flip(30)) o+=","+ws(s,fy)+field("title2",json_junk(s,0))+ws(s,fy); o+="}"; }
    o+=fy?ws(s,fy):string("\n");
    return o;
}
void is_content(const string &d,bool *t,bool *c) {
    *t=*c=false; if (d.size()<12) return;
    auto u=[&](int o) { return (u8)d[o]|(u8)d[o+1]<<8|(u8)d[o+2]<<16|(u32)(u8)d[o+3]<<24; };
    *t=u(4)<1000000&&u(8)>0&&u(8)<65536; if (*t) return;
    // the first twelve bytes are the beginning of {"version":1 or 2 with any whitespace
    size_t i=0; auto sp=[&]{ while (i<12&&strchr(" \t\r\n",d[i])&&d[i]) i++; };
    if (d[i++]!='{') return; sp();
    const char *w="\"version\""; while (*w&&i<12) if (d[i++]!=*w++) return;
    sp(); if (i<12&&d[i++]!=':') return; sp(); if (i<12&&d[i]!='1'&&d[i]!='2') return;
    *c=true;
}

// ---------------------------------------------------------------- DosRecorder
string enc_dos(const DosFrame &f) {
    string o; le32(o,f.delay); o+='\0'; o+='\0'; o+=(char)f.sscr; o+=(char)f.dscr; le16(o,f.ch.size()|(f.note?0x8000:0));
    for (auto &c:f.ch) { le16(o,c.pos); le16(o,c.c.size()); }
    for (auto &c:f.ch) for (auto &a:c.c) { o+=(char)a.first; o+=(char)a.second; }
    if (f.note) { o+=(char)f.w; o+=(char)f.h; o+=(char)f.x; o+=(char)f.y; o+=(char)f.title.size(); o+=(char)7; o+='\0'; for (auto &a:f.box) { o+=(char)a.first; o+=(char)a.second; } o+=f.title; }
    return o;
}
static std::pair<u8,u8> doscell(Src &s,int st) { u8 c= st==0? ' ' : st==1? (u8)('a'+s.draw(26)) : (u8)s.draw(256); u8 a= s.flip(50)?7:(u8)s.draw(256); return {c,a}; }
DosFrame gen_dos(Src &s) {
    DosFrame f; f.delay=(u32)s.num(1u<<31,{0,1,999,1000,1001,100000,4294967295u>>1}); if (s.flip(2)) f.delay=0xffffffffu-(u32)s.draw(3);
    f.sscr=s.flip(60)?0:(u8)s.draw(s.flip(80)?4:256); f.dscr=s.flip(60)?0:(u8)s.draw(s.flip(80)?4:256);
    for (List l(s,3,20);l.next();) { DosFrame::Chunk c; c.pos=(int)s.draw(2000); if (s.flip(30)) c.pos=c.pos/80*80; int mx=2000-c.pos; int n=s.flip(10)? mx : std::min<int>(mx,(int)s.num(200,{0,1,19,20,21,80})); int st=s.weighted({2,3,3});
        int run=0; std::pair<u8,u8> q; for (int i=0;i<n;i++) { if (!run) { q=doscell(s,st); run=1+(int)s.num(90,{9,10,11,19,20,21}); } run--; c.c.push_back(q); if (st==2&&i<60) run=0; }
        f.ch.push_back(c); }
    if (s.flip(15)) { f.note=true; f.w=(int)s.num(81,{1,80}); f.x=(int)s.num(81-f.w,{(u64)(80-f.w)}); f.h=(int)s.num(26,{1,25}); f.y=(int)s.num(26-f.h,{(u64)(25-f.h)}); auto q=doscell(s,1); for (int i=0;i<f.w*f.h;i++) { if (i<40||i%37==0) q=doscell(s,s.weighted({2,3,3})); f.box.push_back(q); } int n=(int)s.num(81,{0,80}); while (n--) f.title+=(char)(32+s.draw(95)); }
    return f;
}

// ---------------------------------------------------------------- JSON
bool valid_utf8(const string &t) {
    size_t i=0; while (i<t.size()) { u8 c=t[i]; int n; u32 v; if (c<0x80) { i++; continue; } if (c>=0xc2&&c<0xe0) n=2,v=c&31; else if (c>=0xe0&&c<0xf0) n=3,v=c&15; else if (c>=0xf0&&c<0xf5) n=4,v=c&7; else return false; if (i+n>t.size()) return false; for (int k=1;k<n;k++) { u8 x=t[i+k]; if ((x&0xc0)!=0x80) return false; v=v<<6|(x&63); } if (n==3&&v<0x800) return false; if (n==4&&(v<0x10000||v>0x10ffff)) return false; if (v>=0xd800&&v<0xe000) return false; i+=n; } return true;
}
namespace {
struct JP {
    const string &t; size_t i=0; string err; int depth=0;
    JP(const string &t):t(t){}
    bool fail(const char *m) { if (err.empty()) err=string(m)+" at offset "+std::to_string(i); return false; }
    void sp() { while (i<t.size()&&(t[i]==' '||t[i]=='\t'||t[i]=='\n'||t[i]=='\r')) i++; }
    bool str(string &o) {
        if (i>=t.size()||t[i]!='"') return fail("expected a string"); i++;
        for (;;) {
            if (i>=t.size()) return fail("unterminated string");
            u8 c=t[i++]; if (c=='"') return true; if (c<32) return i--,fail("control character in a string");
            if (c!='\\') { o+=(char)c; continue; }
            if (i>=t.size()) return fail("unterminated escape");
            c=t[i++];
            switch (c) { case '"': case '\\': case '/': o+=(char)c; break; case 'b': o+='\b'; break; case 'f': o+='\f'; break; case 'n': o+='\n'; break; case 'r': o+='\r'; break; case 't': o+='\t'; break;
            case 'u': { u32 v; if (!hex4(v)) return false; if (v>=0xd800&&v<0xdc00) { u32 w; if (i+1<t.size()&&t[i]=='\\'&&t[i+1]=='u') { i+=2; if (!hex4(w)) return false; if (w<0xdc00||w>=0xe000) return fail("lone surrogate"); v=0x10000+((v-0xd800)<<10)+(w-0xdc00); } else return fail("lone surrogate"); } else if (v>=0xdc00&&v<0xe000) return fail("lone surrogate"); if (v) o+=utf8(v); else o+='\0'; break; }
            default: return fail("unknown escape"); }
        }
    }
    bool hex4(u32 &v) { v=0; for (int k=0;k<4;k++) { if (i>=t.size()||!isxdigit((u8)t[i])) return fail("bad \\u escape"); int c=t[i++]; v=v*16+(c<='9'?c-'0':(c|32)-'a'+10); } return true; }
    bool val(Json &j) {
        if (++depth>1000) return fail("too deep"); sp(); if (i>=t.size()) return fail("value expected"); char c=t[i]; bool r=true;
        if (c=='"') { j.t=Json::STR; r=str(j.s); }
        else if (c=='{') { j.t=Json::OBJ; i++; sp(); if (i<t.size()&&t[i]=='}') i++; else for (;;) { sp(); string k; if (!str(k)) return false; sp(); if (i>=t.size()||t[i]!=':') return fail("colon expected"); i++; j.o.emplace_back(k,Json()); if (!val(j.o.back().second)) return false; sp(); if (i<t.size()&&t[i]==',') { i++; continue; } if (i<t.size()&&t[i]=='}') { i++; break; } return fail("comma or } expected"); } }
        else if (c=='[') { j.t=Json::ARR; i++; sp(); if (i<t.size()&&t[i]==']') i++; else for (;;) { j.a.emplace_back(); if (!val(j.a.back())) return false; sp(); if (i<t.size()&&t[i]==',') { i++; continue; } if (i<t.size()&&t[i]==']') { i++; break; } return fail("comma or ] expected"); } }
        else if (!t.compare(i,4,"null")) i+=4; else if (!t.compare(i,4,"true")) { j.t=Json::BOOL; j.b=true; i+=4; } else if (!t.compare(i,5,"false")) { j.t=Json::BOOL; i+=5; }
        else { j.t=Json::NUM; size_t a=i; if (i<t.size()&&t[i]=='-') i++; if (i<t.size()&&t[i]=='0') i++; else { if (i>=t.size()||!isdigit((u8)t[i])) return fail("value expected"); while (i<t.size()&&isdigit((u8)t[i])) i++; } if (i<t.size()&&t[i]=='.') { i++; if (i>=t.size()||!isdigit((u8)t[i])) return fail("bad number"); while (i<t.size()&&isdigit((u8)t[i])) i++; } if (i<t.size()&&(t[i]|32)=='e') { i++; if (i<t.size()&&(t[i]=='+'||t[i]=='-')) i++; if (i>=t.size()||!isdigit((u8)t[i])) return fail("bad number"); while (i<t.size()&&isdigit((u8)t[i])) i++; } j.s=t.substr(a,i-a); }
        depth--; return r;
    }
};
}
bool json_parse(const string &t,Json &out,string &err) { JP p(t); if (!valid_utf8(t)) { err="not valid UTF-8"; return false; } if (!p.val(out)) { err=p.err; return false; } p.sp(); if (p.i<t.size()) { p.fail("garbage after the value"); err=p.err; return false; } return true; }
