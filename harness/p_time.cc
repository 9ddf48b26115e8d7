// Properties of recordings held in memory: L01..L04
#include "rec.h"
#include "gen_vt.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <math.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <algorithm>
using std::string; using std::vector;
extern "C" {
TRec ttyrec_init(VT*); TRec ttyrec_load(int,const char*,const char*,VT*); void ttyrec_free(TRec); LFrame *ttyrec_seek(TRec,const struct timeval*,VT**);
LFrame *ttyrec_next_frame(TRec,LFrame*); void ttyrec_add_frame(TRec,const struct timeval*,const char*,int); int ttyrec_save(TRec,int,const char*,const char*,const struct timeval*,const struct timeval*);
void sh_tadd(struct timeval*,const struct timeval*); void sh_tsub(struct timeval*,const struct timeval*); void sh_tmul(struct timeval*,int); void sh_tdiv(struct timeval*,int); int sh_tcmp(const struct timeval*,const struct timeval*);
}
static void xwrite(VT *v,const string &t) { char *p=(char*)malloc(t.size()?t.size():1); memcpy(p,t.data(),t.size()); tty_write(v,p,(int)t.size()); free(p); }
static const char probe[]="\033" "8A\xcc\x81\033[CB\n\xe4\xb8\x80""C\033M\033M\033MD\x0eqx\x0f" "E\033[L\033[999;999HF\xcc\x80GH";
static void same(VT *a,VT *b,const char *what) { Screen x=snapshot(a),y=snapshot(b); for (auto &c:x.c) c.attr&=~A_CJK; for (auto &c:y.c) c.attr&=~A_CJK; string d=diff(x,y); CHECK(d.empty(),"%s: %s",what,d.c_str()); }
static const Profile ALLP=profile({{K_TEXT,10},{K_WIDE,5},{K_COMB,4},{K_CHAR,3},{K_CTRL,6},{K_CURSOR,9},{K_ERASE,5},{K_INSDEL,5},{K_SCROLL,6},{K_SGR,6},{K_OSC,4},{K_MODE,3},{K_CHARSET,3},{K_SAVE,4},{K_RESIZE,3},{K_RESET,1},{K_UNKNOWN,2},{K_RAW,3},{K_UTF8,4},{K_TRUNC,5},{K_ENC,1}});

// the initial terminal
struct Init { bool def=true; int sx=80,sy=25; bool rs=true; string text; VT *make() const { VT *v=tty_init(sx,sy,rs); if (!text.empty()) xwrite(v,text); return v; } };
static Init gen_init(Src &s,const Profile &p) { Init i; if (s.flip(60)) return i; i.def=false; i.sx=gen_sx(s); i.sy=gen_sy(s); i.rs=s.flip(70); if (s.flip()) for (List l(s,3,10);l.next();) i.text+=gen_op(s,p,GenCtx{i.sx,i.sy}); s.note("initial terminal %dx%d%s, %s",i.sx,i.sy,i.rs?" resizable":"",printable(i.text).c_str()); return i; }
static i64 cap(i64 d) { return d<0||d>=5000000? 5000000 : d; }
static i64 us(const struct timeval &t) { return (i64)t.tv_sec*1000000+t.tv_usec; }
static void add(TRec r,const i64 *d,const string &t) { char *p=(char*)malloc(t.size()?t.size():1); memcpy(p,t.data(),t.size()); struct timeval x; if (d) x=tv(*d); ttyrec_add_frame(r,d?&x:0,p,(int)t.size()); free(p); }
static VT *replay(const Init &in,const vector<Frame> &f,int upto) { VT *v=in.make(); for (int i=0;i<=upto;i++) xwrite(v,f[i].d); return v; }
static int at_time(const vector<Frame> &f,i64 t) { int k=-1; while (k+1<(int)f.size()&&f[k+1].t<=t) k++; return k; }
static void frame_is(LFrame *f,const vector<Frame> &m,int i,const char *what) {
    CHECK(f,"%s: no frame returned instead of frame %d",what,i);
    if (i<0) { CHECK(!f->len,"%s: a frame of %d bytes instead of the start",what,f->len); return; }
    CHECK(f->len==(int)m[i].d.size()&&(!f->len||!memcmp(f->data,m[i].d.data(),f->len)),"%s: frame %d should be %s, is %s",what,i,printable(m[i].d,80).c_str(),printable(string(f->data,f->len),80).c_str());
    CHECK(f->t.tv_usec>=0&&f->t.tv_usec<1000000,"%s: frame %d has %ld microseconds",what,i,(long)f->t.tv_usec);
    CHECK(us(f->t)==m[i].t,"%s: frame %d has time %lld us instead of %lld us",what,i,(long long)us(f->t),(long long)m[i].t);
}
static string gen_frame(Src &s,const Profile &p,size_t acc,int big) {
    string d;
    if (s.flip(big)) { size_t left=65536-acc%65536; size_t n= s.flip(60)? left+2-s.draw(3+std::min<size_t>(left,2)) : s.num(90000,{65535,65536,65537,131072,left}); string q=s.blob(n); if (s.flip(60)) for (List l(s,3,10);l.next();) q+=gen_op(s,p,GenCtx{80,25}); return q; }
    for (List l(s,3,20);l.next();) d+=gen_op(s,p,GenCtx{80,25});
    if (s.flip(15)&&!d.empty()) d.resize(s.draw(d.size()+1));
    return d;
}
static i64 gen_d(Src &s) { switch (s.weighted({4,2,3,2,1,1})) { case 0: return s.num(2000000,{0,1,999999,1000000}); case 1: return 0; case 2: return 4999998+(i64)s.draw(5); case 3: return (i64)s.draw(12)*500000; case 4: return -1-(i64)s.num(10000000,{0,1000000,999999}); default: return (i64)s.num(4000000000u)*1000000+s.draw(1000000); } }
static i64 gen_seek(Src &s,const vector<Frame> &f) { i64 end=f.empty()?0:f.back().t; switch (s.weighted({5,2,1,1})) { case 0: if (!f.empty()) return f[s.draw(f.size())].t+(i64)s.draw(3)-1; [[fallthrough]]; case 1: return (i64)s.draw(end+2000000)-1000000; case 2: return end+(i64)s.num(1000000000); default: return -(i64)s.num(1000000000); } }

// ------------------------------------------------------------------ L01
static void l01(Src &s) {
    Profile p=swarm(s,ALLP); Init in=gen_init(s,p); TRec r=ttyrec_init(in.def?0:in.make()); CHECK(r,"ttyrec_init failed"); vector<Frame> m; vector<LFrame*> addr; i64 t=0; size_t acc=0,total=0; int big=s.weighted({6,2,1}); big= big==0?0:big==1?12:40; VT *held=0; int hi=-2; LFrame *hf=0; int seeks=0,cont=0;
    for (List l(s,25,150);l.next();) {
        int op=s.weighted({8,5,4,1});
        if (op==0) { bool nod=s.flip(10); i64 d=gen_d(s); string x=gen_frame(s,p,acc,total<900000?big:0); add(r,nod?0:&d,x); t+=nod?0:cap(d); m.push_back({t,x}); acc+=x.size(); total+=x.size(); s.note("add after %lld us: %s",nod?0ll:(long long)d,printable(x).c_str()); }
        else if (op==1||op==3) { // seek
            bool null=s.flip(12); i64 q=gen_seek(s,m); int want= null? (m.empty()?-1:0) : at_time(m,q); struct timeval x=tv(q); bool vt=!s.flip(15); s.note("seek %s",null?"without a time":(std::to_string(q)+" us").c_str()); char w[80]; snprintf(w,80,"seeking to %lld us",null?-1ll:(long long)q);
            VT *v=0; int from=(int)s.draw(3); if (from==1) v=tty_init(10,3,0); else if (from==2) { v=held; held=0; hf=0; }
            LFrame *f=ttyrec_seek(r,null?0:&x,vt?&v:0); frame_is(f,m,want,w); if (vt) { CHECK(v,"%s returns no terminal",w); VT *e=replay(in,m,want); same(v,e,w);
                if (s.flip(70)) { if (held) tty_free(held); held=v; hf=f; hi=want; tty_free(e); } else { xwrite(v,probe); xwrite(e,probe); same(v,e,"further output after seeking"); tty_free(v); tty_free(e); } } else if (v) tty_free(v);
            seeks++; }
        else if (hf) { int k=1+(int)s.num(10); while (k--) { LFrame *n=ttyrec_next_frame(r,hf); if (hi+1>=(int)m.size()) { CHECK(!n,"there's a frame after the last one"); break; } hi++; frame_is(n,m,hi,"the next frame"); hf=n; xwrite(held,string(n->data?n->data:"",n->len)); } s.note("continue to frame %d",hi); VT *e=replay(in,m,hi); same(held,e,"continuing after a seek"); tty_free(e); cont++; }
    }
    // all frames at their places, and the terminal at the end
    struct timeval x=tv(1ll<<50); VT *v=0; LFrame *f=ttyrec_seek(r,&x,&v); frame_is(f,m,(int)m.size()-1,"seeking to the end"); VT *e=replay(in,m,(int)m.size()-1); xwrite(v,probe); xwrite(e,probe); same(v,e,"at the end"); tty_free(v); tty_free(e);
    x=tv(-1000000); f=ttyrec_seek(r,&x,0); int i=-1; frame_is(f,m,-1,"before the start"); while ((f=ttyrec_next_frame(r,f))) { i++; CHECK(i<(int)m.size(),"more frames than were added"); frame_is(f,m,i,"walking"); } CHECK(i==(int)m.size()-1,"%d frames instead of %zu",i+1,m.size());
    if (held) tty_free(held); ttyrec_free(r);
    s.label("seeks",seeks); s.label("continued",cont); s.label("frames",m.size()); if (total>65536) s.label("several checkpoints"); if (!in.def) s.label("own terminal"); s.nontrivial(m.size()>=2&&seeks>=1);
}
static RegProp pl01({"L01",l01,3800,400000,22,280,false,30,"frames of terminal input (also cut inside sequences) are added, sought and walked in any order, terminals compared with a replay from the start; non-trivial: at least two frames and a seek",0});

// ------------------------------------------------------------------ L02
static void l02(Src &s) {
    TRec r; vector<Frame> m; i64 base=0; string txt; int src=s.weighted({3,2,2,2,1,1}); static const char *const names[]={"added","ttyrec","nh_recorder","asciicast","baudrate","dosrecorder"}; bool text=src==3||src<4&&s.flip(40); Init in; Profile p=ALLP; if (s.flip(20)) in=gen_init(s,p);
    if (src==0) { r=ttyrec_init(in.def?0:in.make()); i64 t=0; for (List l(s,6,60);l.next();) { bool nod=s.flip(10); i64 d=gen_d(s); string x=text?gen_text(s,3):gen_data(s,3); add(r,nod?0:&d,x); t+=nod?0:cap(d); m.push_back({t,x}); s.note("add after %lld us: %s",nod?0ll:(long long)d,printable(x,60).c_str()); } }
    else { string f; i64 t0=s.flip(30)?0:(i64)s.num(2000000000)*1000000+(s.flip()?s.draw(1000000):0); 
        if (src==1) { vector<Frame> fr=gen_frames(s,text,6,60,3,t0,true); if (s.flip(30)) for (auto &x:fr) if (s.flip(10)) x.t-=std::min<i64>(x.t,s.num(20000000)); f=enc_ttyrec(fr); }
        else if (src==2) { vector<Frame> fr=gen_frames(s,text,6,60,3,t0,true); for (auto &x:fr) if (x.t>t0+10000000000000ll) x.t=t0+10000000000000ll; f=enc_nh(fr,t0); }
        else if (src==3) { CastStyle c; c.version=s.flip()?1:2; c.ts=t0/1000000; c.fancy=(int)s.draw(3); f=enc_cast(s,c,gen_frames(s,true,6,60,0,0,true),0); }
        else if (src==4) f=gen_data(s,3);
        else for (List l(s,4,20);l.next();) f+=enc_dos(gen_dos(s));
        // the same through the player: its delays are capped one by one
        Trace tr=play(mem_fd(f),names[src],0); i64 w=0,t=0; for (auto &e:tr.ev) switch (e.k) { case 0: base=t=e.s*1000000+e.us; break; case 1: w+=cap(e.s*1000000+e.us); break; case 2: t+=w; w=0; m.push_back({t,e.d}); break; }
        s.note("%s of %zu bytes: %s",names[src],f.size(),printable(f).c_str());
        r=ttyrec_load(mem_fd(f),names[src],0,in.def?0:in.make()); CHECK(!!r==!!tr.ret,"loading %s, playing returned %d",r?"succeeds":"fails",tr.ret); if (!r) return;
        if (s.flip(30)) { for (List l(s,2,10);l.next();) { i64 d=gen_d(s); string x=text?gen_text(s,2):gen_data(s,0); add(r,&d,x); t+=w+cap(d); w=0; m.push_back({t,x}); } s.label("loaded and added"); } }
    // walking
    struct timeval x=tv(base-10000000); LFrame *h=ttyrec_seek(r,&x,0),*f=h; frame_is(h,m,-1,"the start"); CHECK(us(h->t)==base,"the start is at %lld us instead of %lld us",(long long)us(h->t),(long long)base); vector<LFrame*> all; while ((f=ttyrec_next_frame(r,f))) { CHECK(all.size()<m.size(),"more frames than should be"); frame_is(f,m,(int)all.size(),"walking"); all.push_back(f); } CHECK(all.size()==m.size(),"%zu frames instead of %zu",all.size(),m.size()); CHECK(!ttyrec_next_frame(r,0),"there's a frame after none");
    if (!m.empty()&&s.flip()) { int k=(int)s.draw(m.size()); x=tv(m[k].t); f=ttyrec_seek(r,&x,0); int e=at_time(m,m[k].t); CHECK(f==all[e],"seeking gives another frame than walking"); }
    // saving
    for (List l(s,2,5);l.next();) {
        static const char *const fm[]={"ttyrec","nh_recorder","asciicast","asciicast-v1","ansi"}; int o=s.weighted({4,text?2:0,text?2:0,text?2:0,1}); bool ss=s.flip(70),se=s.flip(70); i64 a=base+gen_seek(s,vector<Frame>()), b; { vector<Frame> z=m; for (auto &q:z) q.t-=base; a=base+gen_seek(s,z); b=base+gen_seek(s,z); } if (ss&&se&&a>b&&s.flip(80)) std::swap(a,b);
        struct timeval ta=tv(a),tb=tv(b); int k= ss? at_time(m,a) : m.empty()?-1:0; vector<Frame> sel; if (k<0) { if (!se||base<=b) sel.push_back({base,""}); else {} k=0; if (!sel.empty()) for (;k<(int)m.size()&&(!se||m[k].t<=b);k++) sel.push_back(m[k]); } else for (;k<(int)m.size()&&(!se||m[k].t<=b);k++) sel.push_back(m[k]);
        i64 st= ss? (at_time(m,a)<0?base:m[at_time(m,a)].t) : m.empty()?base:m[0].t;
        if (o==1&&!sel.empty()&&sel.back().t-st>20000000000000ll) o=0; if ((o==0||o>=1&&o<=3)&&!sel.empty()&&(sel.back().t>4294967295000000ll||st<0)) continue; // beyond the formats
        string n=tmpname(".save"); int fd=-1; if (s.flip(30)) fd=open_stream(-1,n.c_str(),SM_WRITE,0); s.note("save as %s, from %s to %s",fm[o],ss?std::to_string(a).c_str():"-",se?std::to_string(b).c_str():"-");
        if (s.flip(5)) CHECK(!ttyrec_save(r,dup(2),"nosuch",0,0,0),"saving in an unknown format succeeds"); int rc=ttyrec_save(r,fd,fm[o],fd==-1?n.c_str():0,ss?&ta:0,se?&tb:0); CHECK(rc,"saving fails"); string d=get_file(n); unlink(n.c_str());
        string want; for (auto &q:sel) want+=q.d;
        if (o==4) { CHECK(d==want,"the saved file is not the selected data"); continue; }
        Trace tr=play(mem_fd(d),o>=2?"asciicast":fm[o],0); CHECK(tr.ret,"the saved file can't be played"); Norm g=norm(tr),w; w.started=true;
        if (o==0) { w=expect(st,sel,sel.empty()?0:sel[0].t); w.started=g.started; if (!g.started) w.start=g.start; if (sel.empty()) CHECK(d.empty(),"frames are saved although none are selected"); }
        else if (o==1) { string nz; for (auto &q:sel) { string z; for (char c:q.d) if (c) z+=c; q.d=z; } w=expect(0,sel,st); w.started=g.started; w.start=g.start; }
        else { i64 off=o==2? st%1000000 : 0; char z[60]; snprintf(z,60,"\e%%G\e[8;25;80t");
            auto make=[&](int notes) { Norm w; w.started=true; w.start=st/1000000*1000000; w.seg.push_back({0,z}); int k=0; for (auto &q:sel) { string d=q.d; if (k++<notes&&!d.compare(0,strlen(z),z)) { d.erase(0,strlen(z)); } if (d.empty()) continue; i64 at=q.t-st+off; if (w.seg.back().first==at) w.seg.back().second+=d; else w.seg.push_back({at,d}); w.end=at; } return w; };
            w=make(1); g.end=w.end; if (sel.size()>1&&sel[0].d.empty()&&!normdiff(g,w).empty()) { w=make(2); g.end=w.end; } } // the size in the first frame goes to the header
        string e=normdiff(g,w,true,o==1?10000:0); CHECK(e.empty(),"saved as %s: %s",fm[o],e.c_str()); s.label(fm[o]); s.label("saved"); if (ss||se) s.label("with a selection"); }
    // saving changes nothing
    int i=-1; f=h; while ((f=ttyrec_next_frame(r,f))) { i++; frame_is(f,m,i,"after saving"); }
    ttyrec_free(r); s.label(names[src]); s.nontrivial(m.size()>=2);
}
static RegProp pl02({"L02",l02,80000,900000,22,280,false,30,"recordings of five formats loaded and frames added, with capped, zero, negative and huge delays, walked and saved with selections in five formats and played back; non-trivial: at least two frames",0});

// ------------------------------------------------------------------ L03
// The store instructions of timeline.c (compiled without optimisation) are where a reader may cut in.
static thread_local bool y_armed; static void yield_point();
extern "C" { void __sanitizer_cov_store1(u8*) { if (y_armed) yield_point(); } void __sanitizer_cov_store2(uint16_t*) { if (y_armed) yield_point(); } void __sanitizer_cov_store4(u32*) { if (y_armed) yield_point(); } void __sanitizer_cov_store8(u64*) { if (y_armed) yield_point(); } void __sanitizer_cov_store16(__int128*) { if (y_armed) yield_point(); } }
struct Req { int op; i64 t; int k; };
// The reader has its own thread, run in turns with the writer; if it has to wait for the writer (a lock), the writer goes on.
struct Reader {
    TRec r=0; const Init *in; vector<Frame> m; int done=0; // frames completely added
    vector<LFrame*> seen; VT *held=0; int hi=-2; LFrame *hf=0; LFrame *head=0; int n_ops=0,n_new=0,lag=0; bool initv=false;
    std::mutex mx; std::condition_variable cv; bool has=false,busy=false,quit=false; Req rq; std::thread th;
    void visible() { // walk everything
        struct timeval x=tv(-1ll<<50); LFrame *f=ttyrec_seek(r,&x,0); CHECK(f,"no start"); CHECK(!head||f==head,"the start moved"); head=f; size_t i=0; while ((f=ttyrec_next_frame(r,f))) { CHECK(i<m.size(),"a reader sees %zu frames, only %zu were begun",i+1,m.size()); frame_is(f,m,(int)i,"a reader"); if (i<seen.size()) CHECK(seen[i]==f,"frame %zu moved",i); else seen.push_back(f); i++; } CHECK((int)i>=done,"a reader sees %zu frames, %d were added",i,done); CHECK(i==seen.size(),"a reader sees %zu frames, it has seen %zu",i,seen.size()); if ((int)i>done) n_new++; }
    void run(const Req &q) {
        n_ops++;
        switch (q.op) {
        case 0: visible(); break;
        case 1: { int c=0; if (!lag||!head) visible(); c=(int)seen.size(); struct timeval x=tv(q.t); VT *v=0; LFrame *f=ttyrec_seek(r,&x,&v); int lo=at_time(vector<Frame>(m.begin(),m.begin()+std::min<int>(c,m.size())),q.t), hi2=at_time(m,q.t); int i=-1; if (f!=head) { auto it=std::find(seen.begin(),seen.end(),f); if (it==seen.end()) { visible(); it=std::find(seen.begin(),seen.end(),f); } CHECK(it!=seen.end(),"a reader's seek returns an unknown frame"); i=(int)(it-seen.begin()); } CHECK(i>=lo&&i<=hi2,"a reader's seek to %lld us returns frame %d instead of %d",(long long)q.t,i,lo); frame_is(f,m,i,"a reader's seek"); CHECK(v,"a reader's seek gives no terminal"); VT *e=replay(*in,m,i); same(v,e,"a reader's seek"); tty_free(e); if (held) tty_free(held); held=v; hf=f; hi=i; break; }
        case 2: if (hf) { int k=q.k; while (k--) { LFrame *n=ttyrec_next_frame(r,hf); if (!n) { CHECK(hi+1>=done,"a reader finds no frame after %d, %d were added",hi,done); break; } hi++; CHECK(hi<(int)m.size(),"a reader finds a frame after the last one"); frame_is(n,m,hi,"a reader's next frame"); hf=n; xwrite(held,string(n->data?n->data:"",n->len)); } VT *e=replay(*in,m,hi); same(held,e,"a reader continuing"); tty_free(e); } break;
        case 3: { VT *v=tty_init(9,3,1); LFrame *f=ttyrec_seek(r,0,&v); if (!head) visible(); int i=f==head?-1:0; CHECK(i==0||seen.empty(),"a reader's seek to the first frame returns the start"); if (!i) { visible(); CHECK(!seen.empty()&&f==seen[0],"a reader's seek to the first frame returns another one"); } VT *e=replay(*in,m,i); same(v,e,"a reader's seek to the first frame"); tty_free(e); tty_free(v); break; } }
    }
    void loop() { std::unique_lock<std::mutex> l(mx); for (;;) { cv.wait(l,[&]{ return has||quit; }); if (!has) return; Req q=rq; l.unlock(); run(q); l.lock(); has=false; cv.notify_all(); } }
    void start() { th=std::thread([this]{ loop(); }); }
    bool ask(const Req &q) { std::unique_lock<std::mutex> l(mx); if (has) return false; rq=q; has=true; cv.notify_all(); if (!cv.wait_for(l,std::chrono::milliseconds(200),[&]{ return !has; })) lag=1; return true; }
    void finish() { { std::unique_lock<std::mutex> l(mx); cv.wait(l,[&]{ return !has; }); quit=true; cv.notify_all(); } th.join(); }
};
static Reader *R3; static Src *S3; static int y_rate,y_count,y_max;
static Req gen_req(Src &s,const vector<Frame> &m) { Req q; q.op=s.weighted({4,4,3,1}); q.t=gen_seek(s,m); q.k=1+(int)s.draw(3); return q; }
static void yield_point() {
    y_armed=false; y_count++;
    if (y_max>0&&S3->flip(y_rate)) { y_max--; Req q=gen_req(*S3,R3->m); if (!R3->ask(q)) {} }
    y_armed=true;
}
static void l03(Src &s) {
    Profile p=swarm(s,ALLP); Init in=gen_init(s,p); Reader rd; R3=&rd; S3=&s; rd.in=&in; rd.r=ttyrec_init(in.def?0:in.make()); CHECK(rd.r,"ttyrec_init failed"); static const int rates[]={100,40,15,5}; y_rate=rates[s.draw(4)]; y_count=0; y_max=400; int big=s.flip(25)?10:0; size_t acc=0; i64 t=0; rd.m.reserve(400); bool init=s.flip(30);
    rd.start(); (void)init;
    for (List l(s,8,40);l.next();) {
        if (s.flip(20)) { rd.ask(gen_req(s,rd.m)); continue; }
        bool nod=s.flip(10); i64 d=gen_d(s); if (s.flip()) d=(i64)s.draw(3)*600000; string x=gen_frame(s,p,acc,acc<400000?big:0); if (x.size()>300&&x.size()<30000) x.resize(300); t+=nod?0:cap(d); s.note("add after %lld us: %s",nod?0ll:(long long)d,printable(x).c_str());
        { std::unique_lock<std::mutex> lk(rd.mx); rd.cv.wait(lk,[&]{ return !rd.has; }); rd.m.push_back({t,x}); } rd.lag=0; y_armed=true; add(rd.r,nod?0:&d,x); y_armed=false; { std::unique_lock<std::mutex> lk(rd.mx); rd.cv.wait(lk,[&]{ return !rd.has; }); rd.done++; } acc+=x.size(); }
    rd.finish(); rd.lag=0; rd.visible(); VT *e=replay(in,rd.m,(int)rd.m.size()-1),*v=0; struct timeval x=tv(1ll<<50); ttyrec_seek(rd.r,&x,&v); xwrite(v,probe); xwrite(e,probe); same(v,e,"at the end"); tty_free(v); tty_free(e); if (rd.held) tty_free(rd.held); ttyrec_free(rd.r);
    s.label("points where a reader could cut in",y_count); s.label("reader operations",rd.n_ops); s.label("saw a frame being added",rd.n_new); if (acc>65536) s.label("several checkpoints"); s.nontrivial(rd.m.size()>=1&&rd.n_ops>=2);
}
static RegProp pl03({"L03",l03,3800,220000,22,280,false,30,"a reader seeks and walks at randomly chosen store instructions of frame additions; non-trivial: at least one frame and two reader operations",0});

// ------------------------------------------------------------------ L05: memory running out
extern "C" { extern int vp_fail_at,vp_fail_all,vp_hits; }
namespace { struct Oom { Oom(int n,bool all) { vp_hits=0; vp_fail_all=all; vp_fail_at=n; } ~Oom() { vp_fail_at=0; } }; }
// everything that doesn't need memory of its own: characters, attributes, the cursor
static void same_cells(VT *a,VT *b,const char *what) { Screen x=snapshot(a),y=snapshot(b); CHECK(x.sx==y.sx&&x.sy==y.sy,"%s: the size is %dx%d instead of %dx%d",what,x.sx,x.sy,y.sx,y.sy); CHECK(x.cx==y.cx&&x.cy==y.cy,"%s: the cursor is at %d,%d instead of %d,%d",what,x.cx,x.cy,y.cx,y.cy);
    for (size_t i=0;i<x.c.size();i++) CHECK(x.c[i].ch==y.c[i].ch&&(x.c[i].attr&~A_CJK)==(y.c[i].attr&~A_CJK),"%s: cell %zu,%zu is U+%04X %llx instead of U+%04X %llx",what,i%x.sx,i/x.sx,x.c[i].ch,(unsigned long long)x.c[i].attr,y.c[i].ch,(unsigned long long)y.c[i].attr); }
static void l05(Src &s) {
    Profile p=swarm(s,ALLP); bool def=s.flip(60); Init in; in.def=false; if (!def) { in.sx=gen_sx(s); in.sy=gen_sy(s); } in.rs=false; int hits=0,lost=0,big=s.weighted({6,2,1}); big= big==0?0:big==1?12:40;
    long long held=0; auto M=[&](auto f) { size_t a=alloc_bytes(); f(); held+=(long long)alloc_bytes()-(long long)a; };
    if (s.flip(15)) { int n=1+(int)s.draw(8), all=s.flip(); TRec q; M([&]{ Oom o(n,all); q=ttyrec_init(0); }); s.note("a recording is created; allocation %d%s fails",n,all?" and all later ones":""); if (vp_hits) hits++; else CHECK(q,"ttyrec_init failed");
        if (q) { VT *v=0; struct timeval z=tv(0); M([&]{ ttyrec_seek(q,&z,&v); }); CHECK(v,"no terminal in a recording created with too little memory"); VT *e=tty_init(80,25,1); same_cells(v,e,"a recording created with too little memory"); tty_free(e); M([&]{ tty_free(v); ttyrec_free(q); }); }
        CHECK(!held,"creating a recording with too little memory leaks %lld bytes",held); }
    { // frames and seeks
    TRec r; M([&]{ VT *v=tty_init(in.sx,in.sy,0); r=ttyrec_init(v); }); CHECK(r,"ttyrec_init failed"); vector<Frame> m; i64 t=0; size_t acc=0,total=0; VT *hv=0; struct timeval z=tv(0); LFrame *last=ttyrec_seek(r,&z,0); CHECK(last,"no frame before the first"); i64 pend=0;
    for (List l(s,20,120);l.next();) {
        int op=s.weighted({8,5}), n=s.flip(75)?1+(int)s.draw(4):1+(int)s.num(40); bool all=s.flip(), fail=s.flip(70);
        if (op==0) {
            bool nod=s.flip(10); i64 d=gen_d(s); string x=gen_frame(s,p,acc,total<500000?big:0); acc+=x.size(); total+=x.size(); pend+=nod?0:cap(d); s.note("add after %lld us: %s%s",nod?0ll:(long long)d,printable(x).c_str(),fail?(string("; allocation ")+std::to_string(n)+(all?" and all later ones fail":" fails")).c_str():"");
            char *q=(char*)malloc(x.size()?x.size():1); memcpy(q,x.data(),x.size()); struct timeval dt=tv(d); M([&]{ Oom o(fail?n:0,all); ttyrec_add_frame(r,nod?0:&dt,q,(int)x.size()); }); free(q); bool hit=vp_hits>0; if (hit) hits++;
            LFrame *f=ttyrec_next_frame(r,last);
            if (!f) { CHECK(hit,"the frame hasn't been added"); lost++; s.label("a frame lost"); }
            else { t+=pend; pend=0; m.push_back({t,x}); frame_is(f,m,(int)m.size()-1,hit?"a frame added with little memory":"the added frame"); last=f; CHECK(!ttyrec_next_frame(r,f),"one addition gives two frames"); }
        } else {
            bool null=s.flip(12); i64 q=gen_seek(s,m); int want= null? (m.empty()?-1:0) : at_time(m,q); struct timeval x=tv(q); VT *v=0; if (s.flip(30)) { v=hv; hv=0; } char w[80]; snprintf(w,80,"seeking to %lld us",null?-1ll:(long long)q);
            LFrame *f; M([&]{ Oom o(fail?n:0,all); f=ttyrec_seek(r,null?0:&x,&v); }); bool hit=vp_hits>0; if (hit) hits++; s.note("%s%s",w,hit?"; an allocation fails":"");
            if (!f) { CHECK(hit,"%s finds nothing",w); s.label("a seek refused"); if (v) { M([&]{ tty_free(v); }); v=0; } }
            else { frame_is(f,m,want,w); CHECK(v,"%s returns no terminal",w); VT *e=replay(in,m,want); same_cells(v,e,w); tty_free(e); if (hit) s.label("a seek with little memory"); if (hv) M([&]{ tty_free(hv); }); hv=v; }
        }
    }
    // everything is there
    LFrame *f=ttyrec_seek(r,&z,0); z=tv(-1000000); f=ttyrec_seek(r,&z,0); int i=-1; while ((f=ttyrec_next_frame(r,f))) { i++; CHECK(i<(int)m.size(),"more frames than were added"); frame_is(f,m,i,"walking"); } CHECK(i==(int)m.size()-1,"%d frames instead of %zu",i+1,m.size());
    z=tv(1ll<<50); VT *v=0; M([&]{ ttyrec_seek(r,&z,&v); }); CHECK(v,"no terminal at the end"); VT *e=replay(in,m,(int)m.size()-1); same_cells(v,e,"at the end"); tty_free(e); M([&]{ tty_free(v); if (hv) tty_free(hv); ttyrec_free(r); });
    }
    CHECK(!held,"leaked %lld bytes",held); s.label("frames lost",lost); s.nontrivial(hits>=2);
}
static RegProp pl05({"L05",l05,8000,400000,22,280,false,30,"histories of frames added to a recording and seeks in it, in which generated allocations fail; non-trivial: at least two operations met a failure",0});

// ------------------------------------------------------------------ L04
static struct timeval gen_tv(Src &s,i64 lim) { struct timeval t; switch (s.weighted({3,2,2,1})) { case 0: t.tv_sec=(i64)s.draw(7)-3; break; case 1: t.tv_sec=(i64)s.num(2000000000)*(s.flip()?1:-1); break; case 2: t.tv_sec=(i64)s.draw(2*lim+1)-lim; break; default: t.tv_sec=s.flip()?lim:-lim; } switch (s.weighted({3,2,2})) { case 0: { static const int q[]={0,1,2,999999,999998,500000,499999,500001}; t.tv_usec=q[s.draw(8)]; break; } case 1: t.tv_usec=s.draw(1000000); break; default: t.tv_usec=s.draw(1001)*1000; if (t.tv_usec>999999) t.tv_usec=999999; } return t; }
static void norm_ok(const struct timeval &t,const char *w) { CHECK(t.tv_usec>=0&&t.tv_usec<1000000,"%s gives %lld s and %ld us",w,(long long)t.tv_sec,(long)t.tv_usec); }
static void l04(Src &s) {
    int n=0; for (List l(s,20,100);l.next();n++) {
        struct timeval a=gen_tv(s,4000000000ll),b=gen_tv(s,4000000000ll),c=gen_tv(s,4000000000ll),r; if (s.flip(20)) { b=a; if (s.flip()) b.tv_usec=b.tv_usec?b.tv_usec-1:0; } int m=1+(int)s.num(1000000,{999,1000,1,0,999999,2000,500,1001}); if (m>1000000) m=1000000;
        i64 A=us(a),B=us(b); char w[200]; s.note("%lld, %lld us, scale %d",(long long)A,(long long)B,m);
        r=a; sh_tadd(&r,&b); snprintf(w,200,"%lld+%lld us",(long long)A,(long long)B); norm_ok(r,w); CHECK(us(r)==A+B,"%s is %lld us",w,(long long)us(r));
        r=a; sh_tsub(&r,&b); snprintf(w,200,"%lld-%lld us",(long long)A,(long long)B); norm_ok(r,w); CHECK(us(r)==A-B,"%s is %lld us",w,(long long)us(r));
        int q=sh_tcmp(&a,&b); CHECK((q>0)-(q<0)==(A>B)-(A<B),"comparing %lld with %lld us gives %d",(long long)A,(long long)B,q); CHECK(q>=-1&&q<=1,"comparing gives %d",q); struct timeval zero={0,0}; r=a; sh_tsub(&r,&b); CHECK(sh_tcmp(&r,&zero)==q,"comparison and subtraction disagree on %lld and %lld",(long long)A,(long long)B); (void)c;
        r=a; sh_tmul(&r,m); snprintf(w,200,"%lld us times %d/1000",(long long)A,m); norm_ok(r,w); { __int128 e=(__int128)A*m, g=(__int128)us(r)*1000; CHECK(g-e<1000&&e-g<1000,"%s is %lld us",w,(long long)us(r)); }
        r=a; sh_tdiv(&r,m); snprintf(w,200,"%lld us times 1000/%d",(long long)A,m); norm_ok(r,w); { __int128 e=(__int128)A*1000, g=(__int128)us(r)*m; CHECK(g-e<m&&e-g<m,"%s is %lld us",w,(long long)us(r)); } }
    s.evals(n*5>0?n*5:1); s.nontrivial(n>=1);
}
static RegProp pl04({"L04",l04,1500000,8000000,15,200,false,30,"pairs of normalised times at and around carries, negative and large, and scale factors, against exact integers; non-trivial: at least one pair",0});
