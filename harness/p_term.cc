// Properties of the terminal emulator: T01..T14
#include "gen_vt.h"
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include <stdarg.h>

// Write through a buffer of the exact size, so that reading past it is seen.
static void xwrite(VT *v,const char *b,size_t n) { char *p=(char*)malloc(n?n:1); memcpy(p,b,n); tty_write(v,p,(int)n); free(p); }
static void xwrite(VT *v,const std::string &t) { xwrite(v,t.data(),t.size()); }
static void valid(VT *v,const char *when) { const char *e=sh_validate(v); CHECK(!e,"terminal not well-formed after %s: %s",when,e); }
static const char *kname[K_N]={"text","wide","marks","chars","control","cursor","erase","insdel","scroll","sgr","osc","mode","charset","save","resize","reset","unknown","raw","utf8","truncated","encoding"};
static void kind_labels(Src &s,const u32 *k) { for (int i=0;i<K_N;i++) if (k[i]) s.label(kname[i],k[i]); }

static const Profile ALL=profile({{K_TEXT,10},{K_WIDE,6},{K_COMB,5},{K_CHAR,4},{K_CTRL,6},{K_CURSOR,9},{K_ERASE,6},{K_INSDEL,6},{K_SCROLL,7},{K_SGR,6},{K_OSC,4},{K_MODE,2},{K_CHARSET,2},{K_SAVE,3},{K_RESIZE,3},{K_RESET,1},{K_UNKNOWN,3},{K_RAW,4},{K_UTF8,4},{K_TRUNC,4},{K_ENC,1}});

// ------------------------------------------------------------------ T01
static void t01(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(70);
    Profile p=swarm(s,ALL);
    struct Op { int k; std::string d; int a,b; };
    std::vector<Op> ops; u32 kc[K_N]={0}; GenCtx g{sx,sy}; bool sub=false;
    int burst= s.flip(6)? 40+(int)s.draw(200) : 0;   // many marks: make the table grow
    for (List l(s,s.tier?60:40,400);l.next();) {
        int k=s.weighted({30,2,1,2,burst?6:0});
        if (k==0) { int kk; ops.push_back({0,gen_op(s,p,g,&kk),0,0}); kc[kk]++; if (kk!=K_TEXT) sub=true; }
        else if (k==1) { int a=2+(int)s.num(60,{0,(u64)sx-2}), b=1+(int)s.num(20,{0,(u64)sy-1}); ops.push_back({1,"",a,b}); }
        else if (k==4) { std::string t; int n=1+(int)s.draw(60); for (int i=0;i<n;i++) { t+=s.flip(15)? utf8(0x4e00) : "x"; int c=(int)s.draw(6); while (c--) t+="\xcc\x81"; } ops.push_back({0,t,0,0}); }
        else ops.push_back({k,"",(int)s.draw(2),0});
    }
    s.note("terminal %dx%d%s",sx,sy,rs?" resizable":"");
    for (auto &o:ops) s.note("%s %s",o.k==0?"write":o.k==1?"resize":o.k==2?"reset":"copy",o.k==0?printable(o.d).c_str():o.k==1?(std::to_string(o.a)+"x"+std::to_string(o.b)).c_str():"");
    size_t before=alloc_bytes();
    {
        VT *v=tty_init(sx,sy,rs), *other=0;
        CHECK(v,"tty_init failed");
        valid(v,"creation");
        int i=0; char when[64];
        for (auto &o:ops) {
            snprintf(when,64,"operation %d",i++);
            switch (o.k) {
            case 0: xwrite(v,o.d); break;
            case 1: tty_resize(v,o.a,o.b); break;
            case 2: tty_reset(v); break;
            case 3: { VT *c=tty_copy(v); CHECK(c,"tty_copy failed"); if (other) tty_free(other); if (o.a) other=c; else { other=v; v=c; } valid(other,when); break; }
            }
            valid(v,when);
        }
        tty_free(v); if (other) { valid(other,"the end"); tty_free(other); }
    }
    size_t after=alloc_bytes();
    CHECK(before==after,"leaked %zd bytes",(ssize_t)(after-before));
    kind_labels(s,kc); s.nontrivial(sub && ops.size()>=5);
    s.label(ops.size()>=5?"long":"short");
}
static RegProp r01({"T01",t01,200000,3000000,22,280,true,30,"sequences of writes (structured and raw bytes), resizes, resets and copies on a random size; every state validated under ASan; non-trivial: at least five operations, not only plain text",0});

// ------------------------------------------------------------------ listeners that log
struct Log { std::vector<std::string> e; bool flush; };
static void L(VT *v,const char *f,...) { Log *l=(Log*)sh_ldata(v); char b[300]; va_list ap; va_start(ap,f); vsnprintf(b,300,f,ap); va_end(ap); l->e.push_back(b); }
static void lg_char(VT *v,int x,int y,u32 c,u64 a,int w) { L(v,"char %d,%d %x %llx %d",x,y,c,(unsigned long long)a,w); }
static void lg_comb(VT *v,int x,int y,u32 c,u64 a) { L(v,"comb %d,%d %x %llx",x,y,c,(unsigned long long)a); }
static void lg_cursor(VT *v,int x,int y) { L(v,"cursor %d,%d",x,y); }
static void lg_clear(VT *v,int x,int y,int l) { L(v,"clear %d,%d %d",x,y,l); }
static void lg_scroll(VT *v,int n) { Screen s; int o[6]; u64 a; const char *t; sh_info(v,o,&a,&t); L(v,"scroll %d (%d-%d)",n,o[4],o[5]); }
static void lg_flag(VT *v,int f,int x) { L(v,"flag %d %d",f,x); }
static void lg_osc(VT *v,int c,const char *t) { Log *l=(Log*)sh_ldata(v); l->e.push_back("osc "+std::to_string(c)+" "+t); }
static void lg_resize(VT *v,int x,int y) { L(v,"resize %dx%d",x,y); }
static void lg_flush(VT *v) { if (((Log*)sh_ldata(v))->flush) L(v,"flush"); }
static void lg_bell(VT *v) { L(v,"bell"); }
static void lg_free(VT *v) { L(v,"free"); }
static void listen(VT *v,Log *l) { void *f[11]={(void*)lg_char,(void*)lg_comb,(void*)lg_cursor,(void*)lg_clear,(void*)lg_scroll,(void*)lg_flag,(void*)lg_osc,(void*)lg_resize,(void*)lg_flush,(void*)lg_bell,(void*)lg_free}; sh_listen(v,l,f); }

static const char probe[]="\033" "8A\xcc\x81\033[CB\n\xe4\xb8\x80""C\033M\033M\033MD\x0eqx\x0f" "E\033[L\033[999;999HF\xcc\x80GH";
static void same(VT *a,VT *b,const char *what) {
    std::string d; { Screen x=snapshot(a), y=snapshot(b); for (auto &c:y.c) c.attr&=~A_CJK; d=diff(x,y); }
    CHECK(d.empty(),"%s: %s",what,d.c_str());
}
static std::vector<size_t> cuts(Src &s,size_t n) {
    std::vector<size_t> c; int style=(int)s.draw(4);
    if (style==0) { for (size_t i=1;i<n;i++) c.push_back(i); }
    else if (style==1) { size_t p=0; while (1) { p+=1+s.drawf(8,[](Rng &r)->u64{return r.below(8);}); if (p>=n||c.size()>500) break; c.push_back(p); } }
    else { for (List l(s,4,60);l.next();) c.push_back(s.draw(n+1)); std::sort(c.begin(),c.end()); }
    return c;
}
// ------------------------------------------------------------------ T02
static void t02(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(70); GenCtx g{sx,sy};
    if (s.drawf(8,[](Rng &r)->u64{ return r.below(8); })==7) {
        // formatted printing
        size_t n=s.drawf(40000,[](Rng &r)->u64 { switch (r.below(4)) { case 0: return 16383+r.below(3)-1; case 1: return 16380+r.below(10); case 2: return r.below(40000); default: return r.below(2000); } });
        std::string t=s.blob(n); std::replace(t.begin(),t.end(),'\0','x');
        int num=(int)s.draw(100000); { size_t rest=std::to_string(num).size()+5; if (t.size()>=rest+2) t.resize(t.size()-rest+(size_t)s.draw(3)-1); } // so that the whole hits the sizes above
        VT *a=tty_init(sx,sy,rs), *b=tty_init(sx,sy,rs); Log la,lb; la.flush=lb.flush=true; listen(a,&la); listen(b,&lb);
        s.note("tty_printf of %zu bytes: %s",t.size(),printable(t,60).c_str());
        char nb[32]; snprintf(nb,32,"<%d>",num);
        tty_printf(a,"%s<%d>%s",t.c_str(),num,"end"); xwrite(b,t+nb+"end");
        same(a,b,"tty_printf against tty_write");
        if (s.flip(30)) { size_t m0=alloc_bytes(); for (int k=0;k<400;k++) { tty_printf(a,"%s",""); if (t.size()>2000&&k<2) { tty_printf(a,"\e[s%.*s\e[u",k?16390:10,t.c_str()); xwrite(b,"\e[s"+t.substr(0,k?16390:10)+"\e[u"); } } size_t m1=alloc_bytes(); if (t.size()<=2000) CHECK(m1<=m0,"printing nothing takes %zu bytes each time",(m1-m0+399)/400); s.label("printf of nothing"); }
        CHECK(la.e==lb.e,"tty_printf gives %zu events, tty_write %zu, or others",la.e.size(),lb.e.size());
        xwrite(a,probe); xwrite(b,probe); same(a,b,"tty_printf against tty_write, later");
        tty_free(a); tty_free(b);
        s.label("printf"); if (t.size()>16384) s.label("printf over 16K"); s.nontrivial(t.size()>16000);
        return;
    }
    Profile p=swarm(s,ALL); std::string in; u32 kc[K_N]={0};
    for (List l(s,25,200);l.next();) { int k; in+=gen_op(s,p,g,&k); kc[k]++; }
    std::vector<size_t> c=cuts(s,in.size());
    std::string after; { int k; after=gen_op(s,p,g,&k); }
    s.note("terminal %dx%d, input %s",sx,sy,printable(in).c_str()); { std::string t; for (size_t x:c) t+=" "+std::to_string(x); if (t.size()>300) t.resize(300); s.note("cut at%s",t.c_str()); }
    VT *a=tty_init(sx,sy,rs), *b=tty_init(sx,sy,rs); Log la,lb; la.flush=lb.flush=false; listen(a,&la); listen(b,&lb);
    xwrite(a,in);
    size_t at=0; bool inside=false; for (size_t x:c) { xwrite(b,in.data()+at,x-at); if (x>at && x<in.size() && ((u8)in[x]>=0x80 && (u8)in[x]<0xc0 || in[x-1]==27 || in[x-1]=='[' || in[x-1]==';')) inside=true; at=x; } xwrite(b,in.data()+at,in.size()-at);
    same(a,b,"split input");
    for (size_t i=0;i<la.e.size()||i<lb.e.size();i++) CHECK(i<la.e.size() && i<lb.e.size() && la.e[i]==lb.e[i],"event %zu is \"%s\" in one write, \"%s\" when split",i,i<la.e.size()?la.e[i].c_str():"none",i<lb.e.size()?lb.e[i].c_str():"none");
    after+=probe; xwrite(a,after); xwrite(b,after); same(a,b,"split input, continued");
    CHECK(la.e==lb.e,"events differ in the continuation");
    tty_free(a); tty_free(b);
    kind_labels(s,kc); if (inside) s.label("cut inside a sequence or character"); s.nontrivial(inside && in.size()>20);
}
static RegProp r02({"T02",t02,45000,675000,22,280,true,30,"one input written whole and split, state and events compared; one case in eight prints a formatted string; non-trivial: a cut inside an escape sequence or character, or over 16000 bytes printed",0});

// ------------------------------------------------------------------ model comparison
struct ModelRun { bool events; int what; };
static void model_run(Src &s,const Profile &prof,const std::function<std::string(Src&,const GenCtx&,Model&)> &special,int special_w,int avg,const std::function<bool(Model&,const u32*)> &nontriv,bool use_swarm=true) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(80);
    Profile p=use_swarm? swarm(s,prof) : prof;
    Model m(sx,sy,rs); VT *v=tty_init(sx,sy,rs); Log lg; lg.flush=false; listen(v,&lg);
    s.note("terminal %dx%d%s",sx,sy,rs?" resizable":"");
    u32 kc[K_N]={0}; int n=0;
    for (List l(s,avg,avg*10);l.next();n++) {
        GenCtx g{m.sx,m.sy}; std::string o; int k;
        if (special && (int)s.drawf(100,[](Rng &r)->u64{return r.below(100);})<special_w) o=special(s,g,m); else { o=gen_op(s,p,g,&k); kc[k]++; }
        s.note("%s",printable(o).c_str());
        xwrite(v,o); m.feed(o);
        std::string d=diff(snapshot(v),m);
        if (!d.empty()) { valid(v,"a write"); failf("after %s: %s",printable(o,200).c_str(),d.c_str()); }
    }
    // what cannot be seen directly shows up in what follows
    xwrite(v,probe); m.feed(probe);
    std::string d=diff(snapshot(v),m); CHECK(d.empty(),"after the final probe: %s",d.c_str());
    // events reported once and in order
    std::vector<std::string> ev; for (auto &e:lg.e) { if (e=="bell" || !e.compare(0,4,"osc ") || !e.compare(0,7,"resize ")) ev.push_back(e); else if (!e.compare(0,7,"flag 0 ")) ev.push_back("flag cursor "+e.substr(7)); else if (!e.compare(0,7,"flag 1 ")) ev.push_back("flag kpad "+e.substr(7)); }
    for (auto &e:ev) if (e=="flag cursor -1") e="flag cursor 1"; else if (e=="flag kpad -1") e="flag kpad 1";
    for (size_t i=0;i<ev.size()||i<m.ev.size();i++) CHECK(i<ev.size() && i<m.ev.size() && ev[i]==m.ev[i],"event %zu reported as \"%s\", should be \"%s\"",i,i<ev.size()?printable(ev[i]).c_str():"none",i<m.ev.size()?printable(m.ev[i]).c_str():"none");
    tty_free(v);
    kind_labels(s,kc); if (m.scrolled) s.label("scrolled"); if (m.damaged) s.label("wide halves damaged",m.damaged); if (m.wraps) s.label("wraps",m.wraps); if (m.resizes) s.label("resized");
    s.nontrivial(nontriv(m,kc) && n>=3);
}

static void t03(Src &s) {
    static const Profile p=profile({{K_TEXT,14},{K_WIDE,10},{K_COMB,8},{K_CHAR,6},{K_CTRL,10},{K_CURSOR,6},{K_SCROLL,2},{K_SGR,3},{K_MODE,3},{K_SAVE,1},{K_ERASE,1}});
    model_run(s,p,[](Src &s,const GenCtx &g,Model &m)->std::string {
        // land at an interesting column and write something of an interesting width
        std::string o; int x=1+(int)s.draw(g.sx), y=1+(int)s.draw(g.sy); o="\033["+std::to_string(y)+";"+std::to_string(x)+"H";
        for (List l(s,3,12);l.next();) switch (s.weighted({3,4,3,2,1})) { case 0: o.push_back('a'+s.draw(26)); break; case 1: o+=utf8(gen_wide(s)); break; case 2: o+=utf8(gen_comb(s)); break; case 3: o.push_back("\t\b\r\n\v\f"[s.draw(6)]); break; default: o+=s.flip()?"\033[?7l":"\033[?7h"; }
        return o;
    },25,25,[](Model &m,const u32 *k){ return m.wraps>0 || m.damaged>0 || k[K_COMB]>0; });
}
static RegProp r03({"T03",t03,220000,3300000,22,280,true,30,"printable text of all widths, marks, tabs and simple controls compared cell by cell with a reference terminal after every operation; non-trivial: a wrap, a damaged wide character or marks occurred",0});

static void t04(Src &s) {
    static const Profile p=profile({{K_TEXT,6},{K_WIDE,3},{K_COMB,2},{K_CTRL,4},{K_CURSOR,16},{K_SCROLL,18},{K_SGR,3},{K_SAVE,6},{K_CHARSET,2}});
    model_run(s,p,nullptr,0,30,[](Model &m,const u32 *k){ return m.scrolled && k[K_CURSOR]; });
}
static RegProp r04({"T04",t04,250000,3750000,22,280,true,30,"cursor motion, region, scrolling and save/restore sequences with boundary parameters compared with a reference terminal; non-trivial: something scrolled and the cursor was moved",0});

static void t05(Src &s) {
    static const Profile p=profile({{K_TEXT,6},{K_WIDE,8},{K_COMB,4},{K_CURSOR,10},{K_ERASE,14},{K_INSDEL,14},{K_SGR,4},{K_CTRL,1}});
    model_run(s,p,[](Src &s,const GenCtx &g,Model &m)->std::string {
        // fill the line around the cursor, place the cursor, then one operation
        std::string o="\r"; int x=0; while (x<g.sx && x<60) { int k=(int)s.weighted({5,4}); if (k && x+2<=g.sx) { o+=utf8(0x4e00+(u32)s.draw(100)); x+=2; } else { o.push_back('a'+s.draw(26)); x++; } if (s.flip(10)) o+="\xcc\x81"; }
        if (s.flip(80)) o+="\033["+std::to_string(1+s.draw(g.sx))+"G"; 
        if (s.flip(40)) o+="\033[4"+std::to_string(s.draw(8))+"m";
        char f="JKX@P"[s.draw(5)]; o+="\033["; if (f=='J'||f=='K') o+=std::to_string(s.draw(3)); else o+=gen_param(s,g); o.push_back(f);
        return o;
    },30,22,[](Model &m,const u32 *k){ return k[K_ERASE]+k[K_INSDEL]>0 || m.damaged; });
}
static RegProp r05({"T05",t05,200000,3000000,22,280,true,30,"erase, insert and delete sequences on lines of mixed width at every cursor position, compared with a reference terminal; non-trivial: such an operation ran",0});

static void t06(Src &s) {
    static const Profile p=profile({{K_SGR,30},{K_TEXT,4},{K_WIDE,1},{K_ERASE,3},{K_CURSOR,3},{K_SCROLL,1},{K_SAVE,1},{K_INSDEL,1}});
    model_run(s,p,nullptr,0,30,[](Model &m,const u32 *k){ return k[K_SGR]>1; });
}
static RegProp r06({"T06",t06,250000,3750000,22,280,true,30,"streams of attribute sequences (all codes, colours, omitted, huge and too many parameters) and text, compared with a reference terminal; non-trivial: at least two attribute sequences",0});

static void t07(Src &s) {
    static const Profile p=profile({{K_CHAR,10},{K_UTF8,16},{K_TEXT,3},{K_ENC,3},{K_CHARSET,6},{K_RAW,2},{K_COMB,1},{K_WIDE,1},{K_CTRL,1},{K_SAVE,1},{K_RESET,1}});
    model_run(s,p,[](Src &s,const GenCtx &g,Model &m)->std::string {
        std::string o;
        switch (s.weighted({3,3,3})) {
        case 0: for (List l(s,8,100);l.next();) o.push_back((char)s.draw(256)); break;    // any byte, in either encoding
        case 1: { u32 c=gen_cp(s); std::string u=utf8(c); if (u.size()>1 && s.flip(40)) { size_t k=1+s.draw(u.size()-1); o=u.substr(0,k); o+="\033[m"; if (s.flip(30)) o+=s.flip()?"\033%@\x81\033%G":"\x0e"; o+=u.substr(k); } else o=u; break; }
        default: o=s.flip()?"\x0e":"\x0f"; for (List l(s,12,95);l.next();) o.push_back((char)(32+s.draw(95))); }
        return o; },30,25,[](Model &m,const u32 *k){ return k[K_CHAR]+k[K_UTF8]+k[K_CHARSET]>1; });
}
// every code point and every byte, exhaustively
static void t07_all(Src &s) {
    u64 chunk=s.draw(0x110000/0x400+2);
    VT *v=tty_init(80,4,0);
    if (chunk>=0x110000/0x400) {
        bool gfx=chunk&1; Model m(80,4,false);
        xwrite(v,gfx?"\x0e":"\033%@"); m.feed(gfx?"\x0e":"\033%@");
        for (int b=0;b<256;b++) { std::string t="\033[H"; t.push_back((char)b); xwrite(v,t); m.feed(t); std::string d=diff(snapshot(v),m); CHECK(d.empty(),"byte %02x (%s): %s",b,gfx?"line drawing":"CP437",d.c_str()); xwrite(v,"\x18\033[m"); m.feed("\x18\033[m"); }
        s.evals(256);
    } else {
        for (u32 c=(u32)chunk*0x400;c<(chunk+1)*0x400;c++) {
            if (c<32 || c==127) continue;
            u32 want=c; if (c>=0x80 && c<0xa0) want=0xfffd; if (c>=0xd800&&c<0xdc00) want=0; else if (c>=0xdc00 && c<0xe000) want=0xfffd; if ((c&0xfffe)==0xfffe || (c>=0xfdd0&&c<=0xfdef)) want=0xfffd; if (c==0xfeff) want=0;
            VT *w=tty_init(6,1,0);     // fresh: no pending surrogate
            xwrite(w,"a"+utf8(c)+"b");
            int wd=want? ref_width(want) : -1; Screen q=snapshot(w); SCell e0=q.at(0,0); CHECK(e0.ch=='a',"first cell lost");
            if (wd<0) CHECK(q.at(1,0).ch=='b' && !e0.nc,"U+%04X should yield nothing",c);
            else if (!wd) CHECK(e0.nc==1 && e0.comb[0]==want && q.at(1,0).ch=='b',"U+%04X should be a mark",c);
            else CHECK(q.at(1,0).ch==want && q.at(1+wd,0).ch=='b' && !e0.nc,"U+%04X gives cell %X",c,q.at(1,0).ch);
            tty_free(w);
        }
        s.evals(0x400);
    }
    tty_free(v); s.nontrivial(); s.label("exhaustive chunk");
}
static void t07_main(Src &s) {
    // the first cases enumerate everything once, the rest are random
    u64 e=s.drawf(2,[&](Rng&)->u64{ return s.case_idx<0x110000/0x400+2; });
    if (e) { Src &q=s; u64 idx=s.case_idx; Rng keep=s.rng; (void)keep; q.note("exhaustive chunk %llu",(unsigned long long)idx); 
        t07_all(s); }
    else t07(s);
}
static RegProp r07({"T07",t07_main,250000,3750000,22,280,true,30,"random chunks of all code points and bytes, then streams of valid, malformed and mixed encodings, compared with a reference decoder; non-trivial: at least two encoded or charset operations",0});

static void t08(Src &s) {
    static const Profile p=profile({{K_OSC,14},{K_MODE,8},{K_RESET,4},{K_UNKNOWN,12},{K_RESIZE,6},{K_TRUNC,6},{K_TEXT,6},{K_WIDE,2},{K_COMB,1},{K_SGR,3},{K_CHARSET,3},{K_SAVE,3},{K_SCROLL,3},{K_CURSOR,3},{K_CTRL,4},{K_RAW,3},{K_UTF8,2}});
    if (s.draw(6)==5) {
        // whatever the history, reset gives the same terminal as a new one
        int sx=gen_sx(s), sy=gen_sy(s); bool api=s.flip(); Profile q=swarm(s,ALL); GenCtx g{sx,sy};
        VT *v=tty_init(sx,sy,0); std::string in; for (List l(s,20,200);l.next();) in+=gen_op(s,q,g);
        xwrite(v,in);
        s.note("history %s, then %s reset",printable(in).c_str(),api?"API":"sequence");
        if (api) tty_reset(v); else xwrite(v,"\x18\033[c");
        xwrite(v,"\033%G\033[m");
        VT *w=tty_init(sx,sy,0); Screen a=snapshot(v), b=snapshot(w);
        b.title=a.title;             // a reset does not touch the title
        std::string d=diff(a,b); CHECK(d.empty(),"after a reset: %s",d.c_str());
        std::string more; Profile nou=ALL; nou[K_UTF8]=nou[K_RAW]=0; for (List l(s,8,40);l.next();) more+=gen_op(s,nou,g);
        more+=probe; xwrite(v,more); xwrite(w,more); a=snapshot(v); b=snapshot(w); for (auto &c:b.c) c.attr&=~A_CJK;
        if (more.find("\033]")==std::string::npos) b.title=a.title; else if (b.title.empty()) b.title=a.title;
        d=diff(a,b); CHECK(d.empty(),"later, after a reset: %s",d.c_str());
        tty_free(v); tty_free(w); s.label("reset compared with new"); s.nontrivial(in.size()>10); return;
    }
    model_run(s,p,nullptr,0,25,[](Model &m,const u32 *k){ return k[K_OSC]+k[K_MODE]+k[K_RESET]+k[K_UNKNOWN]+k[K_RESIZE]>1; });
}
static RegProp r08({"T08",t08,250000,3750000,22,280,true,30,"string commands, modes, resets, size requests, unknown and malformed sequences compared with a reference terminal (state and once-only events); one case in six compares a reset terminal with a new one; non-trivial: at least two such sequences",0});

// ------------------------------------------------------------------ T09
struct Obs : Screen { std::vector<std::string> once; bool writing; u64 n=0; };
static Obs *O(VT *v) { return (Obs*)sh_ldata(v); }
static void oput(Obs *o,int x,int y,u32 c,u64 a,int w) {
    for (int i=0;i<w;i++) { SCell &k=o->at(x+i,y); if (k.ch==RIGHT) { SCell &l=o->at(x+i-1,y); l.ch=' '; l.nc=0; memset(l.comb,0,sizeof l.comb); } else if (x+i+1<o->sx && o->at(x+i+1,y).ch==RIGHT) o->at(x+i+1,y).ch=' '; }
    for (int i=0;i<w;i++) { SCell k; memset(&k,0,sizeof k); k.ch=i?RIGHT:c; k.attr=a&~A_CJK; o->at(x+i,y)=k; }
}
static void in_screen(VT *v,int x,int y,const char *what,bool edge=false) { int q[6]; u64 a; const char *t; sh_info(v,q,&a,&t); CHECK(x>=0 && y>=0 && y<q[1] && (x<q[0] || edge && x==q[0]),"%s event outside the screen: %d,%d on %dx%d",what,x,y,q[0],q[1]); }
static u64 curattr(VT *v) { int q[6]; u64 a; const char *t; sh_info(v,q,&a,&t); return a; }
static void ob_char(VT *v,int x,int y,u32 c,u64 a,int w) {
    Obs *o=O(v); o->n++; in_screen(v,x,y,"character"); CHECK(w==1||w==2,"character event with width %d",w); CHECK(w==ref_width(c),"character U+%X reported with width %d",c,w); in_screen(v,x+w-1,y,"character");
    Screen s=snapshot(v); CHECK(s.at(x,y).ch==c && (s.at(x,y).attr&~A_CJK)==(a&~A_CJK),"character event before the change: U+%X at %d,%d, the screen has U+%X",c,x,y,s.at(x,y).ch);
    oput(o,x,y,c,a,w); o->cx=x+w; o->cy=y; }
static void ob_comb(VT *v,int x,int y,u32 c,u64 a) {
    Obs *o=O(v); o->n++; in_screen(v,x,y,"mark"); Screen s=snapshot(v); const SCell &q=s.at(x,y); bool has=false; for (u32 i=0;i<q.nc;i++) has|=q.comb[i]==c; CHECK(has,"mark event before the change");
    SCell &k=o->at(x,y); CHECK(k.nc<4,"mark event on a full cell"); k.comb[k.nc++]=c; }
static void ob_cursor(VT *v,int x,int y) { Obs *o=O(v); o->n++; in_screen(v,x,y,"cursor",true); int q[6]; u64 a; const char *t; sh_info(v,q,&a,&t); CHECK(q[2]==x && q[3]==y,"cursor event to %d,%d, the cursor is at %d,%d",x,y,q[2],q[3]); o->cx=x; o->cy=y; }
static void ob_clear(VT *v,int x,int y,int len) { Obs *o=O(v); o->n++; in_screen(v,x,y,"clear",true); int st=y*o->sx+x; CHECK(len>=0 && st+len<=o->sx*o->sy,"clear event of %d cells from %d,%d",len,x,y); CHECK(x+len<=o->sx || st==0 || st+len==o->sx*o->sy,"clear event spills over the line without reaching an end of the screen");
    Screen s=snapshot(v); SCell b; memset(&b,0,sizeof b); b.ch=' '; b.attr=curattr(v); for (int i=st;i<st+len;i++) { o->c[i]=b; CHECK(s.c[i].ch==' ' && !s.c[i].nc,"clear event before the change"); } }
static void ob_scroll(VT *v,int nl) { Obs *o=O(v); o->n++; int q[6]; u64 a; const char *t; sh_info(v,q,&a,&t); int s1=q[4], s2=q[5]; CHECK(s1>=0 && s1<s2 && s2<=o->sy,"scroll event with region %d-%d",s1,s2);
    std::vector<SCell> old=o->c; SCell b; memset(&b,0,sizeof b); b.ch=' '; b.attr=a; for (int y=s1;y<s2;y++) { int64_t f=(int64_t)y+nl; for (int x=0;x<o->sx;x++) o->at(x,y)= f>=s1&&f<s2? old[f*o->sx+x] : b; }
    // "The cursor is already moved."
    o->cx=q[2]; o->cy=q[3];
    std::string d=diff(snapshot(v),*o,0); CHECK(d.empty(),"at a scroll event by %d: %s",nl,d.c_str()); }
static void ob_flag(VT *v,int f,int x) { O(v)->once.push_back(std::string(f==0?"flag cursor ":f==1?"flag kpad ":"flag ? ")+(x?"1":"0")); }
static void ob_osc(VT *v,int c,const char *t) { if (c==0) O(v)->title=t; O(v)->once.push_back("osc "+std::to_string(c)+" "+t); }
static void obs_resize(Obs *o,int w,int h,u64 attr) {
    if (w==o->sx && h==o->sy) return;
    SCell b; memset(&b,0,sizeof b); b.ch=' '; b.attr=attr; std::vector<SCell> n(w*h,b);
    for (int y=0;y<h&&y<o->sy;y++) for (int x=0;x<w&&x<o->sx;x++) { SCell k=o->at(x,y); if (x+1==w && w<o->sx && o->at(w,y).ch==RIGHT) k.ch=' '; n[y*w+x]=k; }
    o->c=n; o->sx=w; o->sy=h; o->cx=std::min(o->cx,w); o->cy=std::min(o->cy,h-1);
}
static void ob_resize(VT *v,int w,int h) { Obs *o=O(v); int q[6]; u64 a; const char *t; sh_info(v,q,&a,&t); CHECK(q[0]==w && q[1]==h,"resize event to %dx%d, the terminal is %dx%d",w,h,q[0],q[1]); obs_resize(o,w,h,a); o->once.push_back("resize "+std::to_string(w)+"x"+std::to_string(h)); }
static void ob_flush(VT *v) { O(v)->once.push_back("flush"); }
static void ob_bell(VT *v) { O(v)->once.push_back("bell"); }
static void ob_free(VT *v) { O(v)->once.push_back("free"); }
static void t09(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); if (sx>50) sx=50; if (sy>14) sy=14; bool rs=s.flip(80); Profile p=swarm(s,ALL);
    VT *v=tty_init(sx,sy,rs); Obs o; *(Screen*)&o=snapshot(v); Model m(sx,sy,rs);
    void *f[11]={(void*)ob_char,(void*)ob_comb,(void*)ob_cursor,(void*)ob_clear,(void*)ob_scroll,(void*)ob_flag,(void*)ob_osc,(void*)ob_resize,(void*)ob_flush,(void*)ob_bell,(void*)ob_free}; sh_listen(v,&o,f);
    s.note("terminal %dx%d",sx,sy); u32 kc[K_N]={0}; int n=0; u64 wide=0;
    for (List l(s,25,250);l.next();n++) {
        GenCtx g{o.sx,o.sy}; int k; std::string t;
        int what=s.weighted({20,1,1});
        if (what==1) { int w=2+(int)s.draw(30), h=1+(int)s.draw(8); s.note("API resize %dx%d",w,h); u64 a=curattr(v); tty_resize(v,w,h); obs_resize(&o,w,h,a); m.resize(w,h); continue; }
        if (what==2) { // a whole line of mixed width, then an operation in its middle
            t="\r"; int x=0; while (x<g.sx) { if (s.flip(50) && x+2<=g.sx) { t+="\xe4\xb8\x80"; x+=2; } else { t.push_back('a'+x%26); x++; } if (s.flip(15)) t+="\xcc\x81"; } t+="\033["+std::to_string(1+s.draw(g.sx))+"G"; k=K_INSDEL; t+="\033["+gen_param(s,g)+"@PXKJ"[s.draw(5)]; }
        else t=gen_op(s,p,g,&k);
        kc[k]++; s.note("%s",printable(t).c_str());
        o.once.push_back("write"); m.ev.push_back("write");
        xwrite(v,t); m.feed(t); m.ev.push_back("flush");
        std::string d=diff(snapshot(v),o,D_CURSOR|D_TITLE|D_SIZE); CHECK(d.empty(),"the events of %s do not tell it all: real %s (by the events)",printable(t,200).c_str(),d.c_str());
    }
    for (size_t i=0;i<o.once.size()||i<m.ev.size();i++) CHECK(i<o.once.size() && i<m.ev.size() && o.once[i]==m.ev[i],"event %zu reported as \"%s\", should be \"%s\"",i,i<o.once.size()?printable(o.once[i]).c_str():"none",i<m.ev.size()?printable(m.ev[i]).c_str():"none");
    tty_free(v); CHECK(!o.once.empty() && o.once.back()=="free","no free event");
    kind_labels(s,kc); s.label("events",o.n); (void)wide; s.nontrivial(o.n>10);
}
static RegProp r09({"T09",t09,90000,1350000,22,280,true,30,"an observer fed only with listener events is compared with the terminal after every write of any kind of input; non-trivial: over ten events",0});

// ------------------------------------------------------------------ T10
static Model *real10; static std::string pending10;
static ssize_t ck_write(void *c,const char *b,size_t n) { (void)c; pending10.append(b,n); return (ssize_t)n; }
static void drain10() { real10->feed(pending10); pending10.clear(); }
static void hook10() {}
static void mirror(Src &s,bool plain) { // plain: a locale with nothing but ASCII
    struct Loc { bool on; Loc(bool o):on(o) { if (on) setlocale(LC_CTYPE,"C"); } ~Loc() { if (on) setlocale(LC_CTYPE,"C.UTF-8"); } } loc(plain);
    int sx=gen_sx(s), sy=gen_sy(s); if (sx>70) sx=70; if (sy>20) sy=20;
    bool dump=s.flip(60), at80=dump&&s.flip(40);
    int ex=(int)s.drawf(40,[](Rng &r)->u64{ return r.pct(60)?0:r.below(40); }), ey=(int)s.drawf(20,[](Rng &r)->u64{ return r.pct(60)?0:r.below(20); });
    bool rs=s.flip(60); Profile p=swarm(s,ALL); bool ibm=false, mixed=false; u32 repl=0,graph=0;
    if (plain) { if (s.flip(70)) { p[K_CHARSET]=p[K_MODE]=p[K_RAW]=p[K_ENC]=p[K_TRUNC]=p[K_UNKNOWN]=p[K_OSC]=0; int t=0; for (int x:p) t+=x; if (!t) p[K_CHAR]=p[K_TEXT]=1; ibm=s.flip(60); } else mixed=true; }
    VT *v=tty_init(sx,sy,rs); Model r(at80?80:sx+ex,at80?25:sy+ey,false); r.escc=true; if (plain) r.utf8=false;
    if (ibm) { xwrite(v,"\033%@"); s.note("with the IBM character set"); }
    auto want=[&](SCell q)->SCell { if (plain && q.ch>=128) { if (ibm && q.ch!=RIGHT && ref_width(q.ch)==1) for (int i=32;i<127;i++) if (ref_vt100(i)==q.ch) { graph++; q.nc=0; memset(q.comb,0,sizeof q.comb); return q; } q.ch='?'; repl++; } if (plain) { q.nc=0; memset(q.comb,0,sizeof q.comb); } return q; };
    auto same=[&](const SCell &q,const SCell &w,bool was_wide) { SCell e=want(q); if (!memcmp(&e,&w,sizeof e)) return true; if (!plain || e.attr!=w.attr) return false;
        if (w.ch=='?' && e.ch==' ' && was_wide) return true;                       // the other half of what was overwritten
        return mixed && q.ch>=128 && (w.ch=='?' || w.ch==q.ch); };                 // the set of characters was changed meanwhile
    bool was_wide=false; auto seen=[&](const std::string &t) { for (u8 c:t) if (c>=0xe0) was_wide=true; };
 real10=&r; pending10.clear();
    s.note("terminal %dx%d, real one %dx%d%s",sx,sy,r.sx,r.sy,dump?", attached later with a dump":"");
    u32 kc[K_N]={0};
    if (dump) {
        Profile q=p; q[K_RESIZE]=0; q[K_RAW]=0; { int t=0; for (int x:q) t+=x; if (!t) q[K_TEXT]=1; }
        for (List l(s,12,100);l.next();) { Screen z=snapshot(v); int k; std::string t=gen_op(s,q,GenCtx{z.sx,z.sy},&k); s.note("before: %s",printable(t).c_str()); seen(t); xwrite(v,t); }
        // the real terminal has a history of its own
        for (List l(s,3,20);l.next();) { std::string t=gen_op(s,q,GenCtx{r.sx,r.sy}); s.note("real one before: %s",printable(t).c_str()); r.feed(t); }
        r.feed(plain?"\x18\033%@":"\x18\033%G"); r.title.clear(); Screen z=snapshot(v); if (z.sx>r.sx||z.sy>r.sy) { tty_free(v); return; }
    }
    r.resizable=true;
    cookie_io_functions_t io={0,ck_write,0,0}; FILE *f=fopencookie(0,"w",io);
    static char buf[1<<17]; setvbuf(f,buf,_IOFBF,sizeof buf);
    if (at80) { vtvt_attach(v,f,1); CHECK(!pending10.empty(),"the dump was not flushed"); drain10(); s.label("attached with dump"); } // 80x25 is assumed for what is no terminal
    else { vtvt_attach(v,f,0); vtvt_resize(v,r.sx,r.sy); if (dump) { fputs("\033c",f); vtvt_dump(v); fflush(f); drain10(); s.label("forced redraw after attaching"); } }
    sh_follow_resize(v,hook10);
    bool title_known=!dump||at80;
    auto compare=[&](const char *when) {
        Screen a=snapshot(v); CHECK(r.sx>=a.sx && r.sy>=a.sy,"%s: size request not passed on: the real terminal is %dx%d, should be %dx%d",when,r.sx,r.sy,a.sx,a.sy);
        for (int y=0;y<a.sy;y++) for (int x=0;x<a.sx;x++) { SCell q=a.at(x,y); q.attr&=~A_CJK; SCell w=r.at(x,y);
            if (!same(q,w,was_wide)) { Screen one=a, two=a; one.sx=two.sx=1; one.sy=two.sy=1; one.c.assign(1,w); two.c.assign(1,want(q)); failf("%s: the real terminal differs at %d,%d: %s",when,x,y,diff(one,two,0).c_str()); } }
        bool ok=r.cy==a.cy && (r.cx==a.cx || (a.cx==a.sx && r.cx==a.cx-1));
        CHECK(ok,"%s: the real cursor is at %d,%d, should be %d,%d",when,r.cx,r.cy,a.cx,a.cy);
        if (title_known && !(plain && std::any_of(a.title.begin(),a.title.end(),[](char c){ return c&0x80; }))) CHECK(r.title==a.title,"%s: title \"%s\", should be \"%s\"",when,printable(r.title).c_str(),printable(a.title).c_str());
    };
    compare("after attaching");
    int n=0;
    for (List l(s,22,220);l.next();n++) {
        int what=s.weighted({20,1,1,2}); std::string t; Screen q=snapshot(v); GenCtx g{q.sx,q.sy};
        if (what==1) { s.note("redraw"); vtvt_dump(v); fflush(f); drain10(); compare("after a redraw"); continue; }
        if (what==2) { int w=2+(int)s.draw(60), h=1+(int)s.draw(18); t="\033[8;"+std::to_string(h)+";"+std::to_string(w)+"t"; }
        else if (what==3) { t="\r"; int x=0; while (x<g.sx) { if (s.flip(40) && x+2<=g.sx) { t+="\xe4\xb8\x80"; x+=2; } else { t.push_back('a'+x%26); x++; } if (s.flip(20)) t+="\xcc\x81"; } if (s.flip(60)) { t+="\033["+std::to_string(1+s.draw(g.sx))+"G"; t+="\033["+gen_param(s,g)+"@PXKJ"[s.draw(5)]; } }
        else { int k; t=gen_op(s,p,g,&k); kc[k]++; }
        s.note("%s",printable(t).c_str()); seen(t);
        xwrite(v,t); s.note("  sent %s",printable(pending10,300).c_str()); drain10();
        compare(("after "+printable(t,150)).c_str());
    }
    tty_free(v); fclose(f);
    kind_labels(s,kc); if (r.resizes) s.label("resized"); if (ex||ey) s.label("larger real terminal");
    if (plain) { if (ibm) s.label("IBM character set"); if (mixed) s.label("any mode"); if (graph) s.label("graphics"); if (repl) s.label("replaced"); s.nontrivial(n>=4 && repl+graph); } else s.nontrivial(n>=4);
}
static void t10(Src &s) { mirror(s,false); }
static void t15(Src &s) { mirror(s,true); }
static RegProp r15({"T15",t15,160000,2400000,22,280,true,30,"a terminal mirrored in a locale that has nothing but ASCII, fed with any kind of input; the bytes sent drive an independent model of a terminal without Unicode; non-trivial: at least four writes, something replaced",0});
static RegProp r10({"T10",t10,160000,2400000,22,280,true,30,"a mirrored terminal fed with any kind of input; the bytes sent to the stream by the end of each write drive an independent model of the real terminal, whose screen is compared; non-trivial: at least four writes",0});

// ------------------------------------------------------------------ T11
static u64 hits11;
static void h11(VT*) { hits11++; }
static void t11(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(70); Profile p=swarm(s,ALL); GenCtx g{sx,sy};
    VT *a=tty_init(sx,sy,rs); static int cookie; hits11=0;
    bool lst=s.flip(60); if (lst) { void *f[11]; for (auto &x:f) x=(void*)h11; sh_listen(a,&cookie,f); }
    u32 kc[K_N]={0}; std::string in;
    for (List l(s,18,150);l.next();) { int k; in+=gen_op(s,p,g,&k); kc[k]++; }
    if (!in.empty() && s.flip(60)) in.resize(s.draw(in.size()+1));
    s.note("terminal %dx%d%s, input %s",sx,sy,lst?" with listeners":"",printable(in).c_str());
    xwrite(a,in);
    VT *b=tty_copy(a); CHECK(b,"tty_copy failed"); same(b,a,"fresh copy"); valid(b,"copying");
    CHECK(!sh_listeners(b),"the copy has %d listeners",sh_listeners(b));
    if (lst) { hits11=0; VT *c=tty_copy(a); xwrite(c,"x\a\n\033]0;t\a\033[8;9;9t\033[?25l\xcc\x81\033[2J"); tty_free(c); CHECK(!hits11,"listeners of the original called through a copy"); same(b,a,"after using a second copy"); }
    // independence: change one, the other must not move
    Screen b0=snapshot(b);
    int act=(int)s.draw(4); VT *c=tty_copy(b);
    std::string junk; for (List l(s,5,40);l.next();) junk+=gen_op(s,p,g);
    if (act==0) { xwrite(c,junk); } else if (act==1) { tty_resize(c,2+(int)s.draw(40),1+(int)s.draw(12)); xwrite(c,junk); } else if (act==2) { tty_reset(c); xwrite(c,junk); }
    if (act!=3) valid(c,"diverging"); tty_free(c);
    { Screen b1=snapshot(b); for (auto &x:b0.c) x.attr&=~A_CJK; std::string d=diff(b1,b0); CHECK(d.empty(),"changing a copy changed the other: %s",d.c_str()); }
    // the same further input keeps them identical
    for (List l(s,6,60);l.next();) { std::string t; int z=(int)s.draw(12); if (z==11) { int w=2+(int)s.draw(40), h=1+(int)s.draw(12); tty_resize(a,w,h); tty_resize(b,w,h); } else if (z==10) { tty_reset(a); tty_reset(b); } else { Screen q=snapshot(b); t=gen_op(s,p,GenCtx{q.sx,q.sy}); s.note("then %s",printable(t).c_str()); xwrite(a,t); xwrite(b,t); } same(b,a,"same input to the original and the copy"); }
    xwrite(a,probe); xwrite(b,probe); same(b,a,"probe"); valid(b,"probing");
    if (s.flip()) { tty_free(a); xwrite(b,junk); valid(b,"freeing the original"); tty_free(b); } else { u64 h=hits11; tty_free(b); CHECK(h==hits11,"freeing a copy called a listener"); xwrite(a,junk); valid(a,"freeing the copy"); tty_free(a); }
    kind_labels(s,kc); if (lst) s.label("with listeners"); s.nontrivial(in.size()>10);
}
static RegProp r11({"T11",t11,250000,3750000,22,280,true,30,"a terminal in any state (also inside a sequence) is copied; copies are diverged, freed and fed the same input; non-trivial: over ten bytes before the copy",0});

// ------------------------------------------------------------------ T12
static void t12(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(75);
    static const Profile base=profile({{K_TEXT,8},{K_WIDE,8},{K_COMB,5},{K_CURSOR,6},{K_SGR,4},{K_SAVE,4},{K_SCROLL,4},{K_CTRL,2},{K_ERASE,1},{K_RESIZE,8},{K_MODE,1}});
    Profile p=swarm(s,base);
    Model m(sx,sy,rs); VT *v=tty_init(sx,sy,rs); s.note("terminal %dx%d%s",sx,sy,rs?" resizable":""); int res=0, n=0;
    for (List l(s,20,200);l.next();n++) {
        std::string d;
        if (s.drawf(10,[](Rng &r)->u64{return r.below(10);})>=7) {
            int w=2+(int)s.num(90,{(u64)m.sx-2,(u64)m.sx-3,(u64)m.sx-1,0}), h=1+(int)s.num(40,{(u64)m.sy-1,(u64)m.sy,0});
            s.note("API resize to %dx%d",w,h); bool same_size=w==m.sx&&h==m.sy; Screen before=snapshot(v);
            int rc=tty_resize(v,w,h); m.resize(w,h); res++;
            CHECK(same_size || rc,"tty_resize failed"); if (same_size) { for (auto &c:before.c) c.attr&=~A_CJK; d=diff(snapshot(v),before); CHECK(d.empty(),"resizing to the same size: %s",d.c_str()); }
            d=diff(snapshot(v),m); CHECK(d.empty(),"after a resize to %dx%d: %s",w,h,d.c_str()); valid(v,"a resize");
        } else { std::string t=gen_op(s,p,GenCtx{m.sx,m.sy}); s.note("%s",printable(t).c_str()); int was=m.resizes; xwrite(v,t); m.feed(t); if (m.resizes!=was) { res++; valid(v,"a resize"); } d=diff(snapshot(v),m); CHECK(d.empty(),"after %s: %s",printable(t,200).c_str(),d.c_str()); }
    }
    xwrite(v,probe); m.feed(probe); std::string d=diff(snapshot(v),m); CHECK(d.empty(),"after the final probe: %s",d.c_str());
    tty_free(v); s.label("resizes",res); if (m.damaged) s.label("wide halves damaged"); s.nontrivial(res>0 && n>=3);
}
static RegProp r12({"T12",t12,200000,3000000,22,280,true,30,"screens of mixed content resized by API and by sequence, compared with a reference terminal; non-trivial: at least one resize and three operations",0});

// ------------------------------------------------------------------ T13
#define CH13 0x1000
static void t13(Src &s) {
    u64 chunk=s.drawf(0x110000/CH13,[&](Rng&)->u64{ return s.case_idx%(0x110000/CH13); });
    s.note("code points from U+%04X",(u32)(chunk*CH13));
    for (u32 c=(u32)chunk*CH13;c<(chunk+1)*CH13;c++) {
        if (c>=0xd800 && c<0xe000) continue;            // not encodable
        int want=ref_width(c);
        VT *v=tty_init(8,2,0);
        bool non=(c&0xfffe)==0xfffe || (c>=0xfdd0&&c<=0xfdef);
        if (c<0x20||c==0x7f) { tty_free(v); continue; } // acted upon as controls, see T03
        std::string t="ab"+utf8(c); if (c>=0x80&&c<0xa0) { want=1; } if (non) want=1; if (c==0xfeff) want=-1;
        xwrite(v,t); Screen q=snapshot(v);
        int got=q.cx-2; if (got==0) got=q.at(1,0).nc==1? 0 : -1;
        CHECK(got==want,"U+%04X occupies %d columns, should be %d",c,got,want);
        if (want==2) CHECK(q.at(3,0).ch==RIGHT,"U+%04X has no right half",c);
        tty_free(v);
        if (!non) CHECK(mk_wcwidth(c)==ref_width(c),"mk_wcwidth(U+%04X) is %d, should be %d",c,mk_wcwidth(c),ref_width(c));
    }
    s.evals(CH13); s.nontrivial(); s.label("code points",CH13);
}
static RegProp r13({"T13",t13,272,272,120,300,false,60,"exhaustive: every code point (surrogates and controls excepted) is written to a terminal and its column count compared with the frozen reference table; each chunk of 4096 counts as one distinct non-trivial case",0});

// ------------------------------------------------------------------ T14
static u32 pal(u32 i) { // the documented palette
    if (i<16) { static const u32 v[16]={0x000000,0xaa0000,0x00aa00,0xaa5500,0x0000aa,0xaa00aa,0x00aaaa,0xaaaaaa,0x555555,0xff5555,0x55ff55,0xffff55,0x5555ff,0xff55ff,0x55ffff,0xffffff}; return v[i]; }
    if (i<232) { static const u32 l[6]={0,95,135,175,215,255}; i-=16; return l[i/36]<<16|l[i/6%6]<<8|l[i%6]; }
    return (8+(i-232)*10)*0x10101;
}
static int absd(int a,int b) { return a>b?a-b:b-a; }
static u32 metric(u32 x,u32 y) { // the documented one: Riemersma's weights on absolute differences
    int r1=x>>16,g1=x>>8&255,b1=x&255,r2=y>>16,g2=y>>8&255,b2=y&255; int rm=(r1+r2)/2;
    return 2*absd(r1,r2)+4*absd(g1,g2)+3*absd(b1,b2)+rm*(absd(r1,r2)-absd(b1,b2))/256;
}
static u32 to16(u32 c) { int r=c>>16&255,g=c>>8&255,b=c&255,m=std::max(r,std::max(g,b)); u32 h=(r>m/2+32?1:0)|(g>m/2+32?2:0)|(b>m/2+32?4:0); if (h==7&&m<=0x70) return 8; return m>0xc0? h|8 : h; }
static u32 cube1(u32 x) { u32 k=(x+5)/40; return k?k-1:0; }
static void check_rgb(u32 c) {
    u32 full=3u<<24|c;
    u32 k=tty_color_convert(full,1); CHECK(k==to16(c),"#%06x becomes basic colour %u, should be %u",c,k,to16(c));
    u32 p=tty_color_convert(full,2); CHECK(p<256,"#%06x becomes palette entry %u",c,p);
    u32 c1=to16(c), c2=16+cube1(c>>16)*36+cube1(c>>8&255)*6+cube1(c&255); u32 g=232+((c>>16)*2+(c>>8&255)*3+(c&255))/60; if (g>255) g=255;
    u32 best=std::min(metric(c,pal(c1)),std::min(metric(c,pal(c2)),metric(c,pal(g))));
    CHECK(metric(c,pal(p))<=best,"#%06x becomes palette entry %u at distance %u, a candidate is at %u",c,p,metric(c,pal(p)),best);
    CHECK(tty_color_convert(full,3)==full,"#%06x does not convert to itself",c);
    CHECK(tty_color_convert(full,0)==0,"#%06x to no colour",c);
}
static void t14(Src &s) {
    u64 e=s.drawf(2,[&](Rng&)->u64{ return s.case_idx<1024; });
    if (e) { // exhaustive: all 24-bit colours in 1024 chunks, all small cases
        u64 chunk=s.drawf(1024,[&](Rng&)->u64{ return s.case_idx%1024; }); s.note("24-bit colours #%06x..",(u32)chunk<<14);
        for (u32 c=(u32)chunk<<14;c<(chunk+1)<<14;c++) check_rgb(c);
        s.evals(1<<14); s.label("24-bit colours",1<<14); s.nontrivial(); return; }
    u32 from=(u32)s.draw(4), v=(u32)s.num(1u<<24,{0,255,256}), to=(u32)s.draw(4); bool shifted=s.flip(); u32 t=shifted? to<<24 : to;
    if (from==1) v&=15; if (from==2) v&=255; if (from==0) v=0;
    u32 c=from<<24|v, r=tty_color_convert(c,t); s.note("%08x to %u gives %08x",c,to,r);
    CHECK(r==tty_color_convert(c,t),"not deterministic");
    if (!to) CHECK(r==0,"%08x to no colour gives %08x",c,r);
    else if (from==to) CHECK(r==c,"%08x to its own mode gives %08x",c,r);
    else if (from==1&&to==2) CHECK((r&0xff)==v,"basic colour %u becomes palette entry %08x",v,r);
    else if ((from==1||from==2)&&to==3) CHECK((r&0xffffff)==pal(v),"palette entry %u becomes %06x, should be %06x",v,r&0xffffff,pal(v));
    else if (from==2&&to==1) CHECK((r&0xffffff)==to16(pal(v)),"palette entry %u becomes basic colour %u, should be %u",v,r,to16(pal(v)));
    else if (from==3) { if (to==1) CHECK(r==to16(v),"24-bit to basic"); check_rgb(v); }
    s.label("random conversion"); s.nontrivial(from&&to&&from!=to);
}
static RegProp r14({"T14",t14,150000,2250000,22,280,false,60,"exhaustive over all 24-bit colours (chunks of 16384), random conversions between all modes; non-trivial: a conversion between different colour modes",0});

// ------------------------------------------------------------------ T17: the real terminal is smaller
static int gen_real(Src &s,int n,int max) { int w=s.weighted({6,3,2}); int r= w==0? 1+(int)s.draw(n) : w==1? n-1-(int)s.draw(3) : 1+(int)s.draw(max); return r<1?1:r; }
static void t17(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); if (sx>90) sx=90; if (sy>30) sy=30; bool rs=s.flip(50), dump=s.flip(60); Profile p=swarm(s,ALL); VT *v=tty_init(sx,sy,rs); Model r(gen_real(s,sx,60),gen_real(s,sy,20),false); r.escc=true; if (r.sx<2) r.sx=2; { Model z(r.sx,r.sy,false); z.escc=true; r=z; }
    real10=&r; pending10.clear(); s.note("terminal %dx%d, real one %dx%d",sx,sy,r.sx,r.sy); u32 kc[K_N]={0}; int redraws=0,hidden=0;
    if (dump) for (List l(s,12,60);l.next();) { Screen z=snapshot(v); std::string t=gen_op(s,p,GenCtx{z.sx,z.sy}); s.note("before: %s",printable(t).c_str()); xwrite(v,t); }
    for (List l(s,3,20);l.next();) { std::string t=gen_op(s,p,GenCtx{r.sx,r.sy}); s.note("real one before: %s",printable(t).c_str()); r.feed(t); } r.feed("\x18\033%G");
    cookie_io_functions_t io={0,ck_write,0,0}; FILE *f=fopencookie(0,"w",io); static char buf[1<<17]; setvbuf(f,buf,_IOFBF,sizeof buf);
    vtvt_attach(v,f,0); vtvt_resize(v,r.sx,r.sy); fputs("\033c",f); vtvt_dump(v); fflush(f); drain10();
    auto compare=[&](const char *when) {
        Screen a=snapshot(v); int w=std::min(a.sx,r.sx), h=std::min(a.sy,r.sy); if (a.sx>r.sx||a.sy>r.sy) hidden++;
        for (int y=0;y<h;y++) for (int x=0;x<w;x++) { SCell q=a.at(x,y); q.attr&=~A_CJK; SCell k=r.at(x,y); if (x==r.sx-1 && a.sx>r.sx && a.at(x+1,y).ch==RIGHT) continue; // half of a character doesn't fit
            if (memcmp(&q,&k,sizeof q)) { Screen one=a, two=a; one.sx=two.sx=1; one.sy=two.sy=1; one.c.assign(1,k); two.c.assign(1,q); failf("%s: the real terminal (%dx%d, emulated %dx%d) differs at %d,%d: %s",when,r.sx,r.sy,a.sx,a.sy,x,y,diff(one,two,0).c_str()); } }
        if (a.cx<r.sx && a.cy<r.sy && a.cx<a.sx) CHECK(r.cx==a.cx&&r.cy==a.cy,"%s: the real cursor is at %d,%d, should be %d,%d",when,r.cx,r.cy,a.cx,a.cy);
    };
    compare("after attaching"); int n=0;
    for (List l(s,22,160);l.next();n++) {
        int what=s.weighted({20,1,1,2,1,2}); std::string t; Screen q=snapshot(v); GenCtx g{q.sx,q.sy};
        if (what==1) { s.note("redraw"); vtvt_dump(v); fflush(f); drain10(); compare("after a redraw"); redraws++; continue; }
        if (what==4) { int w=std::max(2,gen_real(s,q.sx,60)), h=gen_real(s,q.sy,20); s.note("the real terminal becomes %dx%d",w,h); r.resize(w,h); vtvt_resize(v,w,h); vtvt_dump(v); fflush(f); s.note("  sent %s",printable(pending10,300).c_str()); drain10(); compare("after the real terminal is resized"); redraws++; continue; }
        if (what==2) { int w=2+(int)s.draw(80), h=1+(int)s.draw(28); t="\033[8;"+std::to_string(h)+";"+std::to_string(w)+"t"; }
        else if (what==3) { t="\r"; int x=0; while (x<g.sx) { if (s.flip(40) && x+2<=g.sx) { t+="\xe4\xb8\x80"; x+=2; } else { t.push_back('a'+x%26); x++; } if (s.flip(20)) t+="\xcc\x81"; } if (s.flip(60)) { t+="\033["+std::to_string(1+s.draw(g.sx))+"G"; t+="\033["+gen_param(s,g)+"@PXKJ"[s.draw(5)]; } }
        else if (what==5) { int y=std::max(1,std::min(g.sy,r.sy+(int)s.draw(3)-1)), x=std::max(1,std::min(g.sx,r.sx+(int)s.draw(3)-1)); t="\033["+std::to_string(y)+";"+std::to_string(x)+"H"; if (s.flip()) t+=s.flip()?"ab\xe4\xb8\x80":"\xe4\xb8\x80"; if (s.flip()) t+="\n"; if (s.flip()) t+="\033["+gen_param(s,g)+"@PXKJLM"[s.draw(7)]; }
        else { int k; t=gen_op(s,p,g,&k); kc[k]++; }
        s.note("%s",printable(t).c_str()); xwrite(v,t); s.note("  sent %s",printable(pending10,300).c_str()); drain10(); compare(("after "+printable(t,150)).c_str());
    }
    tty_free(v); fclose(f); kind_labels(s,kc); s.label("redraws",redraws); s.nontrivial(n>=4&&hidden>=2);
}
static RegProp r17({"T17",t17,160000,2400000,22,280,true,30,"a mirrored terminal fed with any kind of input while the real one is smaller, doesn't grant size requests and is itself resized; the bytes sent drive an independent model of it, whose screen is compared with the corner that fits; non-trivial: at least four writes, part of the screen not visible at two comparisons",0});

// ------------------------------------------------------------------ T16: memory running out
extern "C" { extern int vp_fail_at,vp_fail_all,vp_hits; }
struct Oom { Oom(int n,bool all) { vp_hits=0; vp_fail_all=all; vp_fail_at=n; } ~Oom() { vp_fail_at=0; } static int stop() { vp_fail_at=0; return vp_hits; } };
static void t16(Src &s) {
    int sx=gen_sx(s), sy=gen_sy(s); bool rs=s.flip(60); Profile p=swarm(s,ALL); int hits=0; long long held=0; auto M=[&](auto f) { size_t a=alloc_bytes(); f(); held+=(long long)alloc_bytes()-(long long)a; }; // what the library holds
    {
        // creation
        if (s.flip(20)) { int n=1+(int)s.draw(3); VT *v; bool all=s.flip(); M([&]{ Oom o(n,all); v=tty_init(sx,sy,rs); }); s.note("tty_init(%d,%d) with allocation %d failing",sx,sy,n); if (vp_hits) { hits++; CHECK(!v,"tty_init has returned a terminal though memory has run out"); } else { CHECK(v,"tty_init failed"); } if (v) { valid(v,"creation"); M([&]{ tty_free(v); }); } CHECK(!held,"tty_init leaks %lld bytes",(long long)held); s.label("creation"); }
        VT *v,*w; M([&]{ v=tty_init(sx,sy,rs); w=tty_init(sx,sy,rs); }); CHECK(v&&w,"tty_init failed"); bool same_size=true;
        for (List l(s,12,80);l.next();) {
            int k=s.weighted({8,3,3}), n=s.flip(70)?1+(int)s.draw(4):1+(int)s.num(60), all=s.flip(); Screen q=snapshot(v), qm=q; for (auto &c:qm.c) c.attr&=~A_CJK;
            if (k==0) {
                std::string d; int m=1+(int)s.draw(4); while (m--) { if (s.flip(30)) { int c=1+(int)s.num(70); d+="e"; while (c--) d+="\xcc\x81"; } else if (s.flip(15)) { d+="\033]0;name"+std::to_string(s.draw(100)); d+=s.flip()?"\a":"\033\\"; } else d+=gen_op(s,p,GenCtx{q.sx,q.sy}); }
                s.note("write %s; allocation %d%s fails",printable(d,300).c_str(),n,all?" and all later ones":"");
                M([&]{ Oom o(n,all); xwrite(v,d); }); bool hit=vp_hits>0; if (hit) hits++; M([&]{ xwrite(w,d); }); valid(v,"writing");
                Screen a=snapshot(v), b=snapshot(w); if (a.sx!=b.sx||a.sy!=b.sy) { CHECK(hit&&rs,"the size is %dx%d instead of %dx%d",a.sx,a.sy,b.sx,b.sy); same_size=false; s.label("a resize refused"); }
                if (hit&&rs&&d.find('t')!=std::string::npos) same_size=false; // one of several resizes may have been refused
                if (hit) s.label("writing");
            } else if (k==1) {
                int x=2+(int)s.draw(90), y=1+(int)s.draw(30); int r; M([&]{ Oom o(n,all); r=tty_resize(v,x,y); }); bool hit=vp_hits>0; s.note("resize to %dx%d; allocation %d fails",x,y,n);
                if (hit) { hits++; Screen a=snapshot(v); CHECK(!r,"tty_resize has succeeded though memory has run out"); std::string e=diff(a,qm); CHECK(e.empty(),"a failed tty_resize has changed the terminal: %s",e.c_str()); valid(v,"a failed resize"); s.label("resize"); if (s.flip()) { M([&]{ tty_resize(w,x,y); }); same_size=false; } }
                else { M([&]{ tty_resize(w,x,y); }); valid(v,"resizing"); }
            } else {
                long long m0=held; VT *c; M([&]{ Oom o(n,all); c=tty_copy(v); }); bool hit=vp_hits>0; s.note("copy; allocation %d fails",n); { Screen a=snapshot(v); std::string e=diff(a,qm); CHECK(e.empty(),"copying has changed the terminal: %s",e.c_str()); }
                if (hit) hits++,s.label("copy"); if (!c) { CHECK(hit,"tty_copy failed"); CHECK(m0==held,"a failed tty_copy leaks %lld bytes",(long long)(held-m0)); }
                else { valid(c,"copying"); Screen a=snapshot(c); CHECK(a.sx==q.sx&&a.sy==q.sy&&a.c.size()==q.c.size(),"the copy has another size"); for (size_t i=0;i<a.c.size();i++) CHECK(a.c[i].ch==q.c[i].ch&&(a.c[i].attr==q.c[i].attr),"the copy differs at %zu,%zu",i%a.sx,i/a.sx); std::string junk=gen_op(s,p,GenCtx{q.sx,q.sy}); M([&]{ xwrite(c,junk+"\xcc\x81\033]0;t\a"); }); valid(c,"using the copy"); M([&]{ tty_free(c); }); CHECK(m0==held,"a copy made with little memory leaks %lld bytes",(long long)(held-m0)); }
            }
            // what doesn't need memory is all there
            if (same_size) { Screen a=snapshot(v), b=snapshot(w); CHECK(a.cx==b.cx&&a.cy==b.cy,"the cursor is at %d,%d instead of %d,%d",a.cx,a.cy,b.cx,b.cy); for (size_t i=0;i<a.c.size();i++) CHECK(a.c[i].ch==b.c[i].ch&&a.c[i].attr==b.c[i].attr,"with too little memory, the cell %zu,%zu is U+%04X %llx instead of U+%04X %llx",i%a.sx,i/a.sx,(unsigned)a.c[i].ch,(unsigned long long)a.c[i].attr,(unsigned)b.c[i].ch,(unsigned long long)b.c[i].attr); }
            else { M([&]{ tty_free(w); w=tty_copy(v); }); CHECK(w,"tty_copy failed"); same_size=true; }
        }
        M([&]{ tty_free(v); tty_free(w); });
    }
    CHECK(!held,"leaked %lld bytes",(long long)held); s.nontrivial(hits>=2);
}
static RegProp r16({"T16",t16,160000,2400000,20,280,true,30,"histories of writes, resizes and copies in which generated allocations fail, next to a twin that has all the memory; non-trivial: at least two operations met a failure",0});
