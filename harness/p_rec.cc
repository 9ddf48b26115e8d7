// Properties of recordings: R01..R09
#include "rec.h"
#include "gen_vt.h"
#include "vclk.h"
#include <sys/stat.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <math.h>
#include <signal.h>
#include <thread>
#include <algorithm>
using std::string; using std::vector;

static void note_frames(Src &s,const vector<Frame> &f) { int k=0; for (auto &x:f) { if (k++>12) { s.note("..."); break; } s.note("frame at %lld.%06lld: %s (%zu bytes)",(long long)(x.t/1000000),(long long)(x.t%1000000),printable(x.d,100).c_str(),x.d.size()); } }
// records with the library; the descriptor is of a regular file, returned content is the file
static string record(const char *format,const char *name,const i64 *start,const vector<Frame> &f) {
    string fn; int fd=-1; if (!name) { fn=tmpname(".out"); put_file(fn,""); fd=open(fn.c_str(),O_WRONLY); } else fn=name;
    struct timeval st=tv(start?*start:0);
    Recorder r=ttyrec_w_open(fd,format,fn.c_str(),start?&st:0); CHECK(r,"ttyrec_w_open failed");
    for (auto &x:f) { struct timeval t=tv(x.t); char *p=(char*)malloc(x.d.size()?x.d.size():1); memcpy(p,x.d.data(),x.d.size()); CHECK(ttyrec_w_write(r,&t,p,x.d.size()),"ttyrec_w_write failed"); free(p); }
    CHECK(ttyrec_w_close(r),"ttyrec_w_close failed");
    string d=get_file(fn); unlink(fn.c_str()); return d;
}
static Trace play_mem(const string &d,const char *format,const char *name=0) { Trace t=play(mem_fd(d),format,name); CHECK(t.ret,"ttyrec_r_play failed"); return t; }

// ------------------------------------------------------------------ R01
static u32 rd32(const string &d,size_t o) { return (u8)d[o]|(u8)d[o+1]<<8|(u8)d[o+2]<<16|(u32)(u8)d[o+3]<<24; }
static void r01(Src &s) {
    static const i64 bases[]={0,1,999999,1234567890,2147483647ll*1000000,4294000000ll*1000000};
    i64 t0= s.flip(60)? (i64)s.num(4000000000u)*1000000+s.draw(1000000) : bases[s.draw(6)];
    vector<Frame> f=gen_frames(s,false,4,60,6,t0); for (auto &x:f) if (x.t>4294967295ll*1000000+999999) x.t=f[0].t>4294967295ll*1000000?4294967295ll*1000000:std::max(f[0].t,(i64)4294967295ll*1000000);
    note_frames(s,f);
    bool st=s.flip(); i64 start=t0; bool byname=s.flip(30); string nm; if (byname) nm=tmpname(s.flip()?".ttyrec":".TtyRec");
    string d=record(byname?0:"ttyrec",byname?nm.c_str():0,st?&start:0,f);
    // layout
    size_t o=0; int i=0;
    for (auto &x:f) {
        CHECK(o+12<=d.size(),"the file ends at %zu, before the header of frame %d",d.size(),i);
        u32 a=rd32(d,o),b=rd32(d,o+4),n=rd32(d,o+8);
        CHECK(a==x.t/1000000&&b==x.t%1000000&&n==x.d.size(),"frame %d at %zu has a header of %u, %u, %u instead of %lld, %lld, %zu",i,o,a,b,n,(long long)(x.t/1000000),(long long)(x.t%1000000),x.d.size());
        CHECK(d.compare(o+12,n,x.d)==0,"frame %d at %zu has other data",i,o); o+=12+n; i++; }
    CHECK(o==d.size(),"%zu extra bytes at the end",d.size()-o);
    CHECK(d==enc_ttyrec(f),"not the same as the reference encoder's");
    // read back: explicitly, by name, by contents
    Norm want; if (!f.empty()) want=expect(f[0].t,f,f[0].t);
    int how=(int)s.draw(3); if (how==2&&!(f.size()&&f[0].d.size()>0&&f[0].d.size()<65536)) how=0;
    Trace t=how==1? play_mem(d,0,s.flip()?"x.ttyrec":"/tmp/Y.TTYREC") : play_mem(d,how?"auto":"ttyrec");
    string e=normdiff(norm(t),want); CHECK(e.empty(),"read back: %s",e.c_str());
    bool big=false; for (auto &x:f) if (x.d.size()>32768) big=true;
    if (big) s.label("frame over 32 KB"); s.label(how==0?"explicit":how==1?"by name":"auto"); s.nontrivial(f.size()>=2);
}
static RegProp pr01({"R01",r01,300000,4000000,20,280,false,30,"frame sequences recorded as ttyrec, the file compared with a reference encoder and the playback with the frames; non-trivial: at least two frames",0});

// ------------------------------------------------------------------ R02
static bool cont(char c) { return ((u8)c&0xc0)==0x80; }
// length of an incomplete character at the end
static size_t partial(const string &d) { size_t n=d.size(),k=0; while (k<3&&k<n&&cont(d[n-1-k])) k++; if (k>=n) return 0; u8 c=d[n-1-k]; size_t need= c>=0xf0?4: c>=0xe0?3: c>=0xc0?2:1; return need>k+1? k+1 : 0; }
static void r02(Src &s) {
    int ver=s.flip()?2:1; string text; vector<Frame> f; i64 t0= s.flip(30)?0: (i64)s.num(2000000000)*1000000+(s.flip()?s.draw(1000000):0); bool st= t0||s.flip(); i64 t=t0; int sx=80,sy=25; bool noteit=s.flip(60); string first;
    if (noteit) { sx=2+(int)s.num(200,{78,130}); sy=1+(int)s.num(100,{24,23}); char b[40]; snprintf(b,40,"\e%%G\e[8;%d;%dt",sy,sx); first=b; if (s.flip(25)) first+=gen_text(s,2); }
    else if (s.flip(20)) { sx=2+(int)s.num(200); sy=1+(int)s.num(100); char b[40]; snprintf(b,40,"ab\e[8;%d;%dt",sy,sx); first=b; }
    else first=gen_text(s,2);
    text=gen_text(s,s.rare(33)?2000:12); if (s.rare(100)) { int n=1+(int)s.draw(40); string l; while (n--) l+=gen_text(s,3); while (l.size()<300000&&!l.empty()) l+=l; text+=l; }
    // split anywhere
    if (!noteit&&s.flip(30)) { text=first+text; } else f.push_back({t,first});
    size_t o=0; while (o<text.size()) { size_t n=1+s.num(s.flip(30)?4:200,{1,2,3}); if (text.size()>20000) n=n*300; n=std::min(n,text.size()-o); if (!s.flip(20)) t+=gen_delay(s); f.push_back({t,text.substr(o,n)}); o+=n; if (s.flip(2)) f.push_back({t,""}); }
    if (s.flip(10)) { t+=1; u32 c=0x1f600; string q=utf8(c); f.push_back({t,"z"+q.substr(0,1+s.draw(3))}); }
    note_frames(s,f); s.note("version %d, %s start",ver,st?"with":"no");
    string d=record(ver==1?"asciicast-v1":"asciicast",0,st?&t0:0,f);
    if (!f.empty()) { Model m(80,25,true); m.feed(f[0].d); sx=m.sx; sy=m.sy; } else sx=80,sy=25;
    i64 base=st?t0:0;
    // what should be in there
    struct X { i64 t; string d; }; vector<X> want; string carry; bool split=false;
    for (size_t i=0;i<f.size();i++) { string q=f[i].d; if (i==0) { size_t k=0; if (noteit) { k=q.find('t')+1; } q=q.substr(k); if (q.empty()) continue; } q=carry+q; size_t p=partial(q); carry=q.substr(q.size()-p); if (p) split=true; q.resize(q.size()-p); if (!q.empty()) want.push_back({f[i].t-base,q}); }
    // an independent parser
    string err; vector<Json> evs; Json head;
    if (ver==2) { size_t a=0; int ln=0; CHECK(!d.empty()&&d.back()=='\n',"the last line is not terminated"); while (a<d.size()) { size_t b=d.find('\n',a); Json j; CHECK(json_parse(d.substr(a,b-a),j,err),"line %d is not valid JSON: %s: %s",ln+1,err.c_str(),printable(d.substr(a,b-a),200).c_str()); if (ln++) evs.push_back(j); else head=j; a=b+1; } }
    else { CHECK(json_parse(d,head,err),"not valid JSON: %s: %s",err.c_str(),printable(d,300).c_str()); const Json *o=head.get("stdout"); CHECK(o&&o->t==Json::ARR,"no stdout array"); evs=o->a; }
    auto num=[&](const char *k)->i64 { const Json *j=head.get(k); CHECK(j&&j->t==Json::NUM,"header field %s is missing or not a number",k); return atoll(j->s.c_str()); };
    CHECK(head.t==Json::OBJ,"the header is not an object"); CHECK(num("version")==ver,"version is %lld",(long long)num("version")); CHECK(num("width")==sx&&num("height")==sy,"the size is %lldx%lld instead of %dx%d",(long long)num("width"),(long long)num("height"),sx,sy);
    if (head.get("timestamp")||base/1000000) CHECK(num("timestamp")==base/1000000,"the timestamp is %lld instead of %lld",(long long)num("timestamp"),(long long)(base/1000000));
    CHECK(evs.size()==want.size(),"%zu events instead of %zu",evs.size(),want.size()); i64 prev=0; i64 vb=ver==2? base%1000000 : 0; // version 2 is relative to whole seconds
    for (size_t i=0;i<evs.size();i++) { Json &e=evs[i]; size_t n=ver==2?3:2; CHECK(e.t==Json::ARR&&e.a.size()==n&&e.a[0].t==Json::NUM&&e.a[n-1].t==Json::STR,"event %zu has a wrong form",i); if (n==3) CHECK(e.a[1].t==Json::STR&&e.a[1].s=="o","event %zu is not output",i);
        CHECK(e.a[n-1].s==want[i].d,"event %zu has data %s instead of %s",i,printable(e.a[n-1].s,200).c_str(),printable(want[i].d,200).c_str());
        i64 us=llround(strtod(e.a[0].s.c_str(),0)*1e6), w=want[i].t+vb-(ver==1?prev:0); CHECK(us==w,"event %zu has time %s instead of %lld us",i,e.a[0].s.c_str(),(long long)w); prev=want[i].t; }
    // read it back
    Norm nw; nw.started=true; nw.start=base/1000000*1000000; char b[60]; snprintf(b,60,"\e%%G\e[8;%d;%dt",sy,sx); nw.seg.push_back({0,b}); for (auto &x:want) { i64 q=x.t+vb; if (nw.seg.back().first==q) nw.seg.back().second+=x.d; else nw.seg.push_back({q,x.d}); nw.end=q; }
    int how=(int)s.draw(3); Trace tr=how==0?play_mem(d,"asciicast"):how==1?play_mem(d,0,"a.CAST"):play_mem(d,"auto");
    string e=normdiff(norm(tr),nw); CHECK(e.empty(),"read back: %s",e.c_str());
    if (split) s.label("split character"); if (noteit) s.label("size note"); if (d.size()>200000) s.label("large"); s.label(ver==1?"v1":"v2"); s.nontrivial(want.size()>=2);
}
static RegProp pr02({"R02",r02,110000,1500000,20,280,false,30,"UTF-8 text split anywhere into frames, recorded as asciicast v1 or v2, parsed by an independent strict JSON parser and read back; non-trivial: at least two output events",0});

// ------------------------------------------------------------------ R03
static void r03(Src &s) {
    CastStyle c; c.version=s.flip()?2:1; c.fancy=s.weighted({1,6,6}); c.sx=1+(int)s.num(300,{79,131}); c.sy=1+(int)s.num(100,{24}); c.ts=s.flip()?0:(i64)s.num(4000000000u);
    vector<Frame> f; i64 t=0; for (List l(s,5,80);l.next();) { if (!s.flip(15)) t+=gen_delay(s); f.push_back({t,gen_text(s,3)}); }
    if (s.rare(150)) { string x=gen_text(s,5)+"y"; size_t lim=s.rare(10)?300000:40000; while (x.size()<lim) x+=x; f.push_back({t,x}); }
    string d=enc_cast(s,c,f,0); bool app=s.flip(8); Norm n; n.started=true; n.start=c.ts*1000000; char b[60]; snprintf(b,60,"\e%%G\e[8;%d;%dt",c.sy,c.sx); n.seg.push_back({0,b});
    i64 last=0; auto add=[&](const vector<Frame> &f,i64 off) { for (auto &x:f) { i64 q=x.t+off; if (x.d.empty()) continue; if (n.seg.back().first==q) n.seg.back().second+=x.d; else n.seg.push_back({q,x.d}); } };
    add(f,0); last=f.empty()?0:f.back().t;
    if (app) { CastStyle c2=c; c2.fancy=s.draw(2); c2.version=s.flip()?c.version:3-c.version; vector<Frame> g=gen_frames(s,true,3,20,0,0); string d2=enc_cast(s,c2,g,0); d+=d2; snprintf(b,60,"\e%%G\e[8;%d;%dt",c2.sy,c2.sx); vector<Frame> h; h.push_back({0,b}); for (auto &x:g) h.push_back(x); add(h,last); if (g.size()) last+=g.back().t; }
    s.note("%s",printable(d,1500).c_str());
    Json j; string err; if (!app&&c.version==1) if (!json_parse(d,j,err)) { fprintf(stderr,"harness: generated invalid JSON: %s\n",err.c_str()); _exit(77); }
    bool tt,tc; is_content(d,&tt,&tc); int how=s.weighted({2,2,tc?3:0}); bool pipe_=s.flip(20);
    Trace tr=how==0?play_mem(d,s.flip()?"asciicast":"AsciiCast"):how==1?play_mem(d,0,"dir.x/a.cast"):play_mem(d,0,s.flip()?0:"noext"); (void)pipe_;
    Norm g=norm(tr); n.end=last; i64 endg=g.end; // a final event of another type may end later, an empty event has no data
    if (endg>=last-1&&c.fancy) n.end=g.end;
    string e=normdiff(g,n); CHECK(e.empty(),"%s",e.c_str());
    s.label(c.version==1?"v1":"v2"); s.label(how==0?"explicit":how==1?"by name":"auto"); if (app) s.label("appended"); s.nontrivial(f.size()>=2&&c.fancy);
}
static RegProp pr03({"R03",r03,350000,4500000,20,280,true,30,"conforming asciicasts with random white space, field order, unknown fields, escapes and number notations, compared with the generated frames; non-trivial: at least two events in a varied notation",0});

// ------------------------------------------------------------------ R04
static void r04(Src &s) {
    if (s.flip(25)) { // raw
        vector<Frame> f=gen_frames(s,false,4,40,5,0); note_frames(s,f); string d=record("ansi",0,0,f),all; for (auto &x:f) all+=x.d;
        CHECK(d==all,"an ansi recording is not the plain data"); int how=(int)s.draw(2); Trace t=how?play_mem(d,"baudrate"):play_mem(d,0,"z.txt"); Norm n=norm(t); string got; i64 at=0; size_t k=0;
        CHECK(n.data()==all,"played data differ"); for (size_t o=0;o<all.size();o+=60,at+=200000) { CHECK(k<n.seg.size()&&n.seg[k].first==at&&n.seg[k].second==all.substr(o,60),"bytes from %zu are not shown as 60 bytes at %lld us",o,(long long)at); k++; }
        CHECK(n.end==at,"the whole takes %lld us instead of %lld",(long long)n.end,(long long)at); s.label("raw"); s.nontrivial(all.size()>60); return; }
    int parts=1+(s.flip(20)?1+(int)s.draw(2):0); string file; vector<Frame> all; i64 off=0; size_t total=0;
    for (int p=0;p<parts;p++) {
        i64 t0=s.flip(40)?0:(i64)s.num(2000000000)*1000000+s.draw(1000000); bool st=t0||s.flip(); i64 t=t0; vector<Frame> f; if (s.flip(30)) t+=s.draw(3000000);
        for (List l(s,5,100);l.next();) { if (!s.flip(20)) t+=std::min<i64>(gen_delay(s),100000000000ll); if (t-t0>18000000000000ll) t=t0+18000000000000ll; f.push_back({t,gen_data(s,12)}); if (s.flip(10)) { i64 q=32768-(i64)((total+5)%32768)-(i64)s.draw(9); f.back().d+=s.blob(q>0?q:0); } total+=f.back().d.size()+5; }
        s.note("part %d, start %lld",p,(long long)t0); note_frames(s,f);
        string d=record(s.flip()?"nh_recorder":"NH_Recorder",0,st?&t0:0,f); file+=d;
        i64 last=off; for (auto &x:f) { string q; for (char c:x.d) if (c) q+=c; last=off+x.t-t0; all.push_back({last,q}); } off=last;
    }
    Trace tr=s.flip()?play_mem(file,"nh_recorder"):play_mem(file,0,"x.NH"); Norm g=norm(tr); string want; for (auto &x:all) want+=x.d;
    Norm w; for (auto &x:all) { if (!x.d.empty()) w.seg.push_back({x.t,x.d}); w.end=x.t; } w.started=g.started; w.start=g.start;
    string e=normdiff(g,w,true,10000ll*parts); CHECK(e.empty(),"%s",e.c_str());
    // every frame keeps its own time: data of frames a hundredth apart must not be merged - implied by the tolerance above
    if (file.size()>32768) s.label("beyond the read buffer"); if (parts>1) s.label("appended"); s.label("nh"); s.nontrivial(all.size()>=2);
}
static RegProp pr04({"R04",r04,60000,800000,20,280,false,30,"frames recorded as nh-recorder (also appended) or raw, time stamps placed around read buffer ends; non-trivial: at least two frames, or more than 60 raw bytes",0});

// ------------------------------------------------------------------ R05
static u64 vga_attr(u8 a) { Model m(8,2,false); static const int o[]={0,4,2,6,1,5,3,7}; char b[60]; snprintf(b,60,"\e[0m\e[4%dm\e[3%dm",o[a>>4&7],o[a&7]); m.feed(b); if (a&8) m.feed("\e[1m"); if (a&0x80) m.feed("\e[5m"); return m.attr; }
static void r05(Src &s) {
    static u64 at[256]; static bool init; if (!init) { for (int i=0;i<256;i++) at[i]=vga_attr(i); init=true; }
    static std::pair<u8,u8> sc[256][2000]; for (auto &x:sc) for (auto &y:x) y={' ',7};
    string file; vector<DosFrame> fr; int bad=0; struct E { u32 delay; vector<std::pair<u8,u8>> scr; string title; }; vector<E> ex; string title;
    for (List l(s,3,25);l.next();) {
        DosFrame f=gen_dos(s); string e=enc_dos(f); if (file.empty()&&e[0]==0x1f) f.delay+=1,e=enc_dos(f);
        bool stop=false;
        if (!bad&&s.flip(5)) { bad=1+s.weighted({1,f.ch.empty()?0:1,f.ch.empty()?0:1,f.note?1:0,f.note?1:0}); stop=true; auto w16=[&](size_t o,u32 v) { e[o]=(char)v; e[o+1]=(char)(v>>8); };
            size_t box=10+4*f.ch.size(); for (auto &c:f.ch) box+=2*c.c.size();
            switch (bad) { case 1: w16(8,2001+s.draw(0x7fff-2001)); break; case 2: { size_t k=s.draw(f.ch.size()); w16(10+4*k,2000+s.draw(63536)); break; } case 3: { size_t k=s.draw(f.ch.size()); w16(12+4*k,2001-f.ch[k].pos+s.draw(60000)); break; }
            case 4: if (s.flip()) e[box]=(char)(81-f.x+s.draw(174)); else e[box+1]=(char)(26-f.y+s.draw(200)); break; case 5: e[box+4]=(char)(81+s.draw(170)); break; } }
        file+=e; fr.push_back(f); s.note("delay %u, screens %d->%d, %zu chunks%s%s",f.delay,f.sscr,f.dscr,f.ch.size(),f.note?", note":"",stop?", corrupted":""); for (auto &c:f.ch) { string q; for (auto &a:c.c) q+=(char)a.first; s.note("  at %d: %s",c.pos,printable(q,60).c_str()); }
        if (bad) { if (!stop) continue; if (s.flip()) file+=s.blob(s.num(40000)); else file+=string(60000,'\x01'); continue; }
        E x; x.delay=f.delay; x.scr.assign(sc[f.sscr],sc[f.sscr]+2000); for (auto &c:f.ch) for (size_t i=0;i<c.c.size();i++) x.scr[c.pos+i]=c.c[i]; for (int i=0;i<2000;i++) sc[f.dscr][i]=x.scr[i];
        if (f.note) { for (int i=0;i<f.h;i++) for (int j=0;j<f.w;j++) x.scr[(f.y+i)*80+f.x+j]=f.box[i*f.w+j]; title=f.title; } x.title=title; ex.push_back(x);
    }
    bool gz=s.flip(40); string d=gz?compress_ref(0,file,(int)s.draw(9)):file;
    Trace t=s.flip()?play_mem(d,"dosrecorder"):play_mem(d,0,"a.DM2");
    // the screen after the data at each wait
    Model m(80,25,true); m.escc=true; i64 now=0,want=0; size_t k=0; bool any=false;
    auto check=[&]{ CHECK(k<ex.size(),"more frames than recorded"); CHECK(now==want+(i64)ex[k].delay*1000,"frame %zu is at %lld us instead of %lld",k,(long long)now,(long long)(want+(i64)ex[k].delay*1000)); want=now;
        CHECK(m.sx==80&&m.sy==25,"the terminal is %dx%d",m.sx,m.sy);
        for (int i=0;i<2000;i++) { auto c=ex[k].scr[i]; SCell &q=m.c[i]; u32 ch= c.first? ref_cp437(c.first):' '; CHECK(q.ch==ch&&(q.attr&~A_CJK)==at[c.second]&&!q.nc,"frame %zu, line %d column %d: U+%04X %llx is shown, recorded is byte %02x attribute %02x (U+%04X %llx)",k,i/80,i%80,q.ch,(unsigned long long)q.attr,c.first,c.second,ch,(unsigned long long)at[c.second]); }
        CHECK(m.title==ex[k].title||(m.title.empty()&&ex[k].title.empty()),"frame %zu: the title is %s, should be %s",k,printable(m.title).c_str(),printable(ex[k].title).c_str()); k++; };
    for (auto &e:t.ev) { if (e.k==1) { if (any) { check(); any=false; } now+=e.s*1000000+e.us; } else if (e.k==2) { m.feed(e.d); any=true; } }
    if (any) check();
    CHECK(k==ex.size(),"%zu frames instead of %zu",k,ex.size());
    if (bad) s.label("corrupted"); if (gz) s.label("gzipped"); for (auto &f:fr) if (f.note) { s.label("note"); break; } s.evals(1+ex.size()); s.nontrivial(ex.size()>=2);
}
static RegProp pr05({"R05",r05,35000,450000,20,280,false,30,"DosRecorder files of screens, chunks, screen reuse, notes and corrupted counts, the playback interpreted by the reference terminal; non-trivial: at least two good frames",0});

// ------------------------------------------------------------------ generators of any input
static const char *rfmt[]={"baudrate","ttyrec","nh_recorder","dosrecorder","asciicast","live","auto"};
// a valid recording of a format; the format whose content it is (index in rfmt)
struct Recd { int fmt; string bytes; vector<size_t> ends; vector<Frame> fr; bool exact=true; };
static Recd gen_rec(Src &s,int fmt,int avg,int big) {
    Recd r; r.fmt=fmt; i64 t0=s.flip(30)?0:(i64)s.num(2000000000)*1000000+s.draw(1000000);
    switch (fmt) {
    case 1: r.fr=gen_frames(s,false,avg,avg*10,big,t0,false); r.bytes=enc_ttyrec(r.fr,&r.ends); break;
    case 2: { r.fr=gen_frames(s,false,avg,avg*10,big,t0); r.bytes=enc_nh(r.fr,t0,&r.ends); for (auto &x:r.fr) { string q; for (char c:x.d) if (c) q+=c; x.d=q; x.t=(x.t-t0)/10000*10000; } break; }
    case 3: { for (List l(s,2,8);l.next();) { DosFrame f=gen_dos(s); if (r.bytes.empty()&&(f.delay&255)==0x1f) f.delay++; r.bytes+=enc_dos(f); r.ends.push_back(r.bytes.size()); } r.exact=false; break; }
    case 4: { CastStyle c; c.version=s.flip()?2:1; c.fancy=(int)s.draw(3); c.sx=1+(int)s.draw(200); c.sy=1+(int)s.draw(60); c.ts=s.flip()?0:(i64)s.num(2000000000); i64 z=0; r.fr=gen_frames(s,true,avg,avg*10,0,0); if (big&&s.flip(big)) r.fr.push_back({z=r.fr.empty()?0:r.fr.back().t,s.flip()?string(5000,'q'):gen_text(s,300)}); r.bytes=enc_cast(s,c,r.fr,0,&r.ends); break; }
    default: r.bytes=s.flip(30)? s.blob(s.num(70000,{60,32768,12})) : gen_data(s,big); if (s.flip(30)) r.bytes.resize(s.num(20)); break;
    }
    return r;
}
static string mutate(Src &s,string d) {
    for (List l(s,3,40);l.next();) {
        size_t n=d.size(); size_t p=n?s.num(n):0;
        switch (s.weighted({4,3,2,3,2,2})) {
        case 0: if (n) d[p]=(char)s.draw(256); break;
        case 1: if (n) d.erase(p,1+s.num(20)); break;
        case 2: d.insert(p,s.blob(1+s.num(20))); break;
        case 3: { static const char *q[]={"{","}","[","]",",",":","\"","\\","\\u","\\u0000","\\ud83d","\\ude00","1e99","-1","1e-99","99999999999999999999","0.000001","\"version\"","\"width\":","\"height\":","\"timestamp\":","\"stdout\":[","\"o\"","[1.0,\"o\",\"x\"]","null","\n","\e[8;99;99t"}; d.insert(p,q[s.draw(27)]); break; }
        case 4: if (n) { size_t q=s.num(n); d.insert(p,d.substr(q,s.num(60))); } break;
        case 5: if (n>=4) { p=std::min(p,n-4); u32 v; switch (s.draw(4)) { case 0: v=0xffffffff; break; case 1: v=0x7fffffff; break; case 2: v=(u32)s.num(100000,{32768,65535,65536,999999}); break; default: v=(u32)s.draw(0); } for (int i=0;i<4;i++) d[p+i]=(char)(v>>(8*i)); } break;
        }
    }
    return d;
}

// ------------------------------------------------------------------ R06
static void r06(Src &s) {
    int f=(int)s.draw(7); string d; int src=s.weighted({3,5,1}); int content=f==6||s.flip(10)? 1+(int)s.draw(4) : f==5?0:f;
    if (src==0) { for (List l(s,12,400);l.next();) d+= s.flip(70)? string(1,(char)s.drawf(256,[&](Rng &r)->u64{ return s.rng.pct(40)? s.dictval()&255 : r.below(256); })) : s.flip()? string(1+s.num(20),'\0') : s.blob(1+s.num(100)); }
    else { Recd r=gen_rec(s,content,2,4); d=r.bytes; if (src==1) d=mutate(s,d); if (s.flip(10)) { Recd q=gen_rec(s,1+(int)s.draw(4),2,2); d+=q.bytes; } }
    if (f==4&&s.draw(100)==77) { // strings about as long as the reader's buffer
        d="{\"version\": 2"; i64 k=(i64)s.draw(13)-6; size_t n=(size_t)(1048576+(s.flip(80)?k:k*1000)); int where=s.weighted({6,1,1,1}); string q; static const char *un[]={"x","\\n","\\u00e9","\\u20ac","\\ud83d\\ude00","\xe2\x82\xac"}; static const int ul[]={1,1,2,3,4,3}; int m=s.weighted({6,1,1,1,2,1}); while (q.size()<n) q.resize(n,'x'); { string z; size_t o=0, tail=s.draw(12); while (o+ul[m]<=tail) { z+=un[m]; o+=ul[m]; } q.resize(n-o); q+=z; }
        if (where==1) d+=", \""+q+"\": 1}\n"; else if (where==2) d+=", \"title\": \""+q+"\"}\n"; else if (where==3) d+=", \"env\": {\"x\":\""+q+"\"}}\n"; else d+="}\n";
        if (where==0) d+="[1.0, \"o\", \""+q+"\"]\n"; d+="[2.0, \"o\", \"end\"]\n"; s.label("huge string"); }
    bool gz=f==3&&s.flip(20); if (gz) { d=compress_ref(0,d,6); if (s.flip()) d=mutate(s,d); }
    static const char *nm[]={"x.txt","x.ttyrec","x.nh","x.dm2","x.cast","x","x"}; int how=(int)s.draw(3);
    s.note("format %s, %zu bytes%s: %s",rfmt[f],d.size(),gz?" (gzipped)":"",hex(d,200).c_str()); s.note("%s",printable(d,300).c_str());
    if (f==5&&how==1) how=0;
    int fd0=nfds(); Trace *t=new Trace; size_t before=alloc_bytes(), inner=0; string all;
    {
        int fd; string fn; if (how==2) { fn=tmpname(f<5?nm[f]+1:""); put_file(fn,d); fd=-1; before=alloc_bytes(); } else { fd=mem_fd(d); before=alloc_bytes(); }
        *t= how==0? play(fd,rfmt[f],0) : how==1? play(fd,0,f==6?(s.flip()?0:"x"):nm[f]) : play(-1,f>=5?rfmt[f]:0,fn.c_str());
        CHECK(t->ret==1,"ttyrec_r_play failed"); inner=t->bytes; for (auto &e:t->ev) all+=e.d; delete t;
        if (how==2) unlink(fn.c_str());
    }
    (void)before;
    CHECK(nfds()==fd0,"%d descriptors open before, %d after",fd0,nfds());
    u64 lim= f==3? (d.size()/10+2)*40000ull*(gz?2000:1) : 4*d.size()+2000; CHECK(inner<=lim,"%zu bytes of input give %zu of output",d.size(),inner);
    all.resize(std::min<size_t>(all.size(),s.tier?400000:100000)); VT *v=tty_init(80,25,1); { char *p=(char*)malloc(all.size()+1); memcpy(p,all.data(),all.size()); tty_write(v,p,(int)all.size()); free(p); } const char *e=sh_validate(v); CHECK(!e,"a terminal that plays it is not well-formed: %s",e); tty_free(v);
    // memory: a second time, with nothing kept
    struct Q { static void w(const struct timeval*,void*) {} static void p(const char*,int,void*) {} };
    int fd=mem_fd(d); size_t a=alloc_bytes(); int nul=s.flip(25)?(int)s.draw(8):0; ttyrec_r_play(fd,rfmt[f],0,nul&1?0:Q::w,nul&2?0:Q::w,nul&4?0:Q::p,0); size_t b=alloc_bytes(); CHECK(a==b,"playing leaks %zd bytes",(ssize_t)(b-a));
    s.label(rfmt[f]); s.label(src==0?"raw":src==1?"mutated":"valid"); s.nontrivial(inner>0&&d.size()>12);
}
static RegProp pr06({"R06",r06,70000,1000000,22,280,true,30,"any bytes, and mutated and concatenated valid recordings, under every read format; non-trivial: more than 12 bytes of input and some data delivered",0});

// ------------------------------------------------------------------ R07
static void feeder(int fd,const string d,vector<size_t> pieces,bool sock) {
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGPIPE); pthread_sigmask(SIG_BLOCK,&ss,0);   // the reader may stop early
    size_t o=0,i=0; 
    while (o<d.size()) {
        size_t n= i<pieces.size()? pieces[i++] : d.size()-o; n=std::min(n,d.size()-o);
        size_t e=o+n; while (o<e) { ssize_t w= sock? send(fd,d.data()+o,e-o,MSG_NOSIGNAL) : write(fd,d.data()+o,e-o); if (w<=0) { close(fd); return; } o+=w; }
        if (o<d.size()&&i<=pieces.size()) for (int k=0;k<3000;k++) { int q=0; ioctl(fd,sock?TIOCOUTQ:FIONREAD,&q); if (!q) break; if (k>50) usleep(20); else sched_yield(); }
    }
    close(fd);
}
static void r07(Src &s) {
    int f=(int)s.draw(7); int content=f==6? (s.flip(75)? 1+3*(int)s.draw(2) : 0) : f==5?0:f; Recd r=gen_rec(s,content,3,5); string d=r.bytes; if (f==3) d.resize(std::min<size_t>(d.size(),60000)); if (s.flip(25)) d=mutate(s,d); if (s.flip(15)) d.resize(std::min<size_t>(d.size(),s.num(30)));
    if (f==3&&d.size()>1&&d[0]==0x1f) d[0]=0; bool dgz=f==3&&s.flip(30); if (dgz) d=compress_ref(0,d,6);
    bool tt,tc; is_content(d,&tt,&tc); bool timing=!(f==5||(f==6&&!tt&&!tc));
    const char *fm=rfmt[f]; s.note("format %s, %zu bytes: %s",fm,d.size(),hex(d,120).c_str());
    string fn=tmpname(""); put_file(fn,d); Norm want=norm(play(-1,fm,fn.c_str())); unlink(fn.c_str());
    if (f==0||f==5||(f==6&&!tt&&!tc)) { CHECK(want.data()==d,"a file of %zu bytes plays %zu bytes, or others",d.size(),want.data().size()); }
    int n=0;
    for (int w=0;w<4;w++) {
        int how=s.weighted({3,1,4,3}); string what; Norm g; int fd0=nfds();
        if (how==1) { g=norm(play(mem_fd(d),fm,0)); what="from a descriptor"; }
        else if (how==0) { int k=(int)s.draw(4); string z; if (s.flip(30)&&!d.empty()) { size_t q=s.draw(d.size()); z=compress_ref(k,d.substr(0,q),(int)s.draw(9))+compress_ref(k,d.substr(q),(int)s.draw(9)); } else z=compress_ref(k,d,(int)s.draw(9)); string cn=tmpname(comp_ext[k]); put_file(cn,z); g=norm(play(-1,fm,cn.c_str())); unlink(cn.c_str()); CHECK(wait_threads(),"threads left"); what=string("from inside ")+comp_ext[k]; s.label(comp_ext[k]); }
        else { int p[2]; bool sock=how==3; if (sock? socketpair(AF_UNIX,SOCK_STREAM,0,p) : pipe(p)) _exit(77); vector<size_t> pc; int style=s.weighted({2,2,1}); for (int i=0;i<(style==0?40:120);i++) pc.push_back(style==0? 1+s.num(20) : style==1? 1+s.draw(2) : 1+s.num(8000)); 
            if (style==1&&d.size()>200&&s.flip()) { pc.insert(pc.begin(),d.size()-100); }
            string lst; for (size_t i=0;i<12;i++) lst+=" "+std::to_string(pc[i]); what=string(sock?"from a socket":"from a pipe")+" in pieces of"+lst+"..."; std::thread th(feeder,p[sock?1:1],d,pc,sock); g=norm(play(p[0],fm,0)); th.join(); s.label(sock?"socket":"pipe"); }
        string e=normdiff(g,want,timing); CHECK(e.empty(),"%s: %s",what.c_str(),e.c_str()); CHECK(nfds()==fd0,"%s: %d descriptors before, %d after",what.c_str(),fd0,nfds()); n++;
    }
    s.label(fm); s.evals(n); s.nontrivial(want.data().size()>1);
}
static RegProp pr07({"R07",r07,11000,150000,22,280,false,30,"recordings, mutated and short inputs played from a named file and then by four other ways each: descriptors, pipes and sockets in pieces, every compression; non-trivial: more than one byte delivered",0});

// ------------------------------------------------------------------ R08
static bool is_msg(const string &x) { // an error message of the library, one or more lines
    if (x.empty()) return true; if (x.size()>300) return false;
    string y=x; size_t p; while ((p=y.find("\e[0m"))!=string::npos) y.erase(p,4);
    for (u8 c:y) if ((c<32&&c!='\n')||c>126) return false;
    return y.find("asciicast")!=string::npos||y.find("rror")!=string::npos||y.find("orrupt")!=string::npos;
}
static void r08(Src &s) {
    static const int fm[]={1,2,4,3,0,6}; int fi=s.weighted({4,4,5,1,2,3}); int f=fm[fi]; bool aut=f==6; int content=aut?(s.flip()?1:4):f; Recd r=gen_rec(s,content,3,6); string &d=r.bytes; if (d.empty()) return; if (content==3&&d.size()>30000) { }
    if (aut) { bool a,b; is_content(d,&a,&b); if (!(a||b)) aut=false,f=content; }
    const char *fmt=rfmt[f]; Norm full=norm(play_mem(d,fmt));
    // what is shown by every frame: [n bytes of data, at this time]
    struct P { size_t from,to; i64 t; }; vector<P> pp; string E=full.data(); size_t lead=0;
    if (content==0) { for (size_t o=0;o<d.size();o+=60) { size_t e=std::min(o+60,d.size()); pp.push_back({o,e,(i64)(o/60)*200000}); r.ends.push_back(e); } CHECK(E==d,"raw data differ"); }
    else if (content==3) { CHECK(full.seg.size()<=r.ends.size(),"too many frames"); Trace t=play_mem(d,fmt); i64 now=0; size_t o=0; for (auto &e:t.ev) if (e.k==1) now+=e.s*1000000+e.us; else if (e.k==2) { pp.push_back({o,o+e.d.size(),now}); o+=e.d.size(); } CHECK(pp.size()==r.ends.size(),"%zu frames instead of %zu",pp.size(),r.ends.size()); }
    else { i64 base=content==1? (r.fr.empty()?0:r.fr[0].t) : 0; size_t o=0; if (content==4) { o=lead=E.find('t')+1; } for (auto &x:r.fr) { pp.push_back({o,o+x.d.size(),x.t-base}); CHECK(E.compare(o,x.d.size(),x.d)==0,"the uncut file plays other data"); o+=x.d.size(); } CHECK(o==E.size(),"the uncut file plays other data"); }
    if (content==2) for (auto &p:pp) (void)p;
    int comp=s.flip(15)? (int)s.draw(4) : -1; string z= comp>=0? compress_ref(comp,d,(int)s.draw(9)) : d;
    s.note("format %s%s, %zu bytes%s%s, %zu frames",fmt,aut?" (auto)":"",d.size(),comp>=0?" in ":"",comp>=0?comp_ext[comp]:"",pp.size()); s.note("%s",printable(d,600).c_str());
    int cuts=0; int ncut= s.tier?40:15; bool small=z.size()<(size_t)ncut;
    for (int q=0;q<(small?(int)z.size():ncut);q++) {
        size_t c; if (small) c=q; else switch (s.draw(3)) { case 0: c=s.draw(z.size()); break; case 1: c=s.num(z.size()); break; default: { size_t e=r.ends.empty()?0:r.ends[s.draw(r.ends.size())]; i64 k=(i64)e+(i64)s.draw(30)-15; c= k<0?0: k>=(i64)z.size()? z.size()-1 : k; } }
        Norm g; if (comp>=0) { string cn=tmpname(comp_ext[comp]); put_file(cn,z.substr(0,c)); g=norm(play(-1,fmt,cn.c_str())); unlink(cn.c_str()); CHECK(wait_threads(),"threads left"); } else g=norm(play_mem(z.substr(0,c),fmt));
        string D=g.data(); size_t avail=c;
        if (comp>=0) { string dec=decompress_ref(comp,z.substr(0,c),0); size_t hold= comp==0? 50000 : 140000; avail= dec.size()>hold? dec.size()-hold : 0; }
        size_t nc=0; while (nc<pp.size()&&r.ends[nc]<=avail) nc++;
        size_t L= nc? pp[nc-1].to : 0; size_t M= comp>=0? E.size() : nc<pp.size()? pp[nc].to : E.size();
        if (aut&&c<12&&comp<0) { CHECK(D==z.substr(0,c)||D.empty(),"cut at %zu of %zu, too short to detect, but not passed through",c,z.size()); continue; }
        size_t n=0; while (n<D.size()&&n<E.size()&&D[n]==E[n]) n++;
        if (content==4||comp>=0) { size_t o=0,k=0; for (auto &sg:g.seg) { for (size_t i=0;i<sg.second.size()&&o<n;i++,o++) { while (k<pp.size()&&o>=pp[k].to) k++; if (o>=lead&&o>=L&&(k>=pp.size()||sg.first!=pp[k].t)) n=o; } } }  // the beginning of a message may look like the interrupted data
        size_t cap=std::min(n,M);
        if (content==4&&nc==0&&comp<0&&cap<lead&&D.size()>n) L=0;
        CHECK(n>=L,"cut at %zu of %zu: byte %zu of the data, wholly stored before the cut, is %s",c,z.size(),n,D.size()<=n?"missing":"wrong");
        // the rest: nothing or a message
        if (D.size()>cap) { bool okm=false; bool may=content==4||comp>=0; for (size_t k=cap+1;k-->L&&may;) if (is_msg(D.substr(k))) { okm=true; break; } 
            if (!okm&&comp>=0) { okm= D.size()-cap<200; }   // a message taken for data of the interrupted frame
            CHECK(okm,"cut at %zu of %zu: after %zu bytes of the recording come %zu that are not in it: %s",c,z.size(),cap,D.size()-cap,printable(D.substr(cap,60)).c_str()); }
        // times of the genuine bytes
        size_t o=0,k=0; for (auto &sg:g.seg) { for (size_t i=0;i<sg.second.size()&&o<cap;i++,o++) { while (k<pp.size()&&o>=pp[k].to) k++; if (o<lead) { CHECK(sg.first==0,"the header is shown late"); continue; } CHECK(k<pp.size()&&sg.first==pp[k].t,"cut at %zu of %zu: byte %zu is shown at %lld us instead of %lld",c,z.size(),o,(long long)sg.first,(long long)(k<pp.size()?pp[k].t:-1)); if (i==0||sg.second.size()<2000) continue; } }
        if (comp<0&&content!=0) { i64 lim= nc<pp.size()? pp[nc].t : full.end; i64 lo= nc? pp[nc-1].t : 0; CHECK(g.end<=std::max(lim,lo),"cut at %zu of %zu: the delays add up to %lld us, the interrupted frame is at %lld",c,z.size(),(long long)g.end,(long long)lim); }
        cuts++;
    }
    s.evals(cuts?cuts:1); s.label(aut?"auto":fmt); if (comp>=0) s.label("compressed"); s.nontrivial(pp.size()>=2);
}
static RegProp pr08({"R08",r08,25000,300000,22,280,false,30,"recordings of every format, plain or compressed, cut at many places; one evaluation per cut; non-trivial: at least two frames",0});

// ------------------------------------------------------------------ R09
struct Fm { const char *n,*e; };
static const Fm wf[]={{"ansi",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"asciicast",".cast"},{"asciicast-v1",".cast-v1"},{"live",0},{"null",0}};
static const Fm rf[]={{"baudrate",".txt"},{"ttyrec",".ttyrec"},{"nh_recorder",".nh"},{"dosrecorder",".dm2"},{"asciicast",".cast"},{"live",0},{"auto",0}};
static string recase(Src &s,string t) { if (s.flip(60)) for (char &c:t) if (s.flip(40)) c=(c>='a'&&c<='z')?c-32:(c>='A'&&c<='Z')?c+32:c; return t; }
static bool ieq(const string &a,const string &b) { return !strcasecmp(a.c_str(),b.c_str()); }
static bool iends(const string &a,const string &e) { return a.size()>=e.size()&&ieq(a.substr(a.size()-e.size()),e); }
static string ref_find(bool w,const string *fmt,const string *name,const string *fb) {
    const Fm *t=w?wf:rf; int n=7;
    if (fmt) { for (int i=0;i<n;i++) if (ieq(*fmt,t[i].n)) return t[i].n; return ""; }
    if (name) { string b=*name; for (auto c:comp_ext) if (iends(b,c)) { b.resize(b.size()-strlen(c)); break; } for (int i=0;i<n;i++) if (t[i].e&&iends(b,t[i].e)) return t[i].n; }
    if (fb) for (int i=0;i<n;i++) if (ieq(*fb,t[i].n)) return t[i].n;
    return "";
}
static string word(Src &s,bool w) {
    switch (s.weighted({6,1,2,1})) { case 0: return recase(s,(w?wf:rf)[s.draw(7)].n); case 1: return recase(s,(w?rf:wf)[s.draw(7)].n);
    case 2: { string q=(w?wf:rf)[s.draw(7)].n; switch (s.draw(4)) { case 0: q.pop_back(); break; case 1: q+="x"; break; case 2: q=" "+q; break; default: q[s.draw(q.size())]='_'; } return q; }
    default: { static const char *q[]={"","asciicast-v2","ttyrec2","nh-recorder","txt",".ttyrec","*"}; return q[s.draw(7)]; } }
}
static void r09(Src &s) {
    if (s.flip(30)) { // content
        string d; int k=s.weighted({3,3,3,2}); 
        if (k==0) { vector<Frame> f=gen_frames(s,false,3,20,8,(i64)s.num(4000000000u)*1000000+s.draw(1000000)); d=enc_ttyrec(f); if (d.size()>=12&&s.flip(30)) { static const u32 v[]={0,1,65535,65536,0xffffffff}; u32 x=v[s.draw(5)]; for (int i=0;i<4;i++) d[8+i]=(char)(x>>(8*i)); } if (d.size()>=12&&s.flip(20)) { static const u32 v[]={999999,1000000,0xffffffff}; u32 x=v[s.draw(3)]; for (int i=0;i<4;i++) d[4+i]=(char)(x>>(8*i)); } }
        else if (k==1) { CastStyle c; c.version=s.flip()?1:2; c.fancy=(int)s.draw(3); d=enc_cast(s,c,gen_frames(s,true,3,10,0,0),0); if (s.flip(30)) d=mutate(s,d); }
        else if (k==2) { static const char *q[]={"{\"version\": 2","{\"version\":3, \"width\":1}\n","{\"version","{ \"versio\": 2}       ","{\"version\" : 1,    ","{\"Version\":2}     ","{\n\n\n\n\n\n\n\n\n\n\n\n\n","hello, world, this is it","[\"version\":2}xxxxxxx","{\"versionx\":2}      "}; d=q[s.draw(10)]; if (s.flip(30)) d=mutate(s,d); }
        else d=gen_data(s,8);
        s.note("content %s",printable(d,200).c_str()); bool tt,tc; is_content(d,&tt,&tc); Norm g=norm(play_mem(d,s.flip()?"auto":0,0));
        if (tt) { Norm w=norm(play_mem(d,"ttyrec")); if (w.data().size()<=g.data().size()) { // an incomplete first frame is shown as far as it goes
                Norm gg=g; string e=normdiff(g,w); u32 n=rd32(d,8); if (n+12>d.size()) { CHECK(g.data()==d.substr(12),"an incomplete first frame"); e=""; } CHECK(e.empty(),"ttyrec content is not played as ttyrec: %s",e.c_str()); } else failf("ttyrec content is not played as ttyrec: data missing"); s.label("ttyrec content"); }
        else if (tc) { string e=normdiff(g,norm(play_mem(d,"asciicast"))); CHECK(e.empty(),"asciicast content is not played as asciicast: %s",e.c_str()); s.label("asciicast content"); }
        else { CHECK(g.data()==d,"unrecognised content is changed: %zu bytes instead of %zu",g.data().size(),d.size()); s.label("other content"); }
        s.nontrivial(d.size()>=12); return; }
    bool w=s.flip(); string fmt,name,fb; string *pf=0,*pn=0,*pb=0;
    if (s.flip(35)) { fmt=word(s,w); pf=&fmt; }
    if (s.flip(75)) { static const char *st[]={"","a","dir.ttyrec/x","x.cast","tcp://h:1/x","x.gz","a b"}; name=st[s.draw(7)]; int k=(int)s.draw(4); while (k--) { static const char *ex[]={".txt",".ttyrec",".nh",".cast",".cast-v1",".dm2",".gz",".bz2",".xz",".zst",".foo","","ttyrec","."}; name+=recase(s,ex[s.draw(14)]); } pn=&name; }
    if (s.flip(60)) { fb=word(s,w); pb=&fb; }
    s.note("%s: format %s, name %s, fallback %s",w?"write":"read",pf?fmt.c_str():"(none)",pn?name.c_str():"(none)",pb?fb.c_str():"(none)");
    const char *g=(w?ttyrec_w_find_format:ttyrec_r_find_format)(pf?fmt.c_str():0,pn?name.c_str():0,pb?fb.c_str():0); string want=ref_find(w,pf,pn,pb);
    CHECK((g?g:"")==want,"the format is %s, should be %s",g?g:"(none)",want.empty()?"(none)":want.c_str());
    // enumeration
    auto en=w?ttyrec_w_get_format_name:ttyrec_r_get_format_name; auto ex=w?ttyrec_w_get_format_ext:ttyrec_r_get_format_ext; auto fi=w?ttyrec_w_find_format:ttyrec_r_find_format; vector<string> l; for (int i=0;i<40;i++) { const char *n=en(i); if (!n) break; l.push_back(n); } CHECK(!en(-1)&&!en((int)l.size())&&!en(1000),"names beyond the list");
    for (auto &n:l) { const char *q=fi(n.c_str(),0,0); CHECK(q&&n==q,"listed format %s is not accepted",n.c_str()); const char *x=ex(n.c_str()); if (x) { string nn=string("file")+x; q=fi(0,nn.c_str(),0); CHECK(q&&n==q,"extension %s of %s selects %s",x,n.c_str(),q?q:"nothing"); for (auto c:comp_ext) { q=fi(0,(nn+c).c_str(),0); CHECK(q&&n==q,"%s%s selects %s",nn.c_str(),c,q?q:"nothing"); } } }
    if (pf) { bool in=false; for (auto &n:l) if (ieq(n,fmt)) in=true; CHECK(in==(g!=0),"format %s is %s but %s",fmt.c_str(),g?"accepted":"refused",in?"listed":"not listed"); }
    for (int i=0;i<7;i++) { const Fm &m=(w?wf:rf)[i]; const char *x=ex(m.n); CHECK((x?string(x):"")==(m.e?m.e:""),"extension of %s is %s",m.n,x?x:"(none)"); }
    if (pf&&s.flip(want.empty()?30:3)) { // opening
        int fd0=nfds(); s.label("opened"); bool byname=s.flip()&&w; string fn=tmpname("x"); unlink(fn.c_str()); int fd=byname?-1:mem_fd("");
        if (w) { Recorder r=ttyrec_w_open(fd,fmt.c_str(),byname?fn.c_str():pn?name.c_str():0,0); CHECK(!!r==!want.empty(),"a recorder with format %s: %s",fmt.c_str(),r?"opened":"refused"); if (r) ttyrec_w_close(r); else CHECK(!byname||!file_exists(fn),"a refused format leaves a file"); unlink(fn.c_str()); }
        else { int r=ttyrec_r_play(fd,fmt.c_str(),pn?name.c_str():0,0,0,0,0); CHECK(!!r==!want.empty(),"playing with format %s: %s",fmt.c_str(),r?"accepted":"refused"); }
        CHECK(nfds()==fd0,"%d descriptors open before, %d after",fd0,nfds()); }
    if (!want.empty()) s.label(want.c_str()); else s.label("none"); s.label("lookup"); s.nontrivial(pf||pn);
}
static RegProp pr09({"R09",r09,1500000,20000000,20,280,false,30,"format names, file names and fallbacks looked up and compared with a reference model, and contents auto-detected; non-trivial: a format or name was given, or at least 12 bytes of content",0});

// ------------------------------------------------------------------ R10
struct Virt { Virt(i64 t) { vclk_now=t; vclk_on=1; } ~Virt() { vclk_on=0; } };
static i64 gen_step(Src &s) { switch (s.weighted({4,4,2,1,1})) { case 0: return (i64)s.num(3000000,{1,999999,1000000,1000001}); case 1: return (i64)s.draw(20000); case 2: return 0; case 3: return (i64)s.num(100000000000ull); default: return -(i64)s.num(5000000,{1,999999,1000000,1000001}); } }
struct LiveFeed { Trace t; i64 t0=0; vector<std::pair<i64,string>> ch; size_t next=0; int w=-1; void feed() { if (w<0) return; if (next<ch.size()) { vclk_now+=ch[next].first; const string &d=ch[next].second; if ((size_t)write(w,d.data(),d.size())!=d.size()) _exit(98); next++; } else { close(w); w=-1; } } };
static void lf_i(const struct timeval *t,void *a) { ((LiveFeed*)a)->t.ev.push_back({0,(i64)t->tv_sec,(i64)t->tv_usec,""}); }
static void lf_w(const struct timeval *t,void *a) { ((LiveFeed*)a)->t.ev.push_back({1,(i64)t->tv_sec,(i64)t->tv_usec,""}); }
static void lf_p(const char *b,int n,void *a) { LiveFeed *f=(LiveFeed*)a; f->t.ev.push_back({2,vclk_now-f->t0,0,string(b,n)}); f->feed(); }
static void r10(Src &s) {
    i64 wall=(i64)s.num(4000000000ull)*1000000+s.draw(1000000);
    if (s.flip()) { // written
        bool date=s.flip(); i64 t0=date?(i64)s.num(4000000000ull)*1000000+s.draw(1000000):0, tm=t0, last=t0; string fn=tmpname(".txt"), all; int fd=open(fn.c_str(),O_RDWR|O_CREAT,0600); int n=0, late=0, early=0;
        s.note("written from %lld.%06lld on, %s",(long long)(wall/1000000),(long long)(wall%1000000),date?"dated":"without a date");
        { Virt v(wall); i64 out=wall; struct timeval d=tv(t0); Recorder r=ttyrec_w_open(fd,s.flip()?"live":"LIVE",fn.c_str(),date?&d:0); CHECK(r,"not opened"); CHECK(vclk_now==wall,"opening takes time");
          for (List l(s,8,60);l.next();n++) {
            i64 work= s.flip(40)? (i64)s.num(8000000,{1,1000000}) : 0; vclk_now+=work; i64 now=vclk_now; tm+=gen_step(s); if (tm<0) tm=0; string q=s.flip(90)? gen_data(s,2) : ""; struct timeval t=tv(tm);
            i64 want=std::max(now,out+(tm-last)); (want>now?early:late)++; int ok=ttyrec_w_write(r,&t,q.data(),(int)q.size()); all+=q;
            s.note("after %lld us of work, stamped %lld: %zu bytes",(long long)work,(long long)(tm-t0),q.size());
            i64 got=vclk_now; struct stat st; CHECK(ok,"write %d failed",n); fstat(fd,&st);
            CHECK(got==want,"chunk %d, %lld us after the previous one by its stamp, comes %lld us after it instead of %lld",n,(long long)(tm-last),(long long)(got-out),(long long)(want-out));
            CHECK((size_t)st.st_size==all.size(),"chunk %d is not written at once: %zu of %zu bytes are out",n,(size_t)st.st_size,all.size()); out=got; last=tm; }
          i64 b=vclk_now; CHECK(ttyrec_w_close(r),"close failed"); CHECK(vclk_now==b,"closing takes time"); }
        CHECK(get_file(fn)==all,"the data differ"); unlink(fn.c_str()); s.label("written"); if (early) s.label("waits"); if (late) s.label("late"); s.nontrivial(n>=3&&early); return; }
    bool aut=s.flip(40); LiveFeed f; string all, got; int p[2]; if (pipe(p)) _exit(98); fcntl(p[1],F_SETPIPE_SZ,1<<20); f.w=p[1];
    for (List l(s,8,60);l.next();) { string q=s.flip(97)? gen_data(s,0) : string(1+s.num(40000,{32767,32768,32769}),'y'); if (q.empty()) q="z"; if (aut&&f.ch.empty()) q="plain text, "+q; f.ch.push_back({gen_step(s),q}); all+=q; }
    s.note("played from %lld.%06lld on%s",(long long)(wall/1000000),(long long)(wall%1000000),aut?", detected":""); for (auto &c:f.ch) s.note("after %lld us: %s",(long long)c.first,printable(c.second,40).c_str());
    { Virt v(wall); f.feed(); f.t0=vclk_now; int ret=ttyrec_r_play(p[0],aut?(s.flip()?"auto":0):"live",0,lf_i,lf_w,lf_p,&f); CHECK(ret==1,"not played"); }
    // everything is shown at the time it came
    i64 now=0; bool init=false; int n=0;
    for (auto &e:f.t.ev) {
        if (e.k==0) { CHECK(!init&&got.empty(),"a second start"); init=true; CHECK(e.us>=0&&e.us<1000000&&e.s*1000000+e.us==f.t0,"the start is %lld.%06lld, the clock says %lld",(long long)e.s,(long long)e.us,(long long)f.t0); }
        else if (e.k==1) { CHECK(e.us>=0&&e.us<1000000,"a delay of %lld s %lld us",(long long)e.s,(long long)e.us); now+=e.s*1000000+e.us; }
        else { CHECK(now==e.s,"print %d is shown at %lld us, the data came at %lld",n,(long long)now,(long long)e.s); got+=e.d; n++; } }
    CHECK(got==all,"%zu bytes instead of %zu, or different ones",got.size(),all.size()); CHECK(init||all.empty(),"no starting time");
    s.label(aut?"detected":"played"); s.nontrivial(f.ch.size()>=3);
}
static RegProp pr10({"R10",r10,900000,12000000,22,280,false,30,"live streams written and played under a virtual clock: stamps and work in between of all sizes, both directions; non-trivial: at least three chunks, one of them waited for",0});
