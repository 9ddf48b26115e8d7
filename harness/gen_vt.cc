#include "gen_vt.h"
#include <algorithm>

Profile profile(std::initializer_list<std::pair<int,int>> l) { Profile p(K_N,0); for (auto &x:l) p[x.first]=x.second; return p; }
Profile swarm(Src &s,const Profile &p) {
    // which kinds are used is a choice of its own; 0 = all
    u64 mask=s.drawf(1u<<K_N,[](Rng &r)->u64 { if (r.pct(40)) return 0; u64 m=r.below(1u<<K_N); if (r.pct(40)) m&=r.below(1u<<K_N); return m; });
    Profile q=p; int left=0;
    for (int i=0;i<K_N;i++) { if (mask>>i&1) q[i]=0; left+=q[i]; }
    return left? q : p;
}
int gen_sx(Src &s) { return 2+(int)s.drawf(511,[](Rng &r)->u64 { if (r.below(400)==0) return 131+r.below(380); switch (r.below(6)) { case 0: return r.below(4); case 1: case 2: return r.below(12); case 3: case 4: return r.below(24); default: return r.pct(30)? r.below(131) : r.below(40); } }); }
int gen_sy(Src &s) { return 1+(int)s.drawf(256,[](Rng &r)->u64 { if (r.below(800)==0) return 60+r.below(196); switch (r.below(4)) { case 0: return r.below(2); case 1: case 2: return r.below(7); default: return r.pct(20)? r.below(60) : r.below(14); } }); }

u32 gen_wide(Src &s) {
    static const u32 w[][2]={{0x1100,0x115f},{0x2329,0x232a},{0x2e80,0x303e},{0x3040,0xa4cf},{0xac00,0xd7a3},{0xf900,0xfaff},{0xfe10,0xfe19},{0xfe30,0xfe6f},{0xff00,0xff60},{0xffe0,0xffe6},{0x20000,0x2fffd},{0x30000,0x3fffd}};
    auto &r=w[s.draw(12)]; u32 n=r[1]-r[0]+1;
    u32 c=r[0]+(u32)s.drawf(n,[n](Rng &g)->u64 { switch (g.below(4)) { case 0: return 0; case 1: return n-1; default: return g.below(n); } });
    return ref_width(c)==2? c : 0x4e00;
}
u32 gen_comb(Src &s) {
    static const u32 z[]={0x300,0x301,0x36f,0x483,0x591,0x61a-5,0x200b,0x200f,0x202e,0x20d0,0x20ef,0x302a,0x3099,0x309a,0xfe00,0xfe0f,0xfe20,0xfe23,0x1160,0x11ff,0xfff9,0x10a01,0x1d167,0x1d244,0xe0001,0xe0020,0xe01ef,0x0e31,0x303};
    u32 c=z[s.draw(sizeof z/sizeof*z)];
    return ref_width(c)==0? c : 0x301;
}
u32 gen_cp(Src &s) {
    u32 c=(u32)s.drawf(0x110000,[&](Rng &r)->u64 {
        static const u32 b[]={0x20,0x7e,0xa0,0xad,0xff,0x100,0x7ff,0x800,0xfff,0x1000,0x10ff,0x1100,0x1160,0x200b,0x2500,0x2666,0x303f,0xd7ff,0xe000,0xfdcf,0xfdd0,0xfdef,0xfdf0,0xfefe,0xfeff,0xff00,0xffef,0xfffd,0xfffe,0xffff,0x10000,0x1fffe,0x1ffff,0x20000,0x2fffd,0x2fffe,0x3fffd,0x3ffff,0xe0001,0xfffff,0x100000,0x10fffd,0x10fffe,0x10ffff};
        switch (r.below(6)) { case 0: return b[r.below(sizeof b/sizeof*b)]; case 1: return s.dictval()%0x110000; case 2: return 0xa0+r.below(0x760); case 3: return 0x800+r.below(0xf800); case 4: return r.below(0x110000); default: return 0x20+r.below(0x5f); }
    });
    if (c>=0xd800 && c<0xe000) c=0xfffd;
    return c;
}

std::string gen_param(Src &s,const GenCtx &g) {
    // 0: omitted
    int how=(int)s.drawf(5,[](Rng &r)->u64 { int k=(int)r.below(20); return k<3?0 : k<17?1 : k<18?2 : k<19?3 : 4; });
    if (!how) return "";
    u64 sx=g.sx, sy=g.sy;
    u64 v=s.drawf(1ull<<32,[&](Rng &r)->u64 { switch (r.below(8)) { case 0: case 1: return 1+r.below(4); case 2: return r.below(sx+2); case 3: return r.below(sy+2); case 4: { u64 b[]={sx-1,sx,sx+1,sy-1,sy,sy+1,0}; return b[r.below(7)]; } case 5: return r.below(12);
        case 6: { u64 b[]={255,256,257,512,65535,65536,0x7fffffff,0x80000000u,0xffffffffu,0xfffffffeu,1000,9999}; return b[r.below(12)]; } default: return s.dictval(); } });
    std::string t=std::to_string(v);
    if (how==2) t="0"+t; else if (how==3) t="000000000000"+t; else if (how==4) t=t+std::to_string(s.draw(100));
    return t;
}
static std::string csi(const std::string &par,char f) { return "\033["+par+std::string(1,f); }
static char pick(Src &s,const char *set) { return set[s.draw(strlen(set))]; }
static std::string text(Src &s,int avg,int max) { std::string t; for (List l(s,avg,max);l.next();) t.push_back((char)s.drawf(95,[](Rng &r)->u64{ return r.pct(15)? 0 : 'a'-32+r.below(26); })+32); return t; }

static std::string gen_sgr(Src &s) {
    std::string p; bool first=true;
    if (s.flip(5)) { // everything at once, in two sequences
        static const int a[]={1,2,3,4,5,7,9}; bool less=s.flip(40); for (int x:a) if (!less || s.flip(80)) { if (!first) p+=";"; first=false; p+=std::to_string(x); }
        std::string o=csi(p,'m'); for (int bg=0;bg<2;bg++) { o+="\033["; o+=bg?"48":"38"; if (s.flip(80)) { o+=";2"; for (int i=0;i<3;i++) o+=";"+std::to_string(s.draw(256)); } else o+=";5;"+std::to_string(s.draw(256)); o+="m"; }
        return o; }
    for (List l(s,s.tier?5:4,24);l.next();) {
        if (!first) p+=";"; first=false;
        switch (s.weighted({3,10,6,4,2,2,1})) {
        case 0: p+=""; break;
        case 1: { static const int c[]={0,1,2,3,4,5,7,9,21,22,23,24,25,27,29,39,49}; p+=std::to_string(c[s.draw(17)]); } break;
        case 2: { static const int b[]={30,40,90,100}; p+=std::to_string(b[s.draw(4)]+s.draw(8)); } break;
        case 3: { p+=s.flip()?"38":"48"; int k=s.weighted({4,4,1,1,1,1});
            auto comp=[&]{ return s.flip(8)? std::string("") : std::to_string(s.num(1<<20,{0,255,256,127})); };
            if (k==0) p+=";5;"+comp(); else if (k==1) p+=";2;"+comp()+";"+comp()+";"+comp(); else if (k==2) p+=";3"; else if (k==3) p+=";4"; else if (k==4) p+=";5"; else p+=";2;"+comp(); } break;
        case 4: p+=std::to_string(s.num(1ull<<32,{6,8,10,26,28,38,48,50,53,58,89,98,99,108})); break;
        case 5: p+=std::to_string(s.draw(110)); break;
        case 6: p+="0"+std::to_string(s.draw(50)); break;
        }
    }
    return csi(p,'m');
}

std::string gen_op(Src &s,const Profile &p,const GenCtx &g,int *kindp) {
    int k=s.weighted(p); if (kindp) *kindp=k;
    std::string o;
    switch (k) {
    case K_TEXT: { int avg=s.flip(20)? g.sx : 6; return text(s,avg,300); }
    case K_WIDE: for (List l(s,s.flip(20)? g.sx/2 : 3,150);l.next();) o+=utf8(gen_wide(s)); return o;
    case K_COMB: if (s.flip(2)) { // lots of marks on the screen
            int n=(int)s.drawf(3000,[](Rng &r)->u64 { switch (r.below(8)) { case 0: return r.below(3000); case 1: case 2: return r.below(700); default: return r.below(90); } }), m=1+(int)s.draw(5); std::string one=s.flip()? "e" : utf8(gen_wide(s)); while (m--) one+=utf8(gen_comb(s)); while (n--) o+=one; return o; }
        for (List l(s,2,12);l.next();) o+=utf8(gen_comb(s)); return o;
    case K_CHAR: for (List l(s,3,40);l.next();) o+=utf8(gen_cp(s)); return o;
    case K_CTRL: for (List l(s,2,20);l.next();) o.push_back("\r\n\b\t\v\f\x0e\x0f\x07\x7f\x05\0\x18\x1a\x01\x10\x1c\x1f"[s.weighted({5,6,5,6,3,1,1,2,1,1,1,1,1,1,1,1,1,1})]); return o;
    case K_CURSOR: { char f=s.flip(50)? pick(s,"Hf") : pick(s,"ABCDEFGHfda`"); std::string q=gen_param(s,g); if (f=='H'||f=='f'||s.flip(5)) if (!s.flip(12)) q+=";"+gen_param(s,g); if (s.flip(3)) q+=";"+gen_param(s,g); return csi(q,f); }
    case K_ERASE: { char f=pick(s,"JKX"); if (f=='X') return csi(gen_param(s,g),f); static const char *a[]={"0","1","2","","3","00","01"}; return csi(a[s.weighted({3,4,3,3,1,1,1})],f); }
    case K_INSDEL: return csi(gen_param(s,g),pick(s,"@P@PX"));
    case K_SCROLL: switch (s.weighted({5,5,4,3,3,2})) {
        case 0: { std::string q=gen_param(s,g); if (!s.flip(15)) q+=";"+gen_param(s,g); return csi(q,'r'); }
        case 1: return csi(gen_param(s,g),pick(s,"LM"));
        case 2: for (List l(s,3,30);l.next();) { o+="\033"; o.push_back(pick(s,"DEM")); } return o;
        case 3: for (List l(s,4,60);l.next();) o.push_back(pick(s,"\n\v")); return o;
        case 4: { int a=1+(int)s.draw(g.sy), b=a+1+(int)s.draw(g.sy); return csi(std::to_string(a)+";"+std::to_string(b),'r'); }
        default: { int y=1+(int)s.draw(g.sy); return csi(std::to_string(y)+";"+std::to_string(1+s.draw(g.sx)),'H')+csi(gen_param(s,g),pick(s,"LM")); } }
    case K_SGR: return gen_sgr(s);
    case K_OSC: {
        static const char *cmd[]={"0","2","1","","52","00","4294967295","4294967296","x","0x","?0","12"};
        o="\033]"; o+=cmd[s.weighted({12,3,1,1,1,1,1,1,1,1,1,1})];
        int how=s.weighted({10,3,2,1,1});
        if (how) o+=how==1? "" : how==2? ";" : how==3? ";;" : "a;";
        else { o+=";"; if (s.flip(6)) o+=std::string(4000+s.draw(400),'t'); for (List l(s,6,60);l.next();) { int z=s.weighted({8,2,1,1}); o+= z==0? std::string(1,(char)(32+s.draw(95))) : z==1? utf8(gen_cp(s)) : z==2? std::string(1,(char)(128+s.draw(128))) : std::string(1,"\n\b\t\r\x0e\0\x7f"[s.draw(7)]); } }
        int e=s.weighted({6,6,2,1,1,1}); o+= e==0? "\a" : e==1? "\033\\" : e==2? "\033" : e==3? "\x18" : e==4? "\x1a" : "";
        return o; }
    case K_MODE: switch (s.weighted({5,5,2,2})) { case 0: return s.flip()?"\033[?7l":"\033[?7h"; case 1: return s.flip()?"\033[?25l":"\033[?25h"; case 2: return s.flip()?"\033=":"\033>";
        default: { std::string q; bool first=true; for (List l(s,3,20);l.next();) { if (!first) q+=";"; first=false; q+=s.flip()? (s.flip()?"7":"25") : gen_param(s,g); } return "\033[?"+q+pick(s,"hl"); } }
    case K_CHARSET: if (s.flip(30)) return s.flip()?"\x0e":"\x0f"; o="\033"; o.push_back(pick(s,"()")); o.push_back("0BUA1K"[s.weighted({5,4,2,1,1,1})]); return o;
    case K_SAVE: return s.flip()?"\0337":"\0338";
    case K_RESIZE: { auto dim=[&](int cur,int big){ return std::to_string(s.drawf(600,[&](Rng &r)->u64 { switch (r.below(8)) { case 0: return 0; case 1: return 1+r.below(3); case 2: return cur; case 3: return cur+1; case 4: return cur>1?cur-1:1; case 5: return r.pct(20)? big+r.below(3)-1 : r.below(30); default: return 1+r.below(24); } })); };
        o="8"; if (!s.flip(6)) { o+=";"+(s.flip(10)?std::string():dim(g.sy,256)); if (!s.flip(6)) o+=";"+(s.flip(10)?std::string():dim(g.sx,512)); } return csi(o,'t'); }
    case K_RESET: return "\033[c";
    case K_UNKNOWN: switch (s.weighted({4,3,2,2})) {
        case 0: { static const char fin[]="bghijklnopqsuvwxyzINOQRSTUVWYZ[\\]^_{|}~!\"#$&'*+,-./:<=>"; return csi(s.flip(60)? gen_param(s,g) : "",fin[s.draw(sizeof fin-1)]); }
        case 1: { static const char e[]="ABCFGHIJKLNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!\"#$&'*+,-./0123456 9:;<?@\\^_`{|}~"; o="\033"; o.push_back(e[s.draw(sizeof e-1)]); return o; }
        case 2: { std::string q; for (int i=0,n=14+(int)s.draw(6);i<n;i++) q+=std::to_string(s.draw(120))+";"; return csi(q+std::to_string(s.draw(10)),pick(s,"mHJKrh")); }
        default: return "\033[?"+gen_param(s,g)+pick(s,"JKnprsX"); }
    case K_RAW: for (List l(s,8,200);l.next();) o.push_back((char)s.drawf(256,[&](Rng &r)->u64 { switch (r.below(4)) { case 0: return 27; case 1: return "[];?0123456789hlmrJKHLM@PX8t"[r.below(28)]; case 2: return s.dictval()&255; default: return r.below(256); } })); return o;
    case K_UTF8: for (List l(s,3,30);l.next();) switch (s.weighted({3,3,2,3,3,2,2})) {
        case 0: o.push_back((char)(0x80+s.draw(64))); break;                   // stray continuation
        case 1: o.push_back((char)(0xc0+s.draw(64))); break;                   // lead only
        case 2: { u32 c=(u32)s.draw(0x800); o.push_back((char)(0xe0|c>>12)); o.push_back((char)(0x80|(c>>6&63))); o.push_back((char)(0x80|(c&63))); } break; // overlong
        case 3: { u32 c=0xd800+(u32)s.draw(0x800); o.push_back((char)0xed); o.push_back((char)(0x80|(c>>6&63))); o.push_back((char)(0x80|(c&63))); } break; // surrogate
        case 4: { u32 c=0xd800+(u32)s.draw(0x400), d=0xdc00+(u32)s.drawf(0x400,[](Rng &r)->u64{ return r.pct(20)? 0x3fe +r.below(2) : r.below(0x400); }); for (u32 z:{c,d}) { o.push_back((char)0xed); o.push_back((char)(0x80|(z>>6&63))); o.push_back((char)(0x80|(z&63))); } } break;
        case 5: { int n=4+(int)s.draw(3); static const u8 ld[]={0xf0,0xf8,0xfc}; o.push_back((char)(ld[n-4]|s.draw(n==4?8:n==5?4:2))); for (int i=1;i<n;i++) o.push_back((char)(0x80+s.draw(64))); } break;
        default: o+=utf8(gen_cp(s)); if (s.flip(30) && o.size()) o.pop_back(); }
        return o;
    case K_TRUNC: { Profile q=p; q[K_TRUNC]=0; int t=0; for (int x:q) t+=x; if (!t) q[K_SGR]=1; o=gen_op(s,q,g); if (!o.empty()) o.resize(s.draw(o.size()+1)); return o; }
    case K_ENC: return s.flip()? "\033%@" : s.flip()? "\033%G" : s.flip()? "\033%8" : "\033%x";
    }
    return o;
}
