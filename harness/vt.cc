#include "vt.h"
#include "reftab.inc"

std::string utf8(u32 c) {
    std::string s;
    if (c<0x80) s.push_back(c);
    else if (c<0x800) { s.push_back(0xc0|c>>6); s.push_back(0x80|(c&63)); }
    else if (c<0x10000) { s.push_back(0xe0|c>>12); s.push_back(0x80|(c>>6&63)); s.push_back(0x80|(c&63)); }
    else { s.push_back(0xf0|c>>18); s.push_back(0x80|(c>>12&63)); s.push_back(0x80|(c>>6&63)); s.push_back(0x80|(c&63)); }
    return s;
}

int ref_width(u32 u) {
    if (!u) return 0;
    if (u<0x20 || (u>=0x7f && u<0xa0)) return -1;
    for (auto &r:ref_zero) if (u>=r[0] && u<=r[1]) return 0;
    static const u32 wide[][2]={{0x1100,0x115f},{0x2329,0x232a},{0x2e80,0x303e},{0x3040,0xa4cf},{0xac00,0xd7a3},{0xf900,0xfaff},{0xfe10,0xfe19},{0xfe30,0xfe6f},{0xff00,0xff60},{0xffe0,0xffe6},{0x20000,0x2fffd},{0x30000,0x3fffd}};
    for (auto &r:wide) if (u>=r[0] && u<=r[1]) return 2;
    return 1;
}
u32 ref_cp437(u8 b) { return ref_cp437_tab[b]; }
u32 ref_vt100(u8 b) { return ref_vt100_tab[b]; }

Screen snapshot(VT *v) {
    Screen s; int o[6]; const char *t; u64 a;
    sh_info(v,o,&a,&t);
    s.sx=o[0]; s.sy=o[1]; s.cx=o[2]; s.cy=o[3]; s.s1=o[4]; s.s2=o[5]; s.attr=a; s.title=t?t:"";
    s.c.resize(s.sx*s.sy);
    int r=sh_cells(v,s.c.data());
    CHECK(!r,"bad mark chain in cell %d",-1-r);
    return s;
}
static std::string cellstr(const SCell &c) { char b[200]; int n=snprintf(b,sizeof b,"ch=%X attr=%llx",c.ch,(unsigned long long)c.attr); for (u32 i=0;i<c.nc;i++) n+=snprintf(b+n,sizeof b-n," +%X",c.comb[i]); return b; }
std::string diff(const Screen &r,const Screen &m,int what) {
    char b[400];
    if ((what&D_SIZE) && (r.sx!=m.sx || r.sy!=m.sy)) { snprintf(b,400,"size is %dx%d, should be %dx%d",r.sx,r.sy,m.sx,m.sy); return b; }
    int sx=m.sx, sy=m.sy;
    for (int y=0;y<sy;y++) for (int x=0;x<sx;x++) {
        const SCell &p=r.at(x,y),&q=m.at(x,y);
        SCell pp=p; pp.attr&=~A_CJK;
        if (memcmp(&pp,&q,sizeof q)) { snprintf(b,400,"cell %d,%d is %s, should be %s",x,y,cellstr(pp).c_str(),cellstr(q).c_str()); return b; }
    }
    if ((what&D_CURSOR) && (r.cx!=m.cx || r.cy!=m.cy)) { snprintf(b,400,"cursor is %d,%d, should be %d,%d",r.cx,r.cy,m.cx,m.cy); return b; }
    if ((what&D_ATTR) && r.attr!=m.attr) { snprintf(b,400,"attribute is %llx, should be %llx",(unsigned long long)r.attr,(unsigned long long)m.attr); return b; }
    if ((what&D_REGION) && (r.s1!=m.s1 || r.s2!=m.s2)) { snprintf(b,400,"scrolling region is %d-%d, should be %d-%d",r.s1,r.s2,m.s1,m.s2); return b; }
    if ((what&D_TITLE) && r.title!=m.title) return "title is \""+printable(r.title)+"\", should be \""+printable(m.title)+"\"";
    return "";
}
std::string render(const Screen &s) {
    std::string o; char b[64]; snprintf(b,64,"%dx%d cursor %d,%d\n",s.sx,s.sy,s.cx,s.cy); o=b;
    for (int y=0;y<s.sy;y++) { o+="|"; for (int x=0;x<s.sx;x++) { const SCell &c=s.at(x,y); if (c.ch==RIGHT) continue; o+=utf8(c.ch); for (u32 i=0;i<c.nc;i++) { snprintf(b,64,"+%X",c.comb[i]); o+=b; } } o+="|\n"; }
    return o;
}

// ------------------------------------------------------------ the model
Model::Model(int w,int h,bool rs) { resizable=rs; sx=w; sy=h; s1=0; s2=h; c.assign(w*h,blank()); }

void Model::unpair(int x,int y) {
    if (at(x,y).ch==RIGHT) { SCell &l=at(x-1,y); l.ch=' '; l.nc=0; memset(l.comb,0,sizeof l.comb); damaged++; }
    else if (x+1<sx && at(x+1,y).ch==RIGHT) { at(x+1,y).ch=' '; damaged++; }
}
void Model::fill(int a,int b) { for (int i=a;i<b;i++) c[i]=blank(); }
void Model::scroll(int a,int b,int n) {
    std::vector<SCell> old(c.begin()+a*sx,c.begin()+b*sx);
    for (int y=a;y<b;y++) { int64_t from=(int64_t)y+n; for (int x=0;x<sx;x++) at(x,y)= from>=a&&from<b? old[(from-a)*sx+x] : blank(); }
    scrolled=true;
}
void Model::linefeed() { if (cy+1==s2) scroll(s1,s2,1); else if (cy+1<sy) cy++; }
void Model::revfeed() { if (cy==s1) scroll(s1,s2,-1); else if (cy>0) cy--; }

void Model::put(u32 ch) {
    int w=ref_width(ch);
    if (w<0) return;
    if (w==0) {
        if (cx==0) return;
        int x=cx-1; if (at(x,cy).ch==RIGHT) x--;
        SCell &k=at(x,cy); if (k.nc<4) k.comb[k.nc++]=ch;
        return;
    }
    if (ch<128 && G[curG]) ch=ref_vt100(ch);
    if (cx+w>sx) { if (wrap) { cx=0; linefeed(); wraps++; } else cx=sx-w; }
    for (int i=0;i<w;i++) unpair(cx+i,cy);
    SCell k=blank(); k.ch=ch; at(cx,cy)=k;
    if (w==2) { k.ch=RIGHT; at(cx+1,cy)=k; }
    cx+=w;
}

void Model::resize(int w,int h) {
    if (w==sx && h==sy) return;
    std::vector<SCell> n(w*h,blank());
    for (int y=0;y<h&&y<sy;y++) for (int x=0;x<w&&x<sx;x++) {
        SCell k=at(x,y);
        if (x+1==w && x+1<sx && at(x+1,y).ch==RIGHT) k.ch=' ';
        n[y*w+x]=k;
    }
    c.swap(n); sx=w; sy=h; s1=0; s2=h; resizes++;
    if (cx>w) cx=w;
    if (cy>=h) cy=h-1;
    if (save_cx>w) save_cx=w;
    if (save_cy>=h) save_cy=h-1;
}
void Model::reset() {
    attr=save_attr=0; fill(0,sx*sy); cx=cy=save_cx=save_cy=0; s1=0; s2=sy; st=NORM; wrap=show=true; kpad=false;
    G[0]=save_G[0]=false; G[1]=save_G[1]=true; curG=save_cur=0; ucnt=0;
}
int Model::p(size_t i,int def) const { if (i>=par.size()) return def; int v=(int)par[i]; return v<1? def : v; }

void Model::finish_osc() {
    st=NORM;
    if (osc_bad || osc_cmd==0xffffffffu) return;
    std::string s=osc_has? osc_s : "";
    if (osc_cmd==0) title=s;
    ev.push_back("osc "+std::to_string((int)osc_cmd)+" "+s);
}

void Model::feed(u8 b) {
    switch (b) {
    case 0: case 5: case 127: return;
    case 7: if (st==OSC||st==OSCS) finish_osc(); else ev.push_back("bell"); return;
    case 8: if (cx) cx--; return;
    case 9: { if (cx>=sx) return; int e=(cx/8+1)*8; if (e>sx) e=sx; unpair(cx,cy); if (e<sx && at(e,cy).ch==RIGHT) at(e,cy).ch=' '; while (cx<e) { at(cx,cy)=blank(); cx++; } return; }
    case 10: cx=0; linefeed(); return;
    case 11: linefeed(); return;
    case 12: cx=cy=0; fill(0,sx*sy); return;
    case 13: cx=0; return;
    case 14: curG=1; return;
    case 15: curG=0; return;
    case 24: case 26: st=NORM; return;
    case 27: if (st==OSC||st==OSCS) finish_osc(); st=ESC; return;
    }
    switch (st) {
    case NORM: exec_text(b); return;
    case ESC:
        st=NORM;
        switch (b) {
        case '[': st=CSI; par.assign(1,0); break;
        case ']': st=OSC; osc_cmd=0; osc_bad=osc_has=false; osc_s.clear(); break;
        case '(': st=G0; break;
        case ')': st=G1; break;
        case '%': st=PCT; break;
        case '7': save_cx=cx; save_cy=cy; save_attr=attr; save_G[0]=G[0]; save_G[1]=G[1]; save_cur=curG; break;
        case '8': cx=save_cx; cy=save_cy; attr=save_attr; G[0]=save_G[0]; G[1]=save_G[1]; curG=save_cur; break;
        case 'E': cx=0; // fallthrough
        case 'D': linefeed(); break;
        case 'M': revfeed(); break;
        case '=': kpad=true; ev.push_back("flag kpad 1"); break;
        case '>': kpad=false; ev.push_back("flag kpad 0"); break;
        case 'c': if (escc) { reset(); utf8=true; lead=0; } break;
        }
        return;
    case CSI: if (b=='?') { st=QUES; return; } st=CSIP; // fallthrough
    case CSIP: case QUES:
        if (b>='0' && b<='9') { par.back()=par.back()*10+(b-'0'); return; }
        if (b==';') { if (par.size()>=16) st=NORM; else par.push_back(0); return; }
        if (st==QUES) { st=NORM; ques(b); } else { st=NORM; csi(b); }
        return;
    case G0: case G1: { int g=st==G1; st=NORM; if (b=='0') G[g]=true; else if (b=='B'||b=='U') G[g]=false; return; }
    case PCT: st=NORM; if (b=='@') utf8=false; else if (b=='8'||b=='G') utf8=true; return;
    case OSC:
        if (b>='0' && b<='9') osc_cmd=osc_cmd*10+(b-'0');
        else { st=OSCS; if (b==';') osc_has=true; else osc_bad=true; }
        return;
    case OSCS: if (osc_has && osc_s.size()<4095) osc_s.push_back(b); return;
    }
}

void Model::exec_text(u8 b) {
    if (!utf8) { put(ref_cp437(b)); return; }
    if (b<0x80) { ucnt=0; put(b); return; }
    if (b<0xc0) {                   // continuation
        if (!ucnt) return;
        uch=uch<<6|(b&63);
        if (--ucnt) return;
        u32 k=uch;
        if (k<0xa0) k=0xfffd;
        if (k==0xfeff) return;
        if (k>=0xd800 && k<0xdc00) { lead=k; return; }
        if (k>=0xdc00 && k<0xe000) { if (lead) { k=0x10000+((lead-0xd800)<<10)+(k-0xdc00); lead=0; } else k=0xfffd; }
        if (k>0x10ffff || (k&0xfffe)==0xfffe || (k>=0xfdd0 && k<=0xfdef)) k=0xfffd;
        put(k);
        return;
    }
    if (b<0xe0) ucnt=1, uch=b&31; else if (b<0xf0) ucnt=2, uch=b&15; else if (b<0xf8) ucnt=3, uch=b&7;
    else if (b<0xfc) ucnt=4, uch=b&3; else if (b<0xfe) ucnt=5, uch=b&1; else ucnt=0;
}

void Model::ques(u8 f) {
    if (f!='h' && f!='l') return;
    bool on=f=='h';
    for (u32 v:par) if (v==7) wrap=on; else if (v==25) { show=on; ev.push_back(std::string("flag cursor ")+(on?"1":"0")); }
}

void Model::csi(u8 f) {
    auto clampx=[&](int v){ return v<0?0: v>=sx? sx-1 : v; }; auto clampy=[&](int v){ return v<0?0: v>=sy? sy-1 : v; };
    int n=p(0,1);
    // parameters are 32 bit; the position commands see them as signed
    auto pos=[&](size_t i)->int { return i<par.size()? (int)(par[i]-1u) : -1; };
    switch (f) {
    case 'm': sgr(); break;
    case 'D': cx= n<cx? cx-n : 0; break;
    case 'C': case 'a': cx= n<sx-cx? cx+n : sx; break;
    case 'F': cx=0; // fallthrough
    case 'A': cy= n<cy? cy-n : 0; break;
    case 'E': cx=0; // fallthrough
    case 'B': cy= n<sy-cy? cy+n : sy-1; break;
    case 'r': { u32 a=par[0]?par[0]:1, b=par.size()>1&&par[1]? par[1] : (u32)sy; if (b<=(u32)sy && a<b) { s1=a-1; s2=b; cx=0; cy=s1; } break; }
    case 'J':
        if (par[0]==0) { if (cx<sx && at(cx,cy).ch==RIGHT) unpair(cx,cy); fill(cy*sx+cx,sx*sy); }
        else if (par[0]==1) { if (cx<sx && at(cx,cy).ch==RIGHT) at(cx,cy).ch=' ',damaged++; fill(0,cy*sx+cx); }
        else if (par[0]==2) fill(0,sx*sy);
        break;
    case 'K':
        if (par[0]==0) { if (cx<sx && at(cx,cy).ch==RIGHT) unpair(cx,cy); fill(cy*sx+cx,cy*sx+sx); }
        else if (par[0]==1) { if (cx<sx && at(cx,cy).ch==RIGHT) at(cx,cy).ch=' ',damaged++; fill(cy*sx,cy*sx+cx); }
        else if (par[0]==2) fill(cy*sx,cy*sx+sx);
        break;
    case 'L': if (cy>=s1 && cy<s2) scroll(cy,s2,-n); break;
    case 'M': if (cy>=s1 && cy<s2) scroll(cy,s2,n); break;
    case '@': case 'P': case 'X': {
        if (n>sx-cx) n=sx-cx;
        if (n<=0) break;
        if (at(cx,cy).ch==RIGHT) { unpair(cx,cy); if (f=='@') at(cx,cy).ch=' '; }
        if (f=='@') {
            int e=sx-n;  // first cell pushed off
            if (at(e,cy).ch==RIGHT) unpair(e,cy);
            for (int x=sx-1;x>=cx+n;x--) at(x,cy)=at(x-n,cy);
            fill(cy*sx+cx,cy*sx+cx+n);
        } else {
            if (cx+n<sx && at(cx+n,cy).ch==RIGHT) at(cx+n,cy).ch=' ',damaged++;
            if (f=='P') { for (int x=cx;x+n<sx;x++) at(x,cy)=at(x+n,cy); fill(cy*sx+sx-n,cy*sx+sx); }
            else fill(cy*sx+cx,cy*sx+cx+n);
        }
        break; }
    case 'H': case 'f': cy=clampy(pos(0)); cx=clampx(pos(1)); break;
    case 'G': case '`': cx=clampx(pos(0)); break;
    case 'd': cy=clampy(pos(0)); break;
    case 'c': reset(); break;
    case 't':
        if (par[0]==8 && resizable) {
            u32 h=par.size()>1? par[1] : 0, w=par.size()>2? par[2] : 0;
            if (h>256 || w>512) break;
            if (!h) h=sy;
            if (!w) w=sx;
            if (w<2) break;
            resize(w,h);
            ev.push_back("resize "+std::to_string(w)+"x"+std::to_string(h));
        }
        break;
    }
}

void Model::sgr() {
    auto color=[&](int shift,u32 type,u32 v) { attr=(attr&~((u64)0x3ffffff<<shift))|((u64)(type<<24|v)<<shift); };
    u32 a[24]={0}; size_t n=par.size(); for (size_t i=0;i<n;i++) a[i]=par[i];
    for (size_t i=0;i<n;i++) {
        u32 v=a[i];
        switch (v) {
        case 0: attr=0; break;
        case 1: attr=(attr|A_BOLD)&~A_DIM; break;
        case 2: attr=(attr|A_DIM)&~A_BOLD; break;
        case 3: attr|=A_ITALIC; break;
        case 4: attr|=A_UNDERLINE; break;
        case 5: attr|=A_BLINK; break;
        case 7: attr|=A_INVERSE; break;
        case 9: attr|=A_STRIKE; break;
        case 21: case 22: attr&=~(A_BOLD|A_DIM); break;
        case 23: attr&=~A_ITALIC; break;
        case 24: attr&=~A_UNDERLINE; break;
        case 25: attr&=~A_BLINK; break;
        case 27: attr&=~A_INVERSE; break;
        case 29: attr&=~A_STRIKE; break;
        case 39: color(0,0,0); break;
        case 49: color(32,0,0); break;
        case 38: case 48: {
            int sh=v==38?0:32;
            if (i+1>=16) break;
            u32 kind=a[++i];
            if (kind==5) { if (i+1<16) color(sh,2,a[++i]&255); }
            else if (kind==2) { if (i+3<16) { color(sh,3,(a[i+1]&255)<<16|(a[i+2]&255)<<8|(a[i+3]&255)); i+=3; } }
            else if (kind==3) i+=3;
            else if (kind==4) i+=4;
            break; }
        default:
            if (v>=30 && v<=37) color(0,1,v-30);
            else if (v>=40 && v<=47) color(32,1,v-40);
            else if (v>=90 && v<=97) color(0,2,v-90+8);
            else if (v>=100 && v<=107) color(32,2,v-100+8);
        }
    }
}
