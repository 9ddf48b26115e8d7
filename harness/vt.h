// Reference terminal and access to the real one.
#pragma once
#include "engine.h"

typedef struct VT_ VT;
#define RIGHT 0xffffffffu
struct SCell { u32 ch, nc; u64 attr; u32 comb[4]; };
extern "C" {
VT *tty_init(int sx,int sy,int resizable);
int tty_resize(VT*,int,int);
void tty_reset(VT*);
void tty_free(VT*);
void tty_write(VT*,const char*,int);
void tty_printf(VT*,const char*,...);
VT *tty_copy(VT*);
u32 tty_color_convert(u32,u32);
void vtvt_dump(VT*); void vtvt_resize(VT*,int,int); void vtvt_attach(VT*,FILE*,int);
int mk_wcwidth(u32);
extern unsigned short charset_vt100[128], charset_cp437[256];
void sh_info(VT*,int*,u64*,const char**);
int sh_cells(VT*,SCell*);
void sh_listen(VT*,void*,void**);
void *sh_ldata(VT*);
int sh_listeners(VT*);
void sh_follow_resize(VT*,void(*)(void));
const char *sh_validate(VT*);
}
#define A_BOLD 0x04000000ull
#define A_DIM 0x08000000ull
#define A_ITALIC 0x10000000ull
#define A_UNDERLINE 0x20000000ull
#define A_STRIKE 0x40000000ull
#define A_INVERSE 0x0400000000000000ull
#define A_BLINK 0x0800000000000000ull
#define A_CJK 0x8000000000000000ull

struct Screen {
    int sx=0,sy=0,cx=0,cy=0,s1=0,s2=0; u64 attr=0; std::string title; std::vector<SCell> c;
    SCell &at(int x,int y) { return c[y*sx+x]; }
    const SCell &at(int x,int y) const { return c[y*sx+x]; }
};
Screen snapshot(VT*);
// empty = equal
enum { D_REGION=1, D_ATTR=2, D_TITLE=4, D_CURSOR=8, D_SIZE=16, D_ALL=31 };
std::string diff(const Screen &real,const Screen &model,int what=D_ALL);
std::string render(const Screen&);

int ref_width(u32 ch);             // independent width oracle
u32 ref_cp437(u8 b); u32 ref_vt100(u8 b);

struct Model : Screen {
    bool resizable;
    bool escc=false;               // ESC c resets (a real terminal)
    // saved
    int save_cx=0, save_cy=0; u64 save_attr=0; bool save_G[2]={false,true}; int save_cur=0;
    bool G[2]={false,true}; int curG=0;
    bool wrap=true, show=true, kpad=false, utf8=true;
    // decoder
    u32 uch=0, lead=0; int ucnt=0;
    // parser
    enum St { NORM, ESC, CSI, CSIP, QUES, G0, G1, PCT, OSC, OSCS } st=NORM;
    std::vector<u32> par; u32 osc_cmd=0; bool osc_bad=false, osc_has=false; std::string osc_s;
    // event log of once-only events
    std::vector<std::string> ev;
    bool scrolled=false; int resizes=0; int wraps=0, damaged=0;

    Model(int sx,int sy,bool resizable);
    void feed(u8 b);
    void feed(const std::string &s) { for (u8 b:s) feed(b); }
    void resize(int nsx,int nsy);
    void reset();
private:
    SCell blank() const { SCell b; memset(&b,0,sizeof b); b.ch=' '; b.attr=attr; return b; }
    void unpair(int x,int y);      // the cell is about to change: blank the other half of a wide character
    void fill(int a,int b);        // linear range
    void put(u32 ch); void scroll(int a,int b,int n); void linefeed(); void revfeed();
    void finish_osc(); void csi(u8 f); void sgr(); void ques(u8 f);
    int p(size_t i,int def) const; // parameter as int
    void exec_text(u8 b);
};
std::string utf8(u32 c);
