// Property-based testing engine: choice-sequence generators with integrated
// shrinking, forked workers, in-process coverage guidance.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

struct Rng {                       // xoshiro256**
    u64 s[4];
    void seed(u64 x) { for (int i=0;i<4;i++) { x+=0x9e3779b97f4a7c15ull; u64 z=x; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; s[i]=z^(z>>31);} }
    static u64 rotl(u64 x,int k){return (x<<k)|(x>>(64-k));}
    u64 next() { u64 r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r; }
    u64 below(u64 n) { return n? next()%n : next(); }
    bool pct(int p) { return (int)below(100)<p; }
};

[[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define CHECK(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while(0)

struct Choice { u64 v, n; };
struct Span { u32 a, b; };

class Src {
public:
    Rng rng;                       // random source (only used through draw*)
    const Choice *pre=0; size_t npre=0, pos=0;   // replayed prefix
    bool tail_random=true;         // past the prefix: random or zero
    bool verbose=false;            // collect notes
    int tier=0;                    // 0 quick, 1 thorough
    std::string notes;
    bool is_nontrivial=false;
    u64 case_idx=0;

    u64 draw(u64 n) { return drawf(n, [n](Rng &r){ return r.below(n); }); }
    // value in [0,n); n==0 means any 64 bit value. f supplies a (possibly biased) random one.
    template<class F> u64 drawf(u64 n, F f) {
        u64 v;
        if (pos<npre) { v=pre[pos].v; if (n && v>=n) v=v%n; }
        else if (tail_random) { v=f(rng); if (n && v>=n) v=v%n; }
        else v=0;
        pos++;
        record(v,n);
        return v;
    }
    bool flip(int pct=50) { return drawf(2, [pct](Rng &r){ return (u64)r.pct(pct); }); }
    int64_t range(int64_t lo, int64_t hi) { return lo+(int64_t)draw((u64)(hi-lo)+1); }
    // true once in n; mutations of a choice rarely make it true
    bool rare(int n) { return draw(n)==(u64)n/2; }
    // weighted choice of an index
    int weighted(std::initializer_list<int> w) { return weighted(w.begin(),w.size()); }
    int weighted(const std::vector<int> &w) { return weighted(w.data(),w.size()); }
    int weighted(const int *w,size_t n) {
        int t=0; for (size_t i=0;i<n;i++) t+=w[i];
        int v=(int)drawf(n, [&](Rng &r)->u64{ int k=(int)r.below(t?t:1); for (size_t i=0;i<n;i++) { if (k<w[i]) return i; k-=w[i]; } return 0; });
        for (size_t i=0;i<n && !w[v];i++) v=(v+1)%n;   // alternatives of weight 0 are never taken
        return v;
    }
    // an integer biased to small values and to interesting constants
    u64 num(u64 n, std::initializer_list<u64> special={});
    u64 dictval();                 // constant seen in comparisons of the code under test (random mode only)
    void begin_span(); void end_span();
    void note(const char *fmt, ...) __attribute__((format(printf,2,3)));
    void label(const char *name, u64 k=1);
    void nontrivial(bool c=true) { if (c) is_nontrivial=true; }
    void evals(u64 n);             // count more than one evaluation for this case
    std::string blob(size_t len);  // data expanded from a few choices
private:
    void record(u64 v,u64 n);
};

struct SpanG { Src &s; SpanG(Src &s):s(s){s.begin_span();} ~SpanG(){s.end_span();} };

// list generator: for (List l(s,avg,max); l.next();) {...}
struct List {
    Src &s; int target, max, n=0; bool open=false;
    List(Src &s, int avg, int max):s(s),max(max) {
        // the target length is not a choice: only used while generating at random
        Rng &r=s.rng; int k=(int)r.below(8);
        if (avg<=1) target=(int)r.below(3);
        else if (k==0) target=(int)r.below(3);
        else if (k<5) target=(int)r.below(avg)+1;
        else if (k<7) target=(int)r.below(2*avg)+1;
        else target=(int)r.below(4*avg)+1;
    }
    bool next() {
        if (open) { s.end_span(); open=false; }
        if (n>=max) return false;
        s.begin_span(); open=true;
        bool m=s.drawf(2,[this](Rng &){ return (u64)(n<target); });
        if (!m) { s.end_span(); open=false; return false; }
        n++;
        return true;
    }
};

struct Prop {
    const char *id;
    void (*run)(Src&);
    int quick, thorough;           // number of cases
    int quick_s, thorough_s;       // wall clock cap
    bool cov;                      // coverage guided
    int case_timeout;              // seconds
    const char *rule;
    int workers;                   // 0 = all cores
};
void register_prop(const Prop &p);
struct RegProp { RegProp(const Prop &p) { register_prop(p); } };

std::string hex(const std::string &s, size_t max=400);
std::string printable(const std::string &s, size_t max=400);
const char *scratch();             // private scratch directory of this process
extern const char *tools_dir;      // where the built tools are
extern int engine_tier;
size_t alloc_bytes();
