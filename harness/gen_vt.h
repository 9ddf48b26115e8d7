#pragma once
#include "vt.h"
// Structured generator of terminal input.
enum Kind { K_TEXT, K_WIDE, K_COMB, K_CHAR, K_CTRL, K_CURSOR, K_ERASE, K_INSDEL, K_SCROLL, K_SGR, K_OSC, K_MODE, K_CHARSET, K_SAVE, K_RESIZE, K_RESET, K_UNKNOWN, K_RAW, K_UTF8, K_TRUNC, K_ENC, K_N };
typedef std::vector<int> Profile;  // weights by kind
Profile profile(std::initializer_list<std::pair<int,int>> l);
// drop some kinds at random (swarm testing)
Profile swarm(Src &s, const Profile &p);
struct GenCtx { int sx, sy; };
std::string gen_op(Src &s, const Profile &p, const GenCtx &g, int *kind=0);
std::string gen_param(Src &s, const GenCtx &g);
u32 gen_cp(Src &s);                // any code point that can be encoded (no surrogates)
u32 gen_wide(Src &s); u32 gen_comb(Src &s);
int gen_sx(Src &s); int gen_sy(Src &s);
