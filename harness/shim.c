// Access to the fields of the C structures, for the C++ harness.
#include "config.h"
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "tty.h"
#include "wcwidth.h"

struct SCell { uint32_t ch, nc; uint64_t attr; uint32_t comb[4]; };

void sh_info(tty vt, int *o, uint64_t *attr, const char **title)
{
    o[0]=vt->sx; o[1]=vt->sy; o[2]=vt->cx; o[3]=vt->cy; o[4]=vt->s1; o[5]=vt->s2;
    *attr=vt->attr; *title=vt->title;
}

int sh_cells(tty vt, struct SCell *c)
{
    memset(c, 0, sizeof(*c)*vt->sx*vt->sy);
    for (int i=0; i<vt->sx*vt->sy; i++)
    {
        c[i].ch=vt->scr[i].ch;
        c[i].attr=vt->scr[i].attr;
        for (uint32_t j=vt->scr[i].comb; j; j=vt->combs[j].next)
        {
            if (!vt->combs || j>=vt->combs[0].ch || c[i].nc>=4)
                return -1-i;
            c[i].comb[c[i].nc++]=vt->combs[j].ch;
        }
    }
    return 0;
}

uint64_t sh_attr_mask_cjk(void) { return VT100_ATTR_CJK; }

void sh_listen(tty vt, void *data, void **f)
{
    vt->l_data=data;
    vt->l_char=f[0]; vt->l_comb=f[1]; vt->l_cursor=f[2]; vt->l_clear=f[3]; vt->l_scroll=f[4];
    vt->l_flag=f[5]; vt->l_osc=f[6]; vt->l_resize=f[7]; vt->l_flush=f[8]; vt->l_bell=f[9]; vt->l_free=f[10];
}
void *sh_ldata(tty vt) { return vt->l_data; }
// wrap the resize listener of vtvt
static void (*old_resize)(tty vt, int sx, int sy);
static void (*rs_hook)(void);
static void rs(tty vt, int sx, int sy) { old_resize(vt, sx, sy); vtvt_resize(vt, sx, sy); rs_hook(); }
void sh_follow_resize(tty vt, void (*hook)(void)) { old_resize=vt->l_resize; rs_hook=hook; vt->l_resize=rs; }

int sh_listeners(tty vt)
{
    return !!vt->l_char+!!vt->l_comb+!!vt->l_cursor+!!vt->l_clear+!!vt->l_scroll+!!vt->l_flag+!!vt->l_osc
          +!!vt->l_resize+!!vt->l_flush+!!vt->l_bell+!!vt->l_free;
}

const char *sh_validate(tty vt)
{
    if (vt->sx<2 || vt->sy<1)
        return "screen too small";
    if (vt->cx<0 || vt->cx>vt->sx || vt->cy<0 || vt->cy>=vt->sy)
        return "cursor out of bounds";
    if (vt->s1<0 || vt->s1>=vt->s2 || vt->s2>vt->sy)
        return "bad scrolling region";
    int n=vt->sx*vt->sy;
    if (!vt->combs)
    {
        for (int i=0; i<n; i++)
            if (vt->scr[i].comb)
                return "mark chain without a table";
    }
    else
    {
        uint32_t nc=vt->combs[0].ch;
        uint8_t *tc=calloc(nc, 1);
        tc[0]=1;
        for (int i=0; i<n; i++)
        {
            int l=0;
            for (uint32_t j=vt->scr[i].comb; j; j=vt->combs[j].next)
            {
                if (j>=nc)
                    return free(tc), "mark out of table";
                if (tc[j])
                    return free(tc), "mark chain shared or looped";
                tc[j]=1;
                if (++l>4)
                    return free(tc), "more than four marks";
                if (mk_wcwidth(vt->combs[j].ch))
                    return free(tc), "mark is not zero width";
            }
        }
        uint32_t j;
        for (j=vt->combs[0].next; j<nc; j=vt->combs[j].next)
        {
            if (tc[j])
                return free(tc), "free mark used or looped";
            tc[j]=1;
        }
        if (j!=nc)
            return free(tc), "bad end of the free list";
        for (j=0; j<nc; j++)
            if (!tc[j])
                return free(tc), "mark slot neither used nor free";
        free(tc);
    }
    for (int i=0; i<n; i++)
    {
        int x=i%vt->sx;
        attrchar *ac=&vt->scr[i];
        if (ac->ch==VT100_CJK_RIGHT)
        {
            if (!(ac->attr&VT100_ATTR_CJK))
                return "right half not marked CJK";
            if (!x || ac[-1].ch==VT100_CJK_RIGHT || mk_wcwidth(ac[-1].ch)!=2)
                return "right half without a left one";
            if (ac->comb)
                return "marks on a right half";
            continue;
        }
        if (ac->ch>0x10ffff)
            return "not a character";
        switch (mk_wcwidth(ac->ch))
        {
        case 1:
            if (ac->attr&VT100_ATTR_CJK)
                return "narrow cell marked CJK";
            break;
        case 2:
            if (!(ac->attr&VT100_ATTR_CJK))
                return "wide cell not marked CJK";
            if (x+1>=vt->sx || ac[1].ch!=VT100_CJK_RIGHT)
                return "wide character without a right half";
            break;
        default:
            return "cell holds no printable character";
        }
    }
    return 0;
}

#define _TTYREC_H_NO_TYPES
typedef void *recorder, *ttyrec, *ttyrec_frame;
#include "ttyrec.h"
void sh_tadd(struct timeval *a, const struct timeval *b) { tadd(*a, *b); }
void sh_tsub(struct timeval *a, const struct timeval *b) { tsub(*a, *b); }
void sh_tmul(struct timeval *a, int m) { tmul1000(*a, m); }
void sh_tdiv(struct timeval *a, int m) { tdiv1000(*a, m); }
int sh_tcmp(const struct timeval *a, const struct timeval *b) { return tcmp(*a, *b); }

// ------------------------------------------------------------ memory running out (the library is compiled with these names)
int vp_fail_at, vp_fail_all, vp_hits;   // the n-th allocation fails; and all later ones; how many have failed
static int vp_fails(void)
{
    if (!vp_fail_at) return 0;
    if (vp_fail_at>1) { vp_fail_at--; return 0; }
    if (!vp_fail_all) vp_fail_at=0;
    vp_hits++; return 1;
}
#include <stdlib.h>
#include <string.h>
#undef malloc
#undef calloc
#undef realloc
#undef strdup
void *vp_malloc(size_t n) { return vp_fails()? 0 : malloc(n); }
void *vp_calloc(size_t n, size_t m) { return vp_fails()? 0 : calloc(n, m); }
void *vp_realloc(void *p, size_t n) { return vp_fails()? 0 : realloc(p, n); }
char *vp_strdup(const char *s) { return vp_fails()? 0 : strdup(s); }
