From c1a871ca0d505db4a563e61911961e0098dd8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 01/78] fix: tty_copy: don't share listeners and their data
 with the original

---
 libtty/tty.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..69bea86 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -188,6 +188,19 @@ export tty tty_copy(tty vt)
     if (!nvt)
         return 0;
     memcpy(nvt, vt, sizeof(struct tty));
+    // listeners and their private data belong to the original
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     if (!(nvt->scr=malloc(SX*SY*sizeof(attrchar))))
         goto drop_nvt;
     memcpy(nvt->scr, vt->scr, SX*SY*sizeof(attrchar));
-- 
2.43.0


From 37bdd1eeeefa52a5c21ac65a960017cb70c2157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 02/78] fix: tty: drop the text of a cancelled OSC string when
 a new one starts

---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 69bea86..90ad0dd 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -649,6 +649,8 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             case ']':
+                free(vt->oscbuf); // left over from a cancelled string
+                vt->oscbuf=0;
                 vt->state=ESosc;
                 vt->tok[0]=0;
                 break;
-- 
2.43.0


From 6a62d9b87868ca58e24e3fb6fd9e6148b711cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 03/78] fix: tty: consume ESC[@ ESC[P ESC[X when the cursor is
 past the right edge

---
 libtty/tty.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 90ad0dd..a67aa39 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1023,7 +1023,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 if (vt->scr[CY*SX+CX].ch==VT100_CJK_RIGHT)
                 {
@@ -1051,7 +1054,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (i<=0)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
@@ -1076,7 +1082,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (i>SX-CX)
                     i=SX-CX;
                 if (!i)
+                {
+                    vt->state=ESnormal;
                     break;
+                }
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-- 
2.43.0


From da64306a3967b66568885940795b39b46343ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 04/78] fix: tty_reset: clear the screen with default
 attributes, reset the saved ones

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index a67aa39..0cb9937 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -258,11 +258,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=vt->save_attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
-- 
2.43.0


From 0e674df560da9b276849c828b613c1b932bebe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 05/78] fix: tty: BOM is U+FEFF

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 0cb9937..ba54ef7 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -584,7 +584,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From 7d4048fe2d7270a488e38cff5ca115d5bc724ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 06/78] fix: tty: wrapping below the scrolling region must not
 scroll it

---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index ba54ef7..838590d 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -418,11 +418,13 @@ static inline void tty_write_char(tty vt, ucs c)
         {
             CX=0;
             CY++;
-            if (CY>=vt->s2)
+            if (CY==vt->s2)
             {
                 CY=vt->s2-1;
                 SCROLL(1);
             }
+            else if (CY>=SY)
+                CY=SY-1;
         }
         else
             CX=SX-w;
-- 
2.43.0


From 0f95b08cc9409125f5c844b100bdb7a17913c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/78] fix: tty: ESC[@ ESC[P: report all changes, in a form
 listeners can apply

---
 libtty/tty.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 838590d..6150b1a 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -395,6 +395,23 @@ static void cjk_damage_right(tty vt, int x, bool notify)
             vt->l_clear(vt, x, y, l);           \
     }
 
+static void notify_rest_of_line(tty vt)
+{
+    for (int x=CX;x<SX;x++)
+    {
+        attrchar *ac = &vt->scr[CY*SX+x];
+        if (ac->ch == VT100_CJK_RIGHT)
+            continue;
+        if (vt->l_char)
+            vt->l_char(vt, x, CY, ac->ch, ac->attr&~VT100_ATTR_CJK,
+                       mk_wcwidth(ac->ch));
+        if (vt->l_comb)
+            for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+                vt->l_comb(vt, x, CY, vt->combs[i].ch, ac->attr&~VT100_ATTR_CJK);
+    }
+    L_CURSOR;
+}
+
 static inline void tty_write_char(tty vt, ucs c)
 {
     int w=mk_wcwidth(c);
@@ -1041,11 +1058,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=SX-CX-i-1;j>=0;j--)
                     vt->scr[CY*SX+CX+j+i]=vt->scr[CY*SX+CX+j];
                 tty_clear_region(vt, CY*SX+CX, i, false);
-                if (vt->l_char)
-                    for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                notify_rest_of_line(vt);
                 vt->state=ESnormal;
                 break;
 
@@ -1064,16 +1077,9 @@ export void tty_write(tty vt, const char *buf, int len)
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
                 for (int j=CX+i;j<SX;j++)
-                {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
-                    {
-                        vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
-                                                vt->scr[CY*SX+j].attr,
-                                                mk_wcwidth(vt->scr[CY*SX+j].ch));
-                    }
-                }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                notify_rest_of_line(vt);
                 vt->state=ESnormal;
                 break;
 
-- 
2.43.0


From cc08731c5c8677f2198f50d1f9d17ca825724f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 08/78] fix: tty: ESC[r moves the cursor, tell listeners

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 6150b1a..4de5580 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -959,6 +959,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From 0d4ab1ed5cb7029cf917dc1dd21e06647a0c39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 09/78] fix: tty: limit 256-colour indices to the palette

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 4de5580..63fb3f7 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -830,7 +830,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         case 5:
                             if (i>=VT100_MAXTOK-1)
                                 break;
-                            FG(256, vt->tok[++i]);
+                            FG(256, vt->tok[++i]&0xff);
                             break;
                         case 2:
                             if (i>=VT100_MAXTOK-3)
@@ -861,7 +861,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         case 5:
                             if (i>=VT100_MAXTOK-1)
                                 break;
-                            BG(256, vt->tok[++i]);
+                            BG(256, vt->tok[++i]&0xff);
                             break;
                         case 2:
                             if (i>=VT100_MAXTOK-3)
-- 
2.43.0


From cc595afb2543aaaeafd3ff3661ac91fcfab480f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 10/78] fix: tty: omitted parameters are zero, not left-overs
 of earlier sequences

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 63fb3f7..bce687e 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -664,7 +664,7 @@ export void tty_write(tty vt, const char *buf, int len)
             case '[':
                 vt->state=ESsquare;
                 vt->ntok=0;
-                vt->tok[0]=0;
+                memset(vt->tok, 0, sizeof(vt->tok));
                 break;
 
             case ']':
-- 
2.43.0


From 0e66da8a7dd868081bef3908ac2d02a422ae362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 11/78] fix: tty_printf: strings over 16KB were read past the
 end of a short buffer

---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index bce687e..3d3d462 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1303,7 +1303,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_end(ap);
         if (len<=0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1313,7 +1313,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From 8fb8c78225e021275e012fe2d7e3692fd2462a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 12/78] fix: vtredir: the cursor is two columns further after a
 wide character

---
 libtty/vtredir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..bd1cbcb 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -117,7 +117,7 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
-- 
2.43.0


From d61a82fd10d0c9eb6ad2a4dddd9cbf2e67eab082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 13/78] fix: vtredir: don't draw below the bottom line

---
 libtty/vtredir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index bd1cbcb..2947c5b 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -95,7 +95,7 @@ static void build_vt100graph(void)
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
@@ -122,7 +122,7 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
     if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
         vtvt_cursor(vt, x+1, y);
-- 
2.43.0


From 6c178a2af7ff02de80f537f34b2a1a2fab26f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 14/78] fix: vtredir: attach combining marks to the right cell

---
 libtty/vtredir.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 2947c5b..43ab0e4 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -44,6 +44,7 @@ static void print_color(FILE *f, uint32_t c, int bg)
 
 static void setattr(tty vt, uint64_t attr)
 {
+    attr&=~VT100_ATTR_CJK;
     if (DATA->attr==attr)
         return;
 
@@ -120,15 +121,35 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
     CX+=width;
 }
 
+static void print_comb(tty vt, ucs ch)
+{
+    if (fprintf(DATA->f, "%lc", ch)<0)
+        clearerr(DATA->f); // No fallback, just ignore.
+}
+
+// Marks attach to the character to the left of the cursor, thus this must
+// be called with the cursor right after the base.
+static void print_combs(tty vt, const attrchar *ac)
+{
+    for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+        print_comb(vt, vt->combs[i].ch);
+}
+
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
     if (x>=SX || y>=SY)
         return;
-    if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x+1, y);
-    setattr(vt, attr);
-    if (fprintf(DATA->f, "%lc", ch)<0)
-        clearerr(DATA->f); // No fallback, just ignore.
+    const attrchar *ac = &vt->scr[y*vt->sx+x];
+    int width=mk_wcwidth(ac->ch);
+    if (x+width==CX && y==CY)
+        print_comb(vt, ch);
+    else
+    {
+        // Right past the last column can't be reached by moving the cursor,
+        // print the whole glyph again.
+        vtvt_char(vt, x, y, ac->ch, ac->attr, width);
+        print_combs(vt, ac);
+    }
 }
 
 export void vtvt_dump(tty vt)
-- 
2.43.0


From faa054ce68a45bc7856d325785efeccb87fe9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 15/78] fix: vtredir: include marks and title in dumps, flush
 the right stream

---
 libtty/vtredir.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 43ab0e4..4dac570 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -162,8 +162,11 @@ export void vtvt_dump(tty vt)
     {
         for (x=0; x<vt->sx; x++)
         {
-            if (ch->ch != VT100_CJK_RIGHT)
+            if (ch->ch != VT100_CJK_RIGHT && x<SX && y<SY)
+            {
                 vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
+                print_combs(vt, ch);
+            }
             ch++;
         }
     }
@@ -274,7 +277,9 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     if (dump)
     {
         fprintf(DATA->f, "\ec");
+        if (vt->title)
+            vtvt_osc(vt, 0, vt->title);
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(f);
     }
 }
-- 
2.43.0


From 2422f49dad96150ccb685a6f2b1e5f00a58cf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 16/78] fix: vtredir: don't exceed sixteen parameters in
 attribute sequences

---
 libtty/vtredir.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 4dac570..550941d 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -26,19 +26,23 @@ struct vtvt_data
 
 static void print_color(FILE *f, uint32_t c, int bg)
 {
+    if (!(c&VT100_ATTR_COLOR_TYPE))
+        return;
+    // All attributes and two RGB colors would exceed 16 parameters.
+    fprintf(f, bg? "m\e[" : ";");
     switch (c&VT100_ATTR_COLOR_TYPE)
     {
     case 1<<24:
         if (c&8)
-            fprintf(f, ";%d%u", 9+bg, c&7);
+            fprintf(f, "%d%u", 9+bg, c&7);
         else
-            fprintf(f, ";%d%u", 3+bg, c&7);
+            fprintf(f, "%d%u", 3+bg, c&7);
         break;
     case 2<<24:
-        fprintf(f, ";%d8;5;%u", 3+bg, c&0xff);
+        fprintf(f, "%d8;5;%u", 3+bg, c&0xff);
         break;
     case 3<<24:
-        fprintf(f, ";%d8;2;%u;%u;%u", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
+        fprintf(f, "%d8;2;%u;%u;%u", 3+bg, (c>>16)&0xff, (c>>8)&0xff, c&0xff);
     }
 }
 
-- 
2.43.0


From 76f26b3fd9eedcbead34edb21b9e5ab193347de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 17/78] fix: vtredir: keep track of the cursor past the right
 edge, sync it on flush

---
 libtty/vtredir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 550941d..ff811db 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -77,6 +77,8 @@ static void vtvt_cursor(tty vt, int x, int y)
 {
     if (x==CX && y==CY)
         return;
+    if (x>=SX) // past the end
+        x=SX-1;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
     CX=x;
     CY=y;
@@ -238,6 +240,7 @@ static void vtvt_resized(tty vt, int sx, int sy)
 
 static void vtvt_flush(tty vt)
 {
+    vtvt_cursor(vt, vt->cx, vt->cy);
     fflush(DATA->f);
 }
 
-- 
2.43.0


From c4e7f7636cefb406f82f94632735193567b54bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 18/78] fix: vtredir: clear the right area if sizes differ or
 the cursor is past the edge

---
 libtty/vtredir.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index ff811db..234ad00 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -182,25 +182,32 @@ export void vtvt_dump(tty vt)
 static void vtvt_clear(tty vt, int x, int y, int len)
 {
     int c;
+    // The real terminal may have a different size.
+    int sx=vt->sx, sy=vt->sy;
+
+    if (len<=0)
+        return;
+    if (x>=sx) // past the end
+        x=0, y++;
 
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    if (x==0 && y==0 && len==sx*sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (x==0 && y==0 && len==CY*sx+CX)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (x==CX && y==CY && len==sx*sy-CY*sx-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==SX)
+    else if (x==0 && y==CY && len==sx)
         fprintf(DATA->f, "\e[2K");
     else if (x==0 && y==CY && len==CX)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==SX-CX)
+    else if (x==CX && y==CY && len==sx-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
             vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
+            c=(len>sx-x)? sx-x : len;
             fprintf(DATA->f, "\e[%dX", c);
             len-=c;
             x=0;
-- 
2.43.0


From c398dd7686639d73d1f8ccd2150f6bdbda1e4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 19/78] fix: vtredir: scroll single-line regions, fill vacated
 lines with the current attribute

---
 libtty/vtredir.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 234ad00..2e5eef7 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -218,12 +218,14 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
-    if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+    setattr(vt, vt->attr); // vacated lines use the current attribute
+    if (vt->s1+1>=vt->s2)   // ESC[r can't set a single line
+        fprintf(DATA->f, "\e[%d;1f\e[2K", vt->s1+1);
+    else if (nl>0)
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
     CX=CY=-1;
-    DATA->attr=0;
 
 //  vtvt_dump(vt);
 }
-- 
2.43.0


From 8f520e73188e8839d50281d872a5c1783ad10bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 20/78] fix: vtredir: resizing moves the real cursor and needs
 the current attribute

---
 libtty/vtredir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 2e5eef7..8bb9f54 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -244,7 +244,9 @@ static void vtvt_osc(tty vt, int cmd, const char *str)
 
 static void vtvt_resized(tty vt, int sx, int sy)
 {
+    setattr(vt, vt->attr); // new cells use the current attribute
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
+    CX=CY=-1;
 }
 
 static void vtvt_flush(tty vt)
-- 
2.43.0


From fce49e5b8d375fc2dc570c2868191d00eaa8e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 21/78] fix: tty: listeners lost the cursor after erasing half
 of a wide character

---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 3d3d462..26f8795 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -372,6 +372,8 @@ static void cjk_damage_right(tty vt, int x, bool notify)
     tty_kill_comb(vt, ca);
     if (notify && vt->l_char)
         vt->l_char(vt, x, CY, CJK_DAMAGED, ca->attr, 1);
+    if (notify && vt->l_cursor)
+        vt->l_cursor(vt, CX, CY); // l_char moves the cursor
 }
 
 
-- 
2.43.0


From b2df4646740f77a7d4d32277ef8ff49bb0ceab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 22/78] fix: vtredir: redraw after a resize, the real terminal
 may have been larger

---
 libtty/vtredir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 8bb9f54..7fb7ca7 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -247,6 +247,9 @@ static void vtvt_resized(tty vt, int sx, int sy)
     setattr(vt, vt->attr); // new cells use the current attribute
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
     CX=CY=-1;
+    // If the real terminal was larger, what is new for us is not for it.
+    vtvt_dump(vt);
+    CX=CY=-1;
 }
 
 static void vtvt_flush(tty vt)
-- 
2.43.0


From e650d7782f3837c6ea7cabd845b11a187f0101c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 23/78] fix: formats: adding times could leave a million
 microseconds

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..ba179a8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From 56534875b515dc5da3c9ff3936647e7a450c21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 24/78] fix: ttyrec: normalize microseconds of corrupted time
 stamps

---
 libtty/formats.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index ba179a8..bc78d92 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -264,16 +264,16 @@ static void play_ttyrec(FILE *f,
 
         if (first)
         {
-            tv.tv_sec=little_endian(head.sec);
-            tv.tv_usec=little_endian(head.usec);
+            tv.tv_sec=(time_t)little_endian(head.sec)+little_endian(head.usec)/1000000;
+            tv.tv_usec=little_endian(head.usec)%1000000;
             synch_init_wait(&tv, arg);
             first=0;
         }
         else
         {
             tl=tv;
-            tv.tv_sec=little_endian(head.sec);
-            tv.tv_usec=little_endian(head.usec);
+            tv.tv_sec=(time_t)little_endian(head.sec)+little_endian(head.usec)/1000000;
+            tv.tv_usec=little_endian(head.usec)%1000000;
             tl.tv_sec=tv.tv_sec-tl.tv_sec;
             if ((tl.tv_usec=tv.tv_usec-tl.tv_usec)<0)
             {
-- 
2.43.0


From 89461cb11c76f06dd879382347b3acda702c0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 25/78] fix: nh_recorder: time stamps on read block boundaries

---
 libtty/formats.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index bc78d92..da83922 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -340,25 +340,25 @@ static void play_nh_recorder(FILE *f,
     void *arg, const struct timeval *cont)
 {
     char buf[BUFFER_SIZE];
-    int b,i,i0;
+    int b,i,i0,got;
     struct timeval tv;
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    b=0;
+    while ((got=fread(buf+b, 1, BUFFER_SIZE-b, f))>0)
     {
+        b+=got;
         i0=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    memmove(buf, buf+i, b-i);
+                    b-=i;
                     goto block_end;
                 }
                 else
@@ -374,6 +374,7 @@ static void play_nh_recorder(FILE *f,
             }
         if (i0<i)
             synch_print(buf+i0, i-i0, arg);
+        b=0;
     block_end:;
         // FIXME: frames shouldn't get split just because not being aligned
         // to our read block
-- 
2.43.0


From ff9642203035cf3b0a48c5315ef81d281bef546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 26/78] fix: nh_recorder: no bogus delay when the clock goes
 back

---
 libtty/formats.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/formats.c b/libtty/formats.c
index da83922..786daf1 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -365,6 +365,8 @@ static void play_nh_recorder(FILE *f,
                 {
                     tp=t;
                     t=get_u32(buf+i+1);
+                    if (t<tp)   // the time went back, probably an appended file
+                        tp=t;
                     i0=i+5;
                     i+=4;
                     tv.tv_sec=(t-tp)/100;
-- 
2.43.0


From 7eb8f7fa63ecd9fea1d9e125ab03c2462e3e9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 27/78] fix: nh_recorder: write time stamps before the data,
 like players expect

---
 libtty/formats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 786daf1..ee339e0 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -402,9 +402,10 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
+    // a time stamp applies to the data after it
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 96724e98eb8dd5419c953ba2e6c5ab48ae14ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 28/78] fix: nh_recorder: NULs in the data would be taken for
 time stamps

---
 libtty/formats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index ee339e0..a7cadae 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -405,7 +405,9 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     // a time stamp applies to the data after it
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
-    fwrite(buf, 1, len, f);
+    for (; len>0; buf++, len--) // NULs can't be expressed
+        if (*buf)
+            fputc(*buf, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 06ccc948efacc8b99d33ad4c180d50dcdf17412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 29/78] fix: auto: don't drop inputs shorter than 12 bytes

---
 libtty/formats.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libtty/formats.c b/libtty/formats.c
index a7cadae..141a6d2 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -463,7 +463,15 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
+        {
+            if (!got)
+                return;
+            // too short for a header of anything
+            gettimeofday(&tv, 0);
+            synch_init_wait(&tv, arg);
+            synch_print((char*)&tth, got, arg);
             return;
+        }
         got+=len;
     } while (got<12);
     if (little_endian(tth.usec)<1000000 &&
-- 
2.43.0


From f173611b700dea8e9995efad5f2a4c0e4f1cd4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 30/78] fix: auto: check the whole header for being an
 asciicast

---
 libtty/formats.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 141a6d2..9c5290d 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -421,9 +421,9 @@ static void record_nh_recorder_finish(FILE *f, void* state)
 /***********************/
 
 #define WANT(x) if (!len--) return 1; if (*buf++!=(x)) return 0;
-#define SPACE while (1) { if (!len--) return 1; \
+#define SPACE while (1) { if (!len) return 1; \
     if (*buf!=' '&&*buf!='\t'&&*buf!='\n'&&*buf!='\r') break; \
-    buf++; }
+    buf++; len--; }
 static int is_asciicast(const char *buf)
 {
     int len=12;
-- 
2.43.0


From 247ca5c70a377bed2fa19f565b814f3c3c8db725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 31/78] fix: asciicast: escape backslashes

---
 libtty/asciicast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..3a9d364 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -546,8 +546,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fputs("\\n", f);
             else
                 fprintf(f, "\\u%04x", *buf);
-        else if (*buf=='"')
-            fputs("\\\"", f);
+        else if (*buf=='"' || *buf=='\\')
+            fprintf(f, "\\%c", *buf);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From f02f06766528701b6c3c814607c56d569bbc6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 32/78] fix: asciicast-v1: delays after a frame at 0:0 were
 lost

---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 3a9d364..8db73fa 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -528,10 +528,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From adafc96169f08a3fa1698ffc0ebbb0f736a3da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 33/78] fix: asciicast: memory leak on frames with only an
 incomplete character

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 8db73fa..36c3441 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -519,7 +519,10 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     as->putf[skip]=0;
 
     if (!len)
+    {
+        free(buf2);
         return;
+    }
 
     if (as->version == 1)
     {
-- 
2.43.0


From 5e2ddd2dba3c69359eb9c41151a802ceff04e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 34/78] fix: asciicast: write a valid file even if there were
 no frames

---
 libtty/asciicast.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 36c3441..9cc9da2 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -476,24 +476,29 @@ static int skip_partial_utf(const char *b, int len)
     return 0;
 }
 
+static void write_header(FILE *f, struct ac_state *as, const char *buf, int len)
+{
+    // need to play first frame to fetch screen size
+    tty vt = tty_init(80, 25, 1);
+    tty_write(vt, buf, len);
+    fprintf(f, "{\"version\":%d, \"width\":%d, \"height\":%d",
+        as->version, vt->sx, vt->sy);
+    if (as->ts.tv_sec)
+        fprintf(f, ", \"timestamp\":%ld", as->ts.tv_sec);
+    if (as->version == 1)
+        fprintf(f, ", \"stdout\":[\n");
+    else
+        fprintf(f, "}\n");
+    tty_free(vt);
+    as->head_done = true;
+}
+
 void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
 {
     struct ac_state *as = state;
     if (!as->head_done)
     {
-        // need to play first frame to fetch screen size
-        tty vt = tty_init(80, 25, 1);
-        tty_write(vt, buf, len);
-        fprintf(f, "{\"version\":%d, \"width\":%d, \"height\":%d",
-            as->version, vt->sx, vt->sy);
-        if (as->ts.tv_sec)
-            fprintf(f, ", \"timestamp\":%ld", as->ts.tv_sec);
-        if (as->version == 1)
-            fprintf(f, ", \"stdout\":[\n");
-        else
-            fprintf(f, "}\n");
-        tty_free(vt);
-        as->head_done = true;
+        write_header(f, as, buf, len);
 
         int skip = skip_utf_term_size(buf, len);
         buf+=skip;
@@ -560,6 +565,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 void record_asciicast_finish(FILE *f, void* state)
 {
     struct ac_state *as = state;
+    if (!as->head_done)
+        write_header(f, as, "", 0);
     if (as->version == 1)
         fprintf(f, "\n]}\n");
     free(state);
-- 
2.43.0


From c6f95f95925a9c3c3eb872b99bf5360b60f7af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 35/78] fix: asciicast: don't show events other than output

---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 9cc9da2..2666509 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -377,12 +377,14 @@ body:
         if (c != ',')
             FAIL("Malformed asciicast: no comma after duration.\n");
 
+        bool output = true;
         if (version == 2)
         {
             EAT();
             if (c != '"')
                 FAIL("Malformed asciicast: expected event type.\n");
             eat_string(f, buf);
+            output = !strcmp(buf, "o");
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
@@ -391,7 +393,9 @@ body:
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        int len = eat_string(f, buf) - buf;
+        if (output && len)
+            synch_print(buf, len, arg);
 
         EAT();
         if (c !=']')
-- 
2.43.0


From 65f95cca51f1d32a9c08cd036a384df73ae235da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 36/78] fix: asciicast: normalize negative delays

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 2666509..0935129 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -371,6 +371,8 @@ body:
         }
         tv.tv_sec =  delay/1000000;
         tv.tv_usec = delay%1000000;
+        if (tv.tv_usec < 0)
+            tv.tv_usec += 1000000, tv.tv_sec--;
         synch_wait(&tv, arg);
 
         EAT();
-- 
2.43.0


From 9b517d82736f50c0e3b2f4c4724755a115dbc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 37/78] fix: asciicast: digits lost in numbers with exponents,
 endless loops on big ones

---
 libtty/asciicast.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 0935129..f1ad59f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -101,18 +101,18 @@ static int64_t eat_float(NIH_FILE *f)
 {
     int c;
     int64_t x=0;
+    int e=6;
     c=getc(f);
-    while (c>='0' && c<='9')
-        x=x*10+c-'0', c=getc(f);
-    x*=1000000;
+    for (; c>='0' && c<='9'; c=getc(f))
+        if (x<INT64_MAX/10-1)
+            x=x*10+c-'0';
+        else
+            e++;
 
     if (c=='.')
-    {
-        int y=1000000;
-        c=getc(f);
-        while (c>='0' && c<='9')
-            x+= (c-'0')*(y/=10), c=getc(f);
-    }
+        while ((c=getc(f))>='0' && c<='9')
+            if (x<INT64_MAX/10-1)
+                x=x*10+c-'0', e--;
 
     if (c=='e' || c=='E')
     {
@@ -122,17 +122,21 @@ static int64_t eat_float(NIH_FILE *f)
             c=getc(f);
         else if (c=='-')
             c=getc(f), minus=true;
-        int e=0;
-        while (c>='0' && c<='9')
-            e=e*10+c-'0', c=getc(f);
-        if (minus)
-            while (e-->0)
-                x/=10;
-        else
-            while (e-->0)
-                x*=10;
+        int y=0;
+        for (; c>='0' && c<='9'; c=getc(f))
+            if (y<1000000)
+                y=y*10+c-'0';
+        e+=minus? -y : y;
     }
 
+    for (; e<0 && x; e++)
+        x/=10;
+    for (; e>0 && x; e--)
+        if (x>INT64_MAX/10)
+            x=INT64_MAX, e=1;
+        else
+            x*=10;
+
     ungetc(c, f);
     return x;
 }
-- 
2.43.0


From b2b5761a90e02afe100892813fa532a8a201a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 38/78] fix: asciicast: accept all JSON values in headers, and
 files without events

---
 libtty/asciicast.c | 97 ++++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index f1ad59f..518e250 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -226,6 +226,36 @@ end:
     return buf;
 }
 
+// Skip the rest of a JSON object or array, after its opening bracket.
+static bool eat_nested(NIH_FILE *f, char *buf)
+{
+    int level = 1;
+
+    while (level)
+        switch (getc(f))
+        {
+        case EOF:
+            return false;
+        case '"':
+            eat_string(f, buf);
+            break;
+        case '{': case '[':
+            level++;
+            break;
+        case '}': case ']':
+            level--;
+        }
+    return true;
+}
+
+static bool eat_word(NIH_FILE *f, const char *word)
+{
+    while (*word)
+        if (getc(f) != *word++)
+            return false;
+    return true;
+}
+
 #define FAIL(x) do {const char* t=(x);return synch_print(t, strlen(t), arg);} while (0)
 void do_play_asciicast(int fd, const char *obuf, int olen,
     void (*synch_init_wait)(const struct timeval *ts, void *arg),
@@ -244,7 +274,6 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
     }
 
     char buf[BUFFER_SIZE];
-    int bracket_level = 0;
     int version = -1;
     int c;
     int sx=80, sy=25;
@@ -258,7 +287,6 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
     // Read the header.
     while (1)
     {
-expect_field:
         switch (c = getc(f))
         {
         case EOF:
@@ -269,29 +297,7 @@ expect_field:
             eat_string(f, buf);
             if (!eat_colon(f))
                 FAIL("Not an asciicast: no colon after field name.\n");
-            if (bracket_level)
-            {
-skip_field:
-                EAT();
-                if (c==EOF)
-                    FAIL("Not an asciicast: end of file within header.\n");
-                else if (c=='"')
-                    eat_string(f, buf);
-                else if (c>='0' && c<='9')
-                    ungetc(c, f), eat_float(f);
-                else if (c=='{')
-                {
-                    bracket_level++;
-                    goto expect_field;
-                }
-                else if (c=='n' && (c=getc(f))=='u'
-                                && (c=getc(f))=='l'
-                                && (c=getc(f))=='l')
-                {}
-                else
-                    FAIL("Not an asciicast: junk within header.\n");
-            }
-            else if (!strcmp(buf, "version"))
+            if (!strcmp(buf, "version"))
             {
                 int64_t v = eat_int(f);
                 if (v == 1 || v == 2)
@@ -315,33 +321,38 @@ skip_field:
                     FAIL("Not an asciicast: v1 stdout not an array.\n");
                 goto body;
             }
-            else
-                goto skip_field;
-
-            EAT();
-            if (c == '}')
+            else // unknown, skip
             {
-                bracket_level--;
                 EAT();
+                if (c==EOF)
+                    FAIL("Not an asciicast: end of file within header.\n");
+                else if (c=='"')
+                    eat_string(f, buf);
+                else if (c>='0' && c<='9')
+                    ungetc(c, f), eat_float(f);
+                else if (c=='-')
+                    eat_float(f);
+                else if (c=='{' || c=='[')
+                {
+                    if (!eat_nested(f, buf))
+                        FAIL("Not an asciicast: end of file within header.\n");
+                }
+                else if (!(c=='n' && eat_word(f, "ull"))
+                      && !(c=='t' && eat_word(f, "rue"))
+                      && !(c=='f' && eat_word(f, "alse")))
+                    FAIL("Not an asciicast: junk within header.\n");
             }
+
+            EAT();
             if (c == '}')
-            {
                 ungetc(c, f);
-                goto expect_field;
-            }
-            if (c == '[' && bracket_level == -1)
-            {
-                ungetc(c, f);
-                goto body;
-            }
-            if (c != ',')
+            else if (c != ',')
                 FAIL("Not an asciicast: junk after a JSON field.\n");
             break;
         case '}':
-            if (version == 2 && !bracket_level)
+            if (version == 2)
                 goto body;
-            bracket_level--;
-            break;
+            FAIL("Not an asciicast: no events.\n");
         default:
             FAIL("Not an asciicast: bad header.\n");
         }
-- 
2.43.0


From 6534e58820604a90bd2ec11da47a29218a443a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 39/78] fix: asciicast: no bogus delay or byte at the end of a
 truncated file

---
 libtty/asciicast.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 518e250..93b7ba7 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -169,6 +169,8 @@ static char* eat_string(NIH_FILE *f, char *buf)
             OUT(c);
         else switch (c=getc(f))
         {
+        case EOF:
+            goto end;
         case 'b':
             OUT('\b'); break;
         case 'f':
@@ -384,16 +386,16 @@ body:
             delay -= old_delay;
             old_delay += delay;
         }
+        EAT();
+        if (c != ',')
+            FAIL("Malformed asciicast: no comma after duration.\n");
+
         tv.tv_sec =  delay/1000000;
         tv.tv_usec = delay%1000000;
         if (tv.tv_usec < 0)
             tv.tv_usec += 1000000, tv.tv_sec--;
         synch_wait(&tv, arg);
 
-        EAT();
-        if (c != ',')
-            FAIL("Malformed asciicast: no comma after duration.\n");
-
         bool output = true;
         if (version == 2)
         {
-- 
2.43.0


From 9394ea1a426b81d8e697a2b6db2cdb7b4b2d5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 40/78] fix: asciicast: play recordings that were appended to

---
 libtty/asciicast.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 93b7ba7..671045a 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -282,10 +282,13 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
     struct timeval tv;
     tv.tv_sec = tv.tv_usec = 0;
 
+    bool appended = false;
+
     EAT();
     if (c != '{')
         FAIL("Not an asciicast: doesn't start with a JSON object.\n");
 
+header:
     // Read the header.
     while (1)
     {
@@ -362,13 +365,26 @@ void do_play_asciicast(int fd, const char *obuf, int olen,
     /* not reached */
 
 body:
-    synch_init_wait(&tv, arg);
+    if (!appended)
+        synch_init_wait(&tv, arg);
     synch_print(buf, sprintf(buf, "\e%%G\e[8;%d;%dt", sy, sx), arg);
     uint64_t old_delay = 0;
 
     while (1)
     {
         EAT(|| c==',');
+        if (c == ']' && version == 1) // end of events
+        {
+            EAT();
+            if (c == '}')
+                EAT();
+        }
+        if (c == '{') // another recording appended
+        {
+            appended = true;
+            version = -1;
+            goto header;
+        }
         if (c == EOF || c == '}' || c == ']')
             return;
         if (c != '[')
-- 
2.43.0


From 30d4771f9c74834ac15eae8ebe70f2a91dae9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 41/78] fix: dosrecorder: read note headers, reject notes that
 don't fit the screen

---
 libtty/dosrecorder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..c7cdf5d 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -171,8 +171,10 @@ void play_dosrecorder(FILE *f,
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
                 gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
             if (nh.titlelen>80)
-- 
2.43.0


From eb69f352fad959c554ec60122478210ee3dc564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 42/78] fix: dosrecorder: don't show parts of a truncated frame
 as if it were complete

---
 libtty/dosrecorder.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index c7cdf5d..f5ce6e0 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -165,7 +165,9 @@ void play_dosrecorder(FILE *f,
         {
             if (chs[i].pos>=25*80 || chs[i].len+chs[i].pos>25*80)
                 goto end;       // corrupted file
-            gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar));
+            if (gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar))
+                   !=(int)(chs[i].len*sizeof(attrchar)))
+                goto end;
         }
         memcpy(&screens[fh.dscr], &scr, sizeof(screen));
 
@@ -176,11 +178,14 @@ void play_dosrecorder(FILE *f,
             if (nh.x+nh.w>80 || nh.y+nh.h>25)
                 goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
-                gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
+                if (gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar))
+                       !=(int)(nh.w*sizeof(attrchar)))
+                    goto end;
             if (nh.titlelen>80)
                 goto end;
             *bp++='\e', *bp++=']', *bp++='0', *bp++=';';
-            gzread(g, bp, nh.titlelen);
+            if (gzread(g, bp, nh.titlelen)!=nh.titlelen)
+                goto end;
             bp+=nh.titlelen;
             *bp++=7;
         }
-- 
2.43.0


From 44a30eb539ebddea7eaa16593f81bf39745e31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 43/78] fix: dosrecorder: NULs are blanks but still take a cell

---
 libtty/dosrecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index f5ce6e0..808a1b7 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -49,7 +49,7 @@ static inline void wrchar(attrchar *ch, char **b)
 {
     // Unicode is 32-bit, charset_cp437[] only 16-bit as all its entries fit
     // into the range.  Thus, hush the compiler warning.
-    TF8(bp, charset_cp437[(unsigned char)ch->c]);
+    TF8(bp, ch->c ? charset_cp437[(unsigned char)ch->c] : ' ');
 }
 #pragma GCC diagnostic pop
 #undef bp
-- 
2.43.0


From 754464945de33171284e52e92552c2de9b3fcad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 44/78] fix: dosrecorder: attribute 0xff was not set at the
 start of a frame

---
 libtty/dosrecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index 808a1b7..d235e71 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -75,7 +75,7 @@ static int scrdiff(screen *vt, screen *scr, char *buf)
     char *bp=buf;
     int x,y;
     int cx=-1,cy=-1;
-    int attr=-1;
+    int attr=256; // not a valid one
     int sp;
 
     for (y=0; y<25; y++)
-- 
2.43.0


From 44aa6a37bb4919e025a97367c4ecf065e9223883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 45/78] fix: bzip2: read all of concatenated streams, don't
 leak the file

---
 libstream/compress.c | 70 +++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..80a781c 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -50,40 +50,64 @@ VISIBILITY_DISABLE
 static void read_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
-    int     bzerror;
+    char    unused[BZ_MAX_UNUSED];
+    void*   unusedp;
+    int     nUnused=0, first=1;
+    int     bzerror, dummy;
 
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
-    if (bzerror != BZ_OK)
+    if (!(file = fdopen(f,"rb")))
     {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
+        close(f);
         close(fd);
         return;
     }
 
-    bzerror = BZ_OK;
-    while (bzerror == BZ_OK)
+    // there may be multiple streams, concatenated
+    do
     {
-        nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
-        if (write(fd, buf, nBuf)!=nBuf)
+        b = BZ2_bzReadOpen(&bzerror, file, 0, 0, unused, nUnused);
+        if (bzerror != BZ_OK)
         {
-            BZ2_bzReadClose(&bzerror, b);
-            close(fd);
-            return;
+            BZ2_bzReadClose(&dummy, b);
+            // error
+            ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
+            break;
         }
-    }
-    if (bzerror != BZ_STREAM_END)
-    {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG("\033[0m");
-        ERRORMSG(_("bzip2: Error during decompression.\n"));
-    }
-    else
-        BZ2_bzReadClose(&bzerror, b);
+
+        while (bzerror == BZ_OK)
+        {
+            nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
+            if (nBuf > 0 && write(fd, buf, nBuf)!=nBuf)
+            {
+                BZ2_bzReadClose(&dummy, b);
+                goto end;
+            }
+        }
+        if (bzerror == BZ_STREAM_END)
+        {
+            BZ2_bzReadGetUnused(&dummy, b, &unusedp, &nUnused);
+            memcpy(unused, unusedp, nUnused);
+        }
+        BZ2_bzReadClose(&dummy, b);
+        if (bzerror == BZ_DATA_ERROR_MAGIC && !first)
+            break; // garbage after the end is not an error
+        if (bzerror != BZ_STREAM_END)
+        {
+            // error
+            ERRORMSG("\033[0m");
+            ERRORMSG(_("bzip2: Error during decompression.\n"));
+            break;
+        }
+        first = 0;
+        if (!nUnused && (nBuf = getc(file)) != EOF)
+            ungetc(nBuf, file);
+    } while (nUnused || !(feof(file) || ferror(file)));
+
+end:
+    fclose(file);
     close(fd);
 }
 
-- 
2.43.0


From 613d6a644800027fdf2d034d027f0a5187477c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 46/78] fix: bzip2: leaks after writing

---
 libstream/compress.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 80a781c..052a955 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -114,32 +114,41 @@ end:
 static void write_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    if (!(file = fdopen(f,"wb")))
+    {
+        close(f);
+        close(fd);
+        return;
+    }
+
+    b = BZ2_bzWriteOpen(&bzerror, file, 9, 0, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzWriteClose(&bzerror, b, 0,0,0);
         // error
         // the writer will get smitten with sigpipe
+        fclose(file);
         close(fd);
         return;
     }
 
     bzerror = BZ_OK;
-    while ((nBuf=read(fd, buf, BUFFER_SIZE))>0)
-    {
+    while (bzerror==BZ_OK && (nBuf=read(fd, buf, BUFFER_SIZE))>0)
         BZ2_bzWrite(&bzerror, b, buf, nBuf);
-        if (bzerror!=BZ_OK)
-        {
-            BZ2_bzWriteClose(&bzerror, b, 0,0,0);
-            close(fd);
-            return;
-        }
+    if (bzerror==BZ_OK)
+        BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    if (bzerror!=BZ_OK)
+    {
+        // libbz2 refuses to free anything after a write error
+        clearerr(file);
+        BZ2_bzWriteClose(&bzerror, b, 1,0,0);
     }
-    BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    fclose(file);
     close(fd);
 }
 #endif
-- 
2.43.0


From 0f4e868bf696c1787be46ad27bfd25c323f8b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 47/78] fix: xz, zstd: crash on read errors

---
 libstream/compress.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 052a955..77bace0 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -224,9 +224,14 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
-    while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+    ssize_t s;
+    while (xz.avail_in || (s = read(f, inbuf, BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+        {
+            xz.next_in  = inbuf;
+            xz.avail_in = s;
+        }
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -267,9 +272,14 @@ static void write_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
-    while (xz.avail_in
-           || (xz.avail_in = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+    ssize_t s;
+    while (xz.avail_in || (s = read(fd, inbuf, BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+        {
+            xz.next_in  = inbuf;
+            xz.avail_in = s;
+        }
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -320,7 +330,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
@@ -363,7 +373,7 @@ static void write_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initCStream(stream, 3)))
         goto zstd_w_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(fd, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From 91edebe5a8227a3d3b305cd7d8cf4ef2e6ed7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 48/78] fix: zstd: data left in the library's buffers was lost

---
 libstream/compress.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 77bace0..243f640 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -335,7 +335,7 @@ static void read_zstd(int f, int fd, const char *arg)
     {
         zin.size = s;
         zin.pos = 0;
-        while (zin.pos < zin.size)
+        do
         {
             zout.pos = 0;
             size_t w = ZSTD_decompressStream(stream, &zout, &zin);
@@ -343,7 +343,7 @@ static void read_zstd(int f, int fd, const char *arg)
                 goto zstd_r_error;
             if (write(fd, zout.dst, zout.pos) != (ssize_t)zout.pos)
                 goto zstd_r_error;
-        }
+        } while (zin.pos < zin.size || zout.pos == zout.size);
     }
 
 zstd_r_error:
@@ -389,10 +389,15 @@ static void write_zstd(int f, int fd, const char *arg)
         }
     }
 
-    zout.pos = 0;
-    ZSTD_endStream(stream, &zout);
-    // no way to handle an error here
-    write(f, zout.dst, zout.pos);
+    size_t left;
+    do
+    {
+        zout.pos = 0;
+        left = ZSTD_endStream(stream, &zout);
+        // no way to handle an error here
+        if (write(f, zout.dst, zout.pos) != (ssize_t)zout.pos)
+            goto zstd_w_error;
+    } while (left && !ZSTD_isError(left));
 
 zstd_w_error:
     ZSTD_freeCStream(stream);
-- 
2.43.0


From 6373e21de85ebe598895dd1f6056c7c8ba6ec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 49/78] fix: streams: closing a stream early killed the process
 with SIGPIPE

---
 libstream/stream.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..0cba6d1 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <signal.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -65,6 +66,15 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
+#ifndef IS_WIN32
+    // The other side may close the pipe anytime.  We get EPIPE, and mustn't
+    // kill the whole program.
+    sigset_t ss;
+    sigemptyset(&ss);
+    sigaddset(&ss, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &ss, 0);
+#endif
+
     func(fdin, fdout, arg);
     mutex_lock(nsm);
     if (!--nstreams)
-- 
2.43.0


From dba18ce882029efe3ccb3c87c1936b977a36f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 50/78] fix: open_stream: always set the error message, allow
 no url or error

---
 libstream/stream.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 0cba6d1..cc66d45 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,6 +1,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <signal.h>
+#include <errno.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -109,8 +110,10 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     struct filterdata *fdata;
     thread_t th;
 
+    *error="Couldn't create a pipe";
     if (pipe(p))
         goto failpipe;
+    *error="Out of memory";
     if (!(fdata=malloc(sizeof(struct filterdata))))
         goto failfdata;
     fdata->fdin=fd;
@@ -152,14 +155,18 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     compress_info *ci;
     const char *dummy;
 
+    if (!error)
+        error=&dummy;
     if (fd==-1)
     {
+        *error="No file name given";
         if (!url)
             return -1;
-        if (!error)
-            error=&dummy;
         if (!strcmp(url, "-"))
-            fd=dup(wr? 1 : 0);
+        {
+            if ((fd=dup(wr? 1 : 0))==-1)
+                *error=strerror(errno);
+        }
         else if (match_prefix(url, "file://"))
             fd=open_file(url+7, mode, error);
         else if (match_prefix(url, "tcp://"))
@@ -178,7 +185,7 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     if (fd==-1)
         return -1;
 
-    ci=comp_from_ext(url, wr? compressors : decompressors);
+    ci=url? comp_from_ext(url, wr? compressors : decompressors) : 0;
     if (!ci)
         return fd;
     return filter(ci->comp, fd, wr, 0, error);
-- 
2.43.0


From 17bba4a9d18e8eddec03e40bd74212a822bd9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 51/78] fix: curl: the url may be freed by the caller while
 it's being fetched

---
 libstream/url_curl.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libstream/url_curl.c b/libstream/url_curl.c
index 54a6010..222acca 100644
--- a/libstream/url_curl.c
+++ b/libstream/url_curl.c
@@ -2,6 +2,8 @@
 #ifdef HAVE_CURL_CURL_H
 
 #include <unistd.h>
+#include <stdlib.h>
+#include <string.h>
 #include <curl/curl.h>
 #include "export.h"
 #include "stream.h"
@@ -19,7 +21,7 @@ static void curl_r(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "w");
     if (!f)
-        return close(out), (void)0;
+        return free((char*)arg), close(out), (void)0;
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -31,6 +33,7 @@ static void curl_r(int in, int out, const char *arg)
         fprintf(f, "CURL failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
     fclose(f);
+    free((char*)arg);
 }
 
 static void curl_w(int in, int out, const char *arg)
@@ -39,7 +42,7 @@ static void curl_w(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "r");
     if (!f)
-        return close(out), (void)0;
+        return free((char*)arg), close(out), (void)0;
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -52,6 +55,7 @@ static void curl_w(int in, int out, const char *arg)
         fprintf(f, "curl_easy_perform() failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
     fclose(f);
+    free((char*)arg);
 }
 
 int open_curl(const char* url, int mode, const char **error)
@@ -68,9 +72,15 @@ int open_curl(const char* url, int mode, const char **error)
         return -1;
     }
 
+    // the thread outlives the caller's copy
+    char *arg = strdup(url);
+    int fd;
     if (mode&SM_WRITE)
-        return filter(curl_w, -1, 1, url, error);
+        fd=filter(curl_w, -1, 1, arg, error);
     else
-        return filter(curl_r, -1, 0, url, error);
+        fd=filter(curl_r, -1, 0, arg, error);
+    if (fd==-1)
+        free(arg);
+    return fd;
 }
 #endif
-- 
2.43.0


From 92ab426fe0482401e9adc1ed379921ae030e0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 52/78] fix: tcp: failed connections leaked the socket

---
 libstream/url_tcp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..0121b3d 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -96,7 +96,12 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                int err=errno;
+                close(sock);
+                errno=err;
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From 86fbca6325f172817757dac9eef0b684f6b755a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 53/78] fix: tcp: negative ports overflowed a buffer

---
 libstream/url_tcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 0121b3d..ae998ae 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -56,7 +56,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         *cp=0;
         cp++;
         i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From 59356715f5c79eeddffe5150bb7921ea052847d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 54/78] fix: tcp: the last part of [IPv6] without a port was
 taken for one

---
 libstream/url_tcp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index ae998ae..9c7264b 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -48,9 +48,11 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
             else
                 return _("Cruft after the [host name]."); // IPv6-style host name
         }
+        else if (port<=0)
+            return _("No port number given");
     }
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    else if ((cp=strrchr(host, ':')))
     {
     getrport:
         *cp=0;
-- 
2.43.0


From 5b59b086e4d4c43805784a33f3f20475a0ce2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 55/78] fix: termcast: leaked the stream from telnet, closed
 others' descriptors

---
 libstream/url_termcast.c | 32 ++++++++++++++++++++++++++++----
 sys/win32/net.h          |  1 +
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..4dd7a22 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,8 +4,13 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <sys/types.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
+#include "compat.h"
 #include "gettext.h"
 VISIBILITY_ENABLE
 #include "ttyrec.h"
@@ -123,7 +128,7 @@ static void termcast(int in, int out, const char *arg)
 found:
     free(rest);
     if (write(sock, &ses, 1) != 1)
-        return;
+        goto end;
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
@@ -131,14 +136,16 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
+    shutdown(sock, SHUT_RDWR); // tell the telnet thread, it has its own copy
     close(sock);
+    close(in);
     close(out);
 }
 
 
 int open_termcast(const char* url, int mode, const char **error)
 {
-    int fd, fdmid;
+    int fd, fdmid, sock;
     const char *rest;
 
     if (mode&SM_WRITE)
@@ -155,10 +162,27 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
+    // the telnet filter closes its copy on its own
+    if ((sock=dup(fd))==-1)
+    {
+        *error=strerror(errno);
+        close(fd);
+        return -1;
+    }
     if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+    {
+        close(sock);
         return -1;
+    }
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
+    fa->sock=sock;
     fa->rest=strdup(rest);
-    return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    if ((fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error))==-1)
+    {
+        shutdown(sock, SHUT_RDWR);
+        close(sock);
+        free(fa->rest);
+        free(fa);
+    }
+    return fd;
 }
diff --git a/sys/win32/net.h b/sys/win32/net.h
index ad8971f..3ee2e7d 100644
--- a/sys/win32/net.h
+++ b/sys/win32/net.h
@@ -5,6 +5,7 @@
 
 #define SHUT_RD SD_RECEIVE
 #define SHUT_WR SD_SEND
+#define SHUT_RDWR SD_BOTH
 
 #ifndef HAVE_WIN32_GETADDRINFO
 int getaddrinfo(const char *node, const char *service,
-- 
2.43.0


From 03ad0ef5ce88098cc9c3dab8d91d109ed5f3dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 56/78] fix: termcast: NULs from the server stopped looking for
 the session

---
 libstream/url_termcast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 4dd7a22..42db895 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -121,7 +121,7 @@ static void termcast(int in, int out, const char *arg)
         cp=rp;
         do if ((ses=match(cp, rest)))
             goto found;
-          while ((cp=strchr((rp=cp)+1, '\r')));
+          while ((rp=cp, cp=memchr(cp+1, '\r', buf+inbuf-cp-1)));
 
         // TODO: press space every some time
     }
-- 
2.43.0


From 2196fae247a306519d1a4e626380674392663a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 57/78] fix: termplay: rewinding didn't

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index 143c6fc..8b65471 100644
--- a/play/player.c
+++ b/play/player.c
@@ -149,6 +149,8 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
+    fr=ttyrec_seek(tr, &tc, &term);
+    vtvt_attach(term, stdout, 1);
 }
 
 static void adv_frame(int dummy)
-- 
2.43.0


From 1192fede8328485b2d1fc9d4b1cc87dc48908607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 58/78] fix: termplay: seeking while paused could go far past
 the end

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index 8b65471..b18fe17 100644
--- a/play/player.c
+++ b/play/player.c
@@ -107,6 +107,8 @@ static void adjust_pos(int diff)
         tc.tv_sec=tc.tv_usec=0;
     fr=ttyrec_seek(tr, &tc, &term);
     vtvt_attach(term, stdout, 1);
+    if (loaded && !ttyrec_next_frame(tr, fr))
+        tc=fr->t;               // no seeking past the end
     if (old_state)
         replay_start();
 }
-- 
2.43.0


From fa84172571c1c586d3d4a42bdd785d1d71bc039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 59/78] fix: termrec: signals were sent to a wrong process

---
 rec/pty.c     | 4 ++--
 rec/pty.h     | 2 +-
 rec/termrec.c | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/rec/pty.c b/rec/pty.c
index c6507a1..861adc0 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -197,7 +197,7 @@ void pty_makeraw(struct termios *ta)
     ta->c_cc[VTIME]=0;
 }
 
-int run(const char *command, int sx, int sy)
+int run(const char *command, int sx, int sy, int *pid)
 {
     int fd;
 
@@ -208,7 +208,7 @@ int run(const char *command, int sx, int sy)
     ws.ws_xpixel=0;
     ws.ws_ypixel=0;
 
-    switch (forkpty(&fd,0,0,(sx&&sy)?&ws:0))
+    switch (*pid=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
         return -1;
diff --git a/rec/pty.h b/rec/pty.h
index bb64830..1bf7ca0 100644
--- a/rec/pty.h
+++ b/rec/pty.h
@@ -18,5 +18,5 @@
 extern int forkpty(int *amaster,char *dummy,struct termios *termp, struct winsize *wp);
 #endif
 
-extern int run(const char *command, int sx, int sy);
+extern int run(const char *command, int sx, int sy, int *pid);
 extern void pty_makeraw(struct termios *ta);
diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..741557b 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -31,6 +31,7 @@ static volatile int need_resize;
 static int need_utf;
 static struct termios ta;
 static int ptym;
+static int pid;
 static int sx, sy;
 static int record_f;
 static recorder rec;
@@ -42,7 +43,7 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    kill(pid, s);
 }
 
 static void tty_restore(void);
@@ -152,7 +153,7 @@ int main(int argc, char **argv)
     ptym=-1;
     sx=sy=0;
     tty_get_size();
-    if ((ptym=run(command, sx, sy))==-1)
+    if ((ptym=run(command, sx, sy, &pid))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
         return 1;
-- 
2.43.0


From f1df0a2f2a34f64d11d6709df9a514d6ea0eeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 60/78] fix: streams: signals meant for the program could be
 stolen by our threads

---
 libstream/stream.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index cc66d45..f9ec3db 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -69,10 +69,9 @@ static void filterthr(struct filterdata *args)
 
 #ifndef IS_WIN32
     // The other side may close the pipe anytime.  We get EPIPE, and mustn't
-    // kill the whole program.
+    // kill the whole program.  Other signals are for the program's own threads.
     sigset_t ss;
-    sigemptyset(&ss);
-    sigaddset(&ss, SIGPIPE);
+    sigfillset(&ss);
     pthread_sigmask(SIG_BLOCK, &ss, 0);
 #endif
 
-- 
2.43.0


From eee81927655bb498a560d6513e671ed2195b23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 61/78] fix: termrec: a size change could be left unnoticed
 until the next output

---
 rec/termrec.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 741557b..8f239ab 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -136,6 +136,7 @@ int main(int argc, char **argv)
     char buf[BS];
     int r;
     struct timeval tv;
+    sigset_t winch, oldmask;
 
     setlocale(LC_CTYPE, "");
     get_rec_parms(argc, argv);
@@ -166,6 +167,9 @@ int main(int argc, char **argv)
     record_size();
 
     setsignals();
+    sigemptyset(&winch);
+    sigaddset(&winch, SIGWINCH);
+    sigprocmask(SIG_BLOCK, &winch, &oldmask); // allowed only when waiting
     tty_raw();
 
     while (1)
@@ -173,7 +177,7 @@ int main(int argc, char **argv)
         FD_ZERO(&rfds);
         FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
-        r=select(ptym+1, &rfds, 0, 0, 0);
+        r=pselect(ptym+1, &rfds, 0, 0, 0, &oldmask);
 
         if (need_resize)
         {
-- 
2.43.0


From d3257225ffdf339940b698a950e1ce38ae7f85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 62/78] fix: termrec: a signal during a slow write ended the
 recording

---
 rec/termrec.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 8f239ab..5686e20 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -111,6 +111,24 @@ static void record_size(void)
     ttyrec_w_write(rec, &tv, buf, bp-buf);
 }
 
+static int write_all(int fd, const char *buf, int len)
+{
+    int r;
+
+    while (len>0)
+    {
+        if ((r=write(fd, buf, len))==-1)
+        {
+            if (errno==EINTR)
+                continue;
+            return -1;
+        }
+        buf+=r;
+        len-=r;
+    }
+    return 0;
+}
+
 static void tty_raw(void)
 {
     struct termios rta;
@@ -212,7 +230,7 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
-            if (write(1, buf, r) != r)
+            if (write_all(1, buf, r))
                 break;
         }
     }
-- 
2.43.0


From a392bd10c9bc0e2a11e746951d66db7b45f67130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 63/78] fix: termrec: deadlock on big inputs, lost output if
 the program ended meanwhile

---
 rec/termrec.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 5686e20..4360f31 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -1,6 +1,7 @@
 #include "config.h"
 #include <stdio.h>
 #include <unistd.h>
+#include <fcntl.h>
 #ifdef HAVE_SYS_SELECT_H
 # include <sys/select.h>
 #endif
@@ -150,9 +151,9 @@ static void tty_restore(void)
 
 int main(int argc, char **argv)
 {
-    fd_set rfds;
-    char buf[BS];
-    int r;
+    fd_set rfds, wfds;
+    char buf[BS], ibuf[BS];
+    int r, ipos=0, ilen=0;
     struct timeval tv;
     sigset_t winch, oldmask;
 
@@ -184,6 +185,7 @@ int main(int argc, char **argv)
     need_utf=!strcmp(nl_langinfo(CODESET), "UTF-8");
     record_size();
 
+    fcntl(ptym, F_SETFL, O_NONBLOCK);
     setsignals();
     sigemptyset(&winch);
     sigaddset(&winch, SIGWINCH);
@@ -192,10 +194,15 @@ int main(int argc, char **argv)
 
     while (1)
     {
+        // The program may refuse to read until someone takes its output.
         FD_ZERO(&rfds);
-        FD_SET(0, &rfds);
+        FD_ZERO(&wfds);
+        if (ilen)
+            FD_SET(ptym, &wfds);
+        else
+            FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
-        r=pselect(ptym+1, &rfds, 0, 0, 0, &oldmask);
+        r=pselect(ptym+1, &rfds, &wfds, 0, 0, &oldmask);
 
         if (need_resize)
         {
@@ -215,17 +222,11 @@ int main(int argc, char **argv)
             die("select()");
         }
 
-        if (FD_ISSET(0, &rfds))
-        {
-            r=read(0, buf, BS);
-            if (r<=0)
-                break;
-            if (write(ptym, buf, r) != r)
-                break;
-        }
         if (FD_ISSET(ptym, &rfds))
         {
             r=read(ptym, buf, BS);
+            if (r==-1 && (errno==EAGAIN || errno==EINTR))
+                continue;
             if (r<=0)
                 break;
             gettimeofday(&tv, 0);
@@ -233,6 +234,22 @@ int main(int argc, char **argv)
             if (write_all(1, buf, r))
                 break;
         }
+        if (FD_ISSET(0, &rfds))
+        {
+            r=read(0, ibuf, BS);
+            if (r<=0)
+                break;
+            ipos=0;
+            ilen=r;
+        }
+        else if (ilen && FD_ISSET(ptym, &wfds))
+        {
+            r=write(ptym, ibuf+ipos, ilen);
+            if (r>0)
+                ipos+=r, ilen-=r;
+            else if (errno!=EAGAIN && errno!=EINTR)
+                ilen=0; // the program is gone, there may be some output left
+        }
     }
 
     close(ptym);
-- 
2.43.0


From 67a7b1ab3bf790abd385e5a54fc7f86fdf48367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 64/78] fix: termrec: hang if the output is closed during a
 compressed recording

---
 rec/termrec.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 4360f31..3c74d84 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -47,14 +47,6 @@ static void sigpass(int s)
     kill(pid, s);
 }
 
-static void tty_restore(void);
-static void sigpipe(int s)
-{
-    tty_restore();
-    fprintf(stderr, "Broken pipe.  Disk full?\n");
-    exit(0);
-}
-
 static void setsignals(void)
 {
     struct sigaction act;
@@ -75,7 +67,7 @@ static void setsignals(void)
         die("sigaction SIGTERM");
     if (sigaction(SIGTSTP,&act,0))
         die("sigaction SIGTSTP");
-    act.sa_handler=sigpipe;
+    act.sa_handler=SIG_IGN;
     if (sigaction(SIGPIPE,&act,0))
         die("sigaction SIGPIPE");
 }
@@ -153,7 +145,7 @@ int main(int argc, char **argv)
 {
     fd_set rfds, wfds;
     char buf[BS], ibuf[BS];
-    int r, ipos=0, ilen=0;
+    int r, ipos=0, ilen=0, failed=0;
     struct timeval tv;
     sigset_t winch, oldmask;
 
@@ -230,9 +222,11 @@ int main(int argc, char **argv)
             if (r<=0)
                 break;
             gettimeofday(&tv, 0);
-            ttyrec_w_write(rec, &tv, buf, r);
-            if (write_all(1, buf, r))
+            if (!ttyrec_w_write(rec, &tv, buf, r) || write_all(1, buf, r))
+            {
+                failed=1;
                 break;
+            }
         }
         if (FD_ISSET(0, &rfds))
         {
@@ -255,6 +249,8 @@ int main(int argc, char **argv)
     close(ptym);
     int err=!ttyrec_w_close(rec);
     tty_restore();
+    if (failed || err)
+        fprintf(stderr, "Broken pipe.  Disk full?\n");
     wait(0);
     return err;
 }
-- 
2.43.0


From e2c44dfe9f8b1df9b25a9c4f1203a47c33ef3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 65/78] fix: termrec: the recorded program inherited the
 recording

---
 rec/termrec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rec/termrec.c b/rec/termrec.c
index 3c74d84..a4bf6b1 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -157,6 +157,7 @@ int main(int argc, char **argv)
         fprintf(stderr, "Can't open %s\n", record_name);
         return 1;
     }
+    fcntl(record_f, F_SETFD, FD_CLOEXEC);
     if (!command)
         command=getenv("SHELL");
     if (!command)
-- 
2.43.0


From e3ddd18d4e4dcca1a7b9d7e1ddd112f88ff932ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 66/78] fix: asciicast-v1: fields after stdout were shown as an
 error

---
 libtty/asciicast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 671045a..fa10eb9 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -376,7 +376,9 @@ body:
         if (c == ']' && version == 1) // end of events
         {
             EAT();
-            if (c == '}')
+            if (c == ',' && eat_nested(f, buf)) // more fields
+                EAT();
+            else if (c == '}')
                 EAT();
         }
         if (c == '{') // another recording appended
-- 
2.43.0


From 4c85f6133e5064806fa374fc6592f79f72578ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 67/78] fix: ttyrec_seek: use the given terminal while the
 first frame is being added

---
 libtty/timeline.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 6d28713..1c1ea91 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -158,13 +158,10 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
     if (vt)
     {
         tty_free(*vt);
-        if (tfs)
-            *vt=tty_copy(tfs->snapshot);
-        else
-        {
+        // the first frame may be still without a snapshot if it's just being added
+        if (!tfs)
             tfs=tr->tev_head;
-            *vt=tty_init(80, 25, 1);
-        }
+        *vt=tfs->snapshot? tty_copy(tfs->snapshot) : tty_init(80, 25, 1);
         if (!*vt)
             return 0;
         while (tfs!=tfv)
-- 
2.43.0


From 341b823b337077ea0386c82f6f06d028701f27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 68/78] fix: termplay: the clock was not slowed down when
 frames come late

A negative struct timeval has a positive tv_usec unless it's a whole number
of seconds, thus nearly all late frames went to select() which refused them.
---
 play/player.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index b18fe17..b78466e 100644
--- a/play/player.c
+++ b/play/player.c
@@ -40,7 +40,7 @@ static int player(void *arg)
             tadd(tt, t0);
             gettimeofday(&wall, 0);
             tsub(tt, wall);
-            if (tt.tv_sec>0 || tt.tv_usec>0)
+            if (tt.tv_sec>=0)   // tv_usec is never negative
                 select(0, 0, 0, 0, &tt);
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
-- 
2.43.0


From f67f8b1f708beb056b3cd7c98561d05ffd121f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 69/78] fix: streams: a thread not started yet could still
 steal signals

---
 libstream/stream.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index f9ec3db..389366a 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -67,14 +67,6 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
-#ifndef IS_WIN32
-    // The other side may close the pipe anytime.  We get EPIPE, and mustn't
-    // kill the whole program.  Other signals are for the program's own threads.
-    sigset_t ss;
-    sigfillset(&ss);
-    pthread_sigmask(SIG_BLOCK, &ss, 0);
-#endif
-
     func(fdin, fdout, arg);
     mutex_lock(nsm);
     if (!--nstreams)
@@ -108,6 +100,7 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     int p[2];
     struct filterdata *fdata;
     thread_t th;
+    int err;
 
     *error="Couldn't create a pipe";
     if (pipe(p))
@@ -129,7 +122,19 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     }
 
     mutex_lock(nsm);
-    if (thread_create_detached(&th, filterthr, fdata))
+#ifndef IS_WIN32
+    // The other side may close the pipe anytime.  We get EPIPE, and mustn't
+    // kill the whole program.  Other signals are for the program's own threads.
+    // Blocked here as the thread may take a while to start.
+    sigset_t ss, oldss;
+    sigfillset(&ss);
+    pthread_sigmask(SIG_SETMASK, &ss, &oldss);
+#endif
+    err=thread_create_detached(&th, filterthr, fdata);
+#ifndef IS_WIN32
+    pthread_sigmask(SIG_SETMASK, &oldss, 0);
+#endif
+    if (err)
         goto failthread;
     nstreams++;
     mutex_unlock(nsm);
-- 
2.43.0


From da19e483bc8e5ac4b7759c9427d411b3589c24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 70/78] fix: termrec: SIGWINCH ended a recording if the output
 is not a terminal

---
 rec/termrec.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index a4bf6b1..03a2f3b 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -196,6 +196,11 @@ int main(int argc, char **argv)
             FD_SET(0, &rfds);
         FD_SET(ptym, &rfds);
         r=pselect(ptym+1, &rfds, &wfds, 0, 0, &oldmask);
+        if (r==-1 && errno!=EINTR)
+        {
+            tty_restore();
+            die("select()");
+        }
 
         if (need_resize)
         {
@@ -204,16 +209,8 @@ int main(int argc, char **argv)
             record_size();
         }
 
-        switch (r)
-        {
-        case 0:
+        if (r<=0)
             continue;
-        case -1:
-            if (errno==EINTR)
-                continue;
-            tty_restore();
-            die("select()");
-        }
 
         if (FD_ISSET(ptym, &rfds))
         {
-- 
2.43.0


From 7fe8bd41c4df81e89d7783fc474a1655e1f7aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 71/78] fix: vtredir: characters that the locale drops silently
 are shown as '?'

---
 libtty/vtredir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 7fb7ca7..453d10e 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -107,7 +107,7 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
     setattr(vt, attr);
-    if (fprintf(DATA->f, "%lc", ch)<0)
+    if (fprintf(DATA->f, "%lc", ch)<=0)
     {
         clearerr(DATA->f); // required on BSD
         if (width==2)
-- 
2.43.0


From c159db84c752b02b129d8bcbb65807712e3c995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 72/78] fix: termtime: a negative length was printed wrong

---
 time/termtime.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/time/termtime.c b/time/termtime.c
index c6a3ced..832f2bd 100644
--- a/time/termtime.c
+++ b/time/termtime.c
@@ -12,6 +12,26 @@ static void delay(const struct timeval *tm, void *arg)
     tadd(tt, *tm);
 }
 
+// The clock may go back during a recording.
+static void print_length(const char *name)
+{
+    char sec[24];
+    const char *sign="";
+
+    if (tt.tv_sec<0)
+    {
+        sign="-";
+        tt.tv_sec=-tt.tv_sec;
+        if (tt.tv_usec)
+        {
+            tt.tv_sec--;
+            tt.tv_usec=1000000-tt.tv_usec;
+        }
+    }
+    snprintf(sec, sizeof(sec), "%s%ld", sign, (long)tt.tv_sec);
+    printf("%7s.%06ld\t%s\n", sec, (long)tt.tv_usec, name);
+}
+
 int main(int argc, char **argv)
 {
     int i;
@@ -24,7 +44,7 @@ int main(int argc, char **argv)
         tt.tv_sec=tt.tv_usec=0;
         if (ttyrec_r_play(-1, 0, argv[i], 0, delay, 0, 0))
         {
-            printf("%7ld.%06ld\t%s\n", (long)tt.tv_sec, (long)tt.tv_usec, argv[i]);
+            print_length(argv[i]);
             any=1;
         }
         else
-- 
2.43.0


From a9b9bbe9a99674c9b9b8e1741e1d7a470040cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 73/78] fix: tty_init: fail if there's no memory for the
 screen, instead of returning a terminal without one

---
 libtty/tty.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 26f8795..f24717f 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -109,8 +109,11 @@ export tty tty_init(int sx, int sy, int resizable)
     memset(vt, 0, sizeof(struct tty));
     vt->allow_resize=resizable;
     tty_reset(vt);
-    if (sx && sy)
-        tty_resize(vt, sx, sy);
+    if (sx && sy && !tty_resize(vt, sx, sy))
+    {
+        free(vt);
+        return 0;
+    }
     return vt;
 }
 
-- 
2.43.0


From 28c7c3d00841322dae0e301dbb23330011713fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 74/78] fix: ttyrec_init: fail cleanly when memory runs out

---
 libtty/timeline.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 1c1ea91..fe4e255 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -83,14 +83,29 @@ export ttyrec ttyrec_init(tty vt)
         return NULL;
     memset(tr, 0, sizeof(struct ttyrec));
     tr->tev_head = malloc(sizeof(struct ttyrec_frame));
+    if (!tr->tev_head)
+        goto drop_tr;
     memset(tr->tev_head, 0, sizeof(struct ttyrec_frame));
     tr->tev_tail=tr->tev_head;
     tr->nchunk=SNAPSHOT_CHUNK;
 
     tr->tev_vt = vt? vt : tty_init(80, 25, 1);
+    if (!tr->tev_vt)
+        goto drop_head;
     tr->tev_head->snapshot = tty_copy(tr->tev_vt);
+    if (!tr->tev_head->snapshot)
+        goto drop_vt;
 
     return tr;
+
+drop_vt:
+    if (!vt) // a terminal we've been given stays with the caller
+        tty_free(tr->tev_vt);
+drop_head:
+    free(tr->tev_head);
+drop_tr:
+    free(tr);
+    return NULL;
 }
 
 
-- 
2.43.0


From a5997be0ad7d14d863153525a990297c10c81fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 75/78] fix: vtredir: keep up with real terminals smaller than
 the emulated one

---
 libtty/vtredir.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 453d10e..2fc04e4 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -107,7 +107,9 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
     setattr(vt, attr);
-    if (fprintf(DATA->f, "%lc", ch)<=0)
+    if (x+width>SX) // only half of it fits
+        fputc(' ', DATA->f);
+    else if (fprintf(DATA->f, "%lc", ch)<=0)
     {
         clearerr(DATA->f); // required on BSD
         if (width==2)
@@ -184,6 +186,7 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     int c;
     // The real terminal may have a different size.
     int sx=vt->sx, sy=vt->sy;
+    int shown=CX<SX && CY<SY; // if not, the real cursor is elsewhere
 
     if (len<=0)
         return;
@@ -193,22 +196,25 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==sx*sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*sx+CX)
+    else if (shown && x==0 && y==0 && len==CY*sx+CX)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==sx*sy-CY*sx-CX)
+    else if (shown && x==CX && y==CY && len==sx*sy-CY*sx-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==sx)
+    else if (shown && x==0 && y==CY && len==sx)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX)
+    else if (shown && x==0 && y==CY && len==CX)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==sx-CX)
+    else if (shown && x==CX && y==CY && len==sx-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
-            vtvt_cursor(vt, x, y);
             c=(len>sx-x)? sx-x : len;
-            fprintf(DATA->f, "\e[%dX", c);
+            if (x<SX && y<SY)
+            {
+                vtvt_cursor(vt, x, y);
+                fprintf(DATA->f, "\e[%dX", c);
+            }
             len-=c;
             x=0;
             y++;
@@ -218,6 +224,11 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    if (vt->s2>SY) // lines that didn't fit come into view
+    {
+        vtvt_dump(vt);
+        return;
+    }
     setattr(vt, vt->attr); // vacated lines use the current attribute
     if (vt->s1+1>=vt->s2)   // ESC[r can't set a single line
         fprintf(DATA->f, "\e[%d;1f\e[2K", vt->s1+1);
@@ -271,6 +282,7 @@ static void vtvt_free(tty vt)
 export void vtvt_resize(tty vt, int sx, int sy)
 {
     SX=sx; SY=sy;
+    CX=CY=-1; // it may have been moved
 }
 
 export void vtvt_attach(tty vt, FILE *f, int dump)
-- 
2.43.0


From 7b54bda4e07dde2ba0647070372dfcb6dae82354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 76/78] fix: open_termcast: check for memory running out

A failed malloc or strdup crashed either the caller or the stream's thread.
---
 libstream/url_termcast.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 42db895..6b59306 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -175,8 +175,16 @@ int open_termcast(const char* url, int mode, const char **error)
         return -1;
     }
     struct filterarg *fa = malloc(sizeof(struct filterarg));
+    if (!fa || !(fa->rest=strdup(rest)))
+    {
+        *error=_("Out of memory");
+        free(fa);
+        shutdown(sock, SHUT_RDWR);
+        close(sock);
+        close(fdmid);
+        return -1;
+    }
     fa->sock=sock;
-    fa->rest=strdup(rest);
     if ((fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error))==-1)
     {
         shutdown(sock, SHUT_RDWR);
-- 
2.43.0


From a1c99295c82e5cef9ad2179e1be8f3b2eddfed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:06 +0000
Subject: [PATCH 77/78] fix: tty_printf: don't leak when there is nothing to
 print

vasprintf allocates even an empty string.
---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index f24717f..cff1a77 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1301,7 +1301,9 @@ export void tty_printf(tty vt, const char *fmt, ...)
     va_start(ap, fmt);
     len=vsnprintf(buf, BUFFER_SIZE, fmt, ap);
     va_end(ap);
-    if (len<=0)
+    if (!len)
+        return;
+    if (len<0)
     {
         va_start(ap, fmt);
         len=vasprintf(&bigstr, fmt, ap);
-- 
2.43.0


From a3596879b915b44281ce5d8dc020f1c01915dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 78/78] fix: termrec: keep the terminal's line speed and
 control modes in raw mode

---
 rec/pty.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rec/pty.c b/rec/pty.c
index 861adc0..72edc46 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -185,7 +185,6 @@ ok:
 
 void pty_makeraw(struct termios *ta)
 {
-    memset(ta, 0, sizeof(*ta));
     ta->c_iflag &= ~(IGNBRK|BRKINT|PARMRK|ISTRIP
                     |INLCR|IGNCR|ICRNL|IXON);
     ta->c_oflag &= ~OPOST;
-- 
2.43.0

