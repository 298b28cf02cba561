From 9d32071ff6aeab1c513558b6b58783879c3ca83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 01/39] fix: read 64-bit integer constants back from symbol
 files in full

---
 src/compiler/OPT.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPT.Mod b/src/compiler/OPT.Mod
index 758bb50..b23103a 100644
--- a/src/compiler/OPT.Mod
+++ b/src/compiler/OPT.Mod
@@ -768,7 +768,7 @@ BEGIN
   | Byte,
     Char,
     Bool:   OPM.SymRCh(ch); conval^.intval := ORD(ch)
-  | Int:    conval^.intval := OPM.SymRInt()
+  | Int:    conval^.intval := OPM.SymRInt64()
   | Set:    OPM.SymRSet(conval^.setval)
   | Real:   OPM.SymRReal(rval); conval^.realval := rval;
             conval^.intval := OPM.ConstNotAlloc
-- 
2.43.0


From 582f1005d436b3185b5bfd168f0f89cd88e8b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 02/39] fix: trap negative array indices (compare the index
 unsigned, as __XF does)

---
 src/runtime/SYSTEM.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index 68e2e33..e1c0947 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -117,7 +117,7 @@ extern void Modules_AssertFail(INT32 x);
 // Index checking
 
 static inline INT64 __XF(UINT64 i, UINT64 ub) {if (i >= ub) {__HALT(-2);} return i;}
-#define __X(i, ub) (((i)<(ub))?i:(__HALT(-2),0))
+#define __X(i, ub) (((UINT64)(i)<(UINT64)(ub))?(i):(__HALT(-2),0))
 
 
 // Range checking, and checked SHORT and CHR functions
-- 
2.43.0


From 1039377502c2c5f61cf86d2ca5a1f1221f38ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 03/39] fix: trap CHR of a negative number when range checks
 are on

---
 src/runtime/SYSTEM.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index e1c0947..890d96a 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -123,7 +123,7 @@ static inline INT64 __XF(UINT64 i, UINT64 ub) {if (i >= ub) {__HALT(-2);} return
 // Range checking, and checked SHORT and CHR functions
 
 static inline INT64 __RF(UINT64 i, UINT64 ub) {if (i >= ub) {__HALT(-8);} return i;}
-#define __R(i, ub)      (((i)<(ub))?i:(__HALT(-8),0))
+#define __R(i, ub)      (((UINT64)(i)<(UINT64)(ub))?(i):(__HALT(-8),0))
 #define __SHORT(x, ub)  ((int)((UINT64)(x)+(ub)<(ub)+(ub)?(x):(__HALT(-8),0)))
 #define __SHORTF(x, ub) ((int)(__RF((x)+(ub),(ub)+(ub))-(ub)))
 #define __CHR(x)        ((CHAR)__R(x, 256))
-- 
2.43.0


From 0ddd682c9fe7f2d52092e7538fa7f1041323bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 04/39] fix: do not truncate ABS of a 64 bit function result to
 32 bits

---
 src/runtime/SYSTEM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index 890d96a..edcf79b 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -205,8 +205,8 @@ extern INT64 SYSTEM_ENTIER (double x);
 
 #define __ABS(x) (((x)<0)?-(x):(x))
 
-static inline INT32 SYSTEM_ABS64(INT64 i) {return i >= 0 ? i : -i;}
-static inline INT64 SYSTEM_ABS32(INT32 i) {return i >= 0 ? i : -i;}
+static inline INT64 SYSTEM_ABS64(INT64 i) {return i >= 0 ? i : -i;}
+static inline INT32 SYSTEM_ABS32(INT32 i) {return i >= 0 ? i : -i;}
 #define __ABSF(x) ((sizeof(x) <= 4) ? SYSTEM_ABS32(x) : SYSTEM_ABS64(x))
 
 static inline double SYSTEM_ABSD(double i) {return i >= 0.0 ? i : -i;}
-- 
2.43.0


From d2a367b31bd3ac79b78bcc66af89998f8312a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 05/39] fix: x IN s is FALSE for every x outside the set's
 range, also beyond 32 bits

---
 src/runtime/SYSTEM.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index edcf79b..e3e6a7b 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -215,7 +215,7 @@ static inline double SYSTEM_ABSD(double i) {return i >= 0.0 ? i : -i;}
 #define __CAP(ch)       ((CHAR)((ch)&0x5f))
 #define __ODD(x)        ((x)&1)
 
-#define __IN(x, s, size)     (((unsigned int)(x))<size && ((((UINT##size)(s))>>(x))&1))
+#define __IN(x, s, size)     (((UINT64)(x))<size && ((((UINT##size)(s))>>(x))&1))
 // todo tested versions of SETOF and SETRNG: check that x, l and h fit size
 #define __SETOF(x, size)     ((UINT##size)1<<(x))
 #define __SETRNG(l, h, size) ((~(UINT##size)0<<(l))&~(UINT##size)0>>(size-1-(h)))
-- 
2.43.0


From 531964cdb3b40b90e00e0e6423d4b4b0aac78a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 06/39] fix: DIV and MOD of operands near the ends of the 64
 bit range

---
 src/runtime/SYSTEM.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/SYSTEM.c b/src/runtime/SYSTEM.c
index 2952bb6..b888d97 100644
--- a/src/runtime/SYSTEM.c
+++ b/src/runtime/SYSTEM.c
@@ -29,10 +29,10 @@ INT64 SYSTEM_DIV(INT64 x, INT64 y)
   if (x == 0) return 0;
   if (x >= 0)
     if (y >= 0) {return x/y;}
-    else        {return -((x-y-1)/(-y));}
+    else        {return (x-1)/y - 1;}
   else
-    if (y >= 0) {return -((y-x-1)/y);}
-    else        {return (-x)/(-y);}
+    if (y >= 0) {return (x+1)/y - 1;}
+    else        {return (y == -1) ? -x : x/y;}
 }
 
 INT64 SYSTEM_MOD(INT64 x, INT64 y)
@@ -43,7 +43,7 @@ INT64 SYSTEM_MOD(INT64 x, INT64 y)
     else        {return (y+1) + ((x-1) % (-y));}
   else
     if (y >= 0) {return (y-1) - ((-x-1) % y);}
-    else        {return -((-x) % (-y));}
+    else        {return (y == -1) ? 0 : x % y;}
 }
 
 INT64 SYSTEM_ENTIER(double x)
-- 
2.43.0


From a33a56bf6a6bb9d1801424c3b2971e2407273a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 07/39] fix: pointer offsets of heap allocated pointer arrays
 start at the data, not one word in

---
 src/runtime/SYSTEM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/SYSTEM.c b/src/runtime/SYSTEM.c
index b888d97..add035a 100644
--- a/src/runtime/SYSTEM.c
+++ b/src/runtime/SYSTEM.c
@@ -120,7 +120,7 @@ SYSTEM_PTR SYSTEM_NEWARR(ADDRESS *typ, ADDRESS elemsz, int elemalgn, int nofdim,
         p = (ADDRESS*)(ADDRESS)x[-1];
         p[-nofelems] = *p;  /* build new type desc in situ: 1. copy block size; 2. setup ptr tab; 3. set sentinel; 4. patch tag */
         p -= nofelems - 1; n = 1;   /* n =1 for skipping the size field */
-        while (n <= nofelems) {*p = n*sizeof(ADDRESS); p++; n++;}
+        while (n <= nofelems) {*p = dataoff + (n-1)*sizeof(ADDRESS); p++; n++;}
         *p = - (nofelems + 1) * sizeof(ADDRESS);    /* sentinel */
         x[-1] -= nofelems * sizeof(ADDRESS);
     }
-- 
2.43.0


From efda0de7582ad0b43aca2a53d5131f09dacffcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 08/39] fix: evaluate the operands of IN, LSH and ROT exactly
 once

---
 src/runtime/SYSTEM.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index e3e6a7b..357422d 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -174,11 +174,13 @@ static inline int __str_cmp(CHAR *x, CHAR *y){
 
 #define __LSHL(x, n, s) ((INT##s)((UINT##s)(x)<<(n)))
 #define __LSHR(x, n, s) ((INT##s)((UINT##s)(x)>>(n)))
-#define __LSH(x, n, s)  ((n)>=0? __LSHL(x, n, s): __LSHR(x, -(n), s))
+static inline UINT64 SYSTEM_LSH(UINT64 x, INT64 n) {return n >= 0 ? x << n : x >> -n;}
+#define __LSH(x, n, s)  ((INT##s)SYSTEM_LSH((UINT##s)(x), (INT64)(n)))
 
 #define __ROTL(x, n, s) ((INT##s)((UINT##s)(x)<<(n)|(UINT##s)(x)>>(s-(n))))
 #define __ROTR(x, n, s) ((INT##s)((UINT##s)(x)>>(n)|(UINT##s)(x)<<(s-(n))))
-#define __ROT(x, n, s)  ((n)>=0? __ROTL(x, n, s): __ROTR(x, -(n), s))
+static inline UINT64 SYSTEM_ROT(UINT64 x, INT64 n, int s) {n &= s-1; return n == 0 ? x : x << n | x >> (s-n);}
+#define __ROT(x, n, s)  ((INT##s)SYSTEM_ROT((UINT##s)(x), (INT64)(n), s))
 
 #define __ASHL(x, n)    ((INT64)(x)<<(n))
 #define __ASHR(x, n)    ((INT64)(x)>>(n))
@@ -215,7 +217,8 @@ static inline double SYSTEM_ABSD(double i) {return i >= 0.0 ? i : -i;}
 #define __CAP(ch)       ((CHAR)((ch)&0x5f))
 #define __ODD(x)        ((x)&1)
 
-#define __IN(x, s, size)     (((UINT64)(x))<size && ((((UINT##size)(s))>>(x))&1))
+static inline int SYSTEM_IN(UINT64 x, UINT64 s, UINT64 size) {return x < size && ((s >> x) & 1);}
+#define __IN(x, s, size)     SYSTEM_IN((UINT64)(x), (UINT##size)(s), size)
 // todo tested versions of SETOF and SETRNG: check that x, l and h fit size
 #define __SETOF(x, size)     ((UINT##size)1<<(x))
 #define __SETRNG(l, h, size) ((~(UINT##size)0<<(l))&~(UINT##size)0>>(size-1-(h)))
-- 
2.43.0


From 8fb4f9d3409c43f709c92e32aac5f12af59966cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 09/39] fix: evaluate the operand of a pointer guard exactly
 once

---
 src/runtime/SYSTEM.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index 357422d..f028ecf 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -240,11 +240,11 @@ static inline int SYSTEM_IN(UINT64 x, UINT64 s, UINT64 size) {return x < size &&
 #define __ISP(p, typ, level)  __IS(__TYPEOF(p),typ,level)
 
 
-#define __GUARDP(p, typ, level)    ((typ*)(__ISP(p,typ,level)?p:(__HALT(-5),p)))
+#define __GUARDP(p, typ, level)    ((typ*)SYSTEM_GUARD(p, typ##__typ, level))
 #define __GUARDR(r, typ, level)    (*((typ*)(__IS(r##__typ,typ,level)?r:(__HALT(-5),r))))
-#define __GUARDA(p, typ, level)    ((struct typ*)(__IS(__TYPEOF(p),typ,level)?p:(__HALT(-5),p)))
+#define __GUARDA(p, typ, level)    ((struct typ*)SYSTEM_GUARD(p, typ##__typ, level))
 #define __GUARDEQR(p, dyntyp, typ) if(dyntyp!=typ##__typ) __HALT(-6);*(p)
-#define __GUARDEQP(p, typ)         if(__TYPEOF(p)!=typ##__typ)__HALT(-6);*((typ*)p)
+#define __GUARDEQP(p, typ)         *((typ*)SYSTEM_GUARDEQ(p, typ##__typ))
 
 
 
@@ -312,6 +312,13 @@ extern void SYSTEM_ENUMR  (void *adr, ADDRESS *typ, ADDRESS size, ADDRESS n, voi
 #define __BASEOFF   (__MAXEXT+1)                           // blksz as index to base.
 #define __TPROC0OFF (__BASEOFF+24/sizeof(ADDRESS)+5)       // blksz as index to tproc IFF m=1.
 #define __EOM 1
+
+// Pointer guards as functions: the guarded designator may have side effects.
+static inline SYSTEM_PTR SYSTEM_GUARD(SYSTEM_PTR p, ADDRESS *typ, int level)
+  {if (*(__TYPEOF(p)-(__BASEOFF-level))!=(ADDRESS)typ) {__HALT(-5);} return p;}
+static inline SYSTEM_PTR SYSTEM_GUARDEQ(SYSTEM_PTR p, ADDRESS *typ)
+  {if (__TYPEOF(p)!=typ) {__HALT(-6);} return p;}
+
 #define __TDFLDS(name, size)          {__EOM}, 1, 0, 0, 0, name, {0}, 0, size
 #define __ENUMP(adr, n, P)            SYSTEM_ENUMP(adr, (ADDRESS)(n), P)
 #define __ENUMR(adr, typ, size, n, P) SYSTEM_ENUMR(adr, typ, (ADDRESS)(size), (ADDRESS)(n), P)
-- 
2.43.0


From 81477e9b4775107adb381d8ad4b240d83942e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 10/39] fix: evaluate the operand of ROT with a constant count
 exactly once

---
 src/runtime/SYSTEM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/SYSTEM.h b/src/runtime/SYSTEM.h
index f028ecf..770e015 100644
--- a/src/runtime/SYSTEM.h
+++ b/src/runtime/SYSTEM.h
@@ -177,10 +177,10 @@ static inline int __str_cmp(CHAR *x, CHAR *y){
 static inline UINT64 SYSTEM_LSH(UINT64 x, INT64 n) {return n >= 0 ? x << n : x >> -n;}
 #define __LSH(x, n, s)  ((INT##s)SYSTEM_LSH((UINT##s)(x), (INT64)(n)))
 
-#define __ROTL(x, n, s) ((INT##s)((UINT##s)(x)<<(n)|(UINT##s)(x)>>(s-(n))))
-#define __ROTR(x, n, s) ((INT##s)((UINT##s)(x)>>(n)|(UINT##s)(x)<<(s-(n))))
 static inline UINT64 SYSTEM_ROT(UINT64 x, INT64 n, int s) {n &= s-1; return n == 0 ? x : x << n | x >> (s-n);}
 #define __ROT(x, n, s)  ((INT##s)SYSTEM_ROT((UINT##s)(x), (INT64)(n), s))
+#define __ROTL(x, n, s) __ROT(x, n, s)
+#define __ROTR(x, n, s) __ROT(x, -(n), s)
 
 #define __ASHL(x, n)    ((INT64)(x)<<(n))
 #define __ASHR(x, n)    ((INT64)(x)>>(n))
-- 
2.43.0


From c09a7fbf1f565a68c392000ba17d009f1626eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 11/39] fix: pass the address of the right sub-array of a VAR
 open array

OPV.design finished the address of a[i] with the lengths of the remaining
dimensions only if the size of the array type (which counts dimensions) had
been computed. It is not for VAR parameters, so elements of a wrong row were
passed. Count the open dimensions of the element type instead.
---
 src/compiler/OPV.Mod | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index c6b26c0..f956827 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -346,9 +346,10 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
                      IF n^.typ^.comp = OPT.DynArr THEN
                        (*  element type is OPT.DynArr; finish Horner schema with virtual indices = 0*)
                        OPM.Write(")");
-                       WHILE i < (d^.typ^.size - 4) DIV 4 DO
+                       typ := n^.typ;
+                       WHILE typ^.comp = OPT.DynArr DO
                          OPM.WriteString(" * "); Len(d, i);
-                         INC(i)
+                         INC(i); typ := typ^.BaseTyp
                        END
                      END ;
                      OPM.Write(CloseBracket)
-- 
2.43.0


From 87c6223684c6fd5ba66a915fa74126c9ff6accd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 12/39] fix: LONG and SHORT of reals change the precision

LONG(r) * LONG(s) was computed in single precision because the conversion
was not written to the C file, and SHORT(l) = r compared the unrounded
value. Write the cast.
---
 src/compiler/OPV.Mod | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index f956827..6fb682e 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -273,6 +273,8 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
         OPM.Write(OpenParen); Entier(n, MinPrec); OPM.Write(CloseParen)
       ELSE OPM.WriteString("(CHAR)"); Entier(n, 9)
       END
+    ELSIF (to IN OPT.realSet) & (from IN OPT.realSet) THEN (* LONG and SHORT of reals change precision *)
+      OPM.Write(OpenParen); OPC.Ident(newtype^.strobj); OPM.Write(CloseParen); expr(n, 9)
     ELSE expr(n, prec)
     END
   END Convert;
-- 
2.43.0


From dc8dd8452672fb9ecd970387ce6a82eb9a170514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 13/39] fix: complement of a 64 bit set constant covers all its
 elements

---
 src/compiler/OPV.Mod | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 6fb682e..5cdf0a7 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -487,7 +487,8 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
       OPM.Write(OpenParen);
     END;
     CASE class OF
-    | OPT.Nconst: OPC.Constant(n^.conval, form)
+    | OPT.Nconst: IF (form = OPT.Set) & (n.typ.size > OPM.CIntSize) THEN OPM.WriteString("(UINT64)") END; (* so that ~ complements all elements *)
+                  OPC.Constant(n^.conval, form)
     | OPT.Nupto:  (* n^.typ = OPT.settyp *)
                   OPM.WriteString("__SETRNG("); expr(l, MinPrec); OPM.WriteString(Comma); expr(r, MinPrec);
                   OPM.WriteString(Comma); OPM.WriteInt(n.typ.size*8); OPM.Write(CloseParen)
-- 
2.43.0


From 72d8d7d7d88102afc7cb55221441f054d2cc57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 14/39] fix: write real constants beyond 32 bits as reals, also
 with 64 bit LONGINT

---
 src/compiler/OPM.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPM.Mod b/src/compiler/OPM.Mod
index b64e1e9..c1af2e6 100755
--- a/src/compiler/OPM.Mod
+++ b/src/compiler/OPM.Mod
@@ -707,7 +707,7 @@ MODULE OPM;  (* RC 6.3.89 / 28.6.89, J.Templ 10.7.89 / 22.7.96  *)
     VAR W: Texts.Writer; T: Texts.Text; R: Texts.Reader; s: ARRAY 32 OF CHAR; ch: CHAR; i: INTEGER;
   BEGIN
 (*should be improved *)
-    IF (r < SignedMaximum(LongintSize)) & (r > SignedMinimum(LongintSize)) & (r = ENTIER(r)) THEN
+    IF (r < SignedMaximum(4)) & (r > SignedMinimum(4)) & (r = ENTIER(r)) THEN
       IF suffx = "f" THEN WriteString("(REAL)") ELSE WriteString("(LONGREAL)") END ;
       WriteInt(ENTIER(r))
     ELSE
-- 
2.43.0


From 82490ae78afb6e847aaee5308ae425c4e1d45a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 15/39] fix: guard of a VAR parameter record from a nested
 procedure names its scope

---
 src/compiler/OPV.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 5cdf0a7..f91a606 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -365,7 +365,7 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
                    IF OPM.typchk IN OPM.Options THEN
                      IF typ^.comp = OPT.Record THEN OPM.WriteString(GuardRecFunc);
                        IF obj^.mnolev # OPM.level THEN (*intermediate level var-par record*)
-                         OPM.WriteStringVar(obj^.scope^.name); OPM.WriteString("__curr->"); OPC.Ident(obj)
+                         OPM.WriteStringVar(obj^.scope^.name); OPM.WriteString("_s->"); OPC.Ident(obj)
                        ELSE (*local var-par record*)
                          OPC.Ident(obj)
                        END ;
-- 
2.43.0


From 95479aad4f2955a15d2c23a98e64fe18585713b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 16/39] fix: pass every length of a multi-dimensional open
 array to nested procedures

---
 src/compiler/OPC.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index d1f9027..aa251d3 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -1026,7 +1026,7 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
               IF dim # 0 THEN OPM.WriteInt(dim) END ;
               OPM.WriteString(' = '); Ident(var); OPM.WriteString(LenExt);
               IF dim # 0 THEN OPM.WriteInt(dim) END ;
-              typ := typ^.BaseTyp
+              typ := typ^.BaseTyp; INC(dim)
             UNTIL typ^.comp # OPT.DynArr;
           ELSIF (var^.mode = OPT.VarPar) & (var^.typ^.comp = OPT.Record) THEN
             OPM.WriteString("; ");
-- 
2.43.0


From f351afe6d00345273b80510720995453ab575d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 17/39] fix: range check ENTIER of a REAL assigned to a shorter
 integer

---
 src/compiler/OPV.Mod | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index f91a606..5c7abd8 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -242,13 +242,15 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
   END Entier;
 
   PROCEDURE SizeCast(n: OPT.Node; to: LONGINT);
+    VAR from: LONGINT;
   BEGIN
-    IF (to < n.typ.size) & (OPM.ranchk IN OPM.Options) THEN
+    IF n.typ.form IN OPT.realSet THEN from := 8 (* __ENTIER gives 64 bits *) ELSE from := n.typ.size END;
+    IF (to < from) & (OPM.ranchk IN OPM.Options) THEN
       OPM.WriteString("__SHORT"); IF SideEffects(n) THEN OPM.Write("F") END;
       OPM.Write(OpenParen); Entier(n, MinPrec); OPM.WriteString(Comma);
       OPM.WriteInt(OPM.SignedMaximum(to) + 1); OPM.Write(CloseParen)
     ELSE
-      IF (n.typ.size # to) & ((n.typ.size > OPM.CIntSize) OR (to # OPM.CIntSize)) THEN
+      IF (from # to) & ((from > OPM.CIntSize) OR (to # OPM.CIntSize)) THEN
         OPM.WriteString("(INT"); OPM.WriteInt(to*8); OPM.WriteString(")")
       END;
       Entier(n, 9)
-- 
2.43.0


From 98ce47386423e9b61038cdf2d38ca30ceb8629c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 18/39] fix: LSH and ROT of sets and characters give sets and
 characters, not signed integers

---
 src/compiler/OPV.Mod | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 5c7abd8..5bfa688 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -550,7 +550,10 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
                     OPT.lsh,
                     OPT.rot,
                     OPS.div,
-                    OPS.mod:  CASE subclass OF
+                    OPS.mod:  IF (subclass IN {OPT.lsh, OPT.rot}) & (form # OPT.Int) THEN (* the macros return signed integers *)
+                                OPM.Write(OpenParen); OPC.Ident(n^.typ^.strobj); OPM.Write(CloseParen)
+                              END;
+                              CASE subclass OF
                               | OPS.in:   OPM.WriteString("__IN(")
                               | OPT.ash:  IF r^.class = OPT.Nconst THEN
                                             IF r^.conval^.intval >= 0 THEN OPM.WriteString("__ASHL(")
-- 
2.43.0


From dcbf325be38eb15d15bfbae82439427e9b4584b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 19/39] fix: SYSTEM.VAL of a dereferenced pointer reads the
 array or record, not its address

---
 src/compiler/OPV.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 5bfa688..8ebbffd 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -524,7 +524,7 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
                                  IF (l^.typ^.form # OPT.String) & ~(l^.typ^.comp IN {OPT.Array, OPT.DynArr}) THEN OPM.Write("&") END ;
                                  expr(l, exprPrec)
                                END
-                  | OPT.val:   IF ~(l^.class IN {OPT.Nvar, OPT.Nvarpar, OPT.Nfield, OPT.Nindex})    (*SYSTEM*)
+                  | OPT.val:   IF ~(l^.class IN {OPT.Nvar, OPT.Nvarpar, OPT.Nfield, OPT.Nderef, OPT.Nindex})    (*SYSTEM*)
                                OR   (n^.typ^.form IN {OPT.Int, OPT.Pointer, OPT.Set, OPT.ProcTyp})
                                   & (l^.typ^.form IN {OPT.Int, OPT.Pointer, OPT.Set, OPT.ProcTyp})
                                   & (n^.typ^.size = l^.typ^.size)
-- 
2.43.0


From 5f7c8b8e77bdcccc54d7118d91cbf72c28f000df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 20/39] fix: index fixed size VAR array parameters of an
 enclosing procedure correctly

---
 src/compiler/OPC.Mod | 2 +-
 src/compiler/OPV.Mod | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index aa251d3..a0daa2b 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -1098,7 +1098,7 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
       END
     ELSIF (level # OPM.level) & (level > 0) THEN (* intermediate var *)
       comp := obj^.typ^.comp;
-      IF (obj^.mode # OPT.VarPar) & (comp # OPT.DynArr) THEN OPM.Write('*'); END;
+      IF ((obj^.mode # OPT.VarPar) OR (comp = OPT.Array)) & (comp # OPT.DynArr) THEN OPM.Write('*'); END;
       OPM.WriteStringVar(obj^.scope^.name); OPM.WriteString(GlobalScope);
       OPM.WriteString("->"); Ident(obj)
     ELSE
diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 8ebbffd..e52b82c 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -317,7 +317,7 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
   BEGIN
     comp := n^.typ^.comp; obj := n^.obj; class := n^.class;
     designPrec := Precedence(class, n^.subcl, n^.typ^.form, comp);
-    IF (class = OPT.Nvar) & (obj^.mnolev > 0) & (obj^.mnolev # OPM.level) & (prec = 10) THEN designPrec := 9 END ;
+    IF ((class = OPT.Nvar) OR (class = OPT.Nvarpar) & (comp = OPT.Array)) & (obj^.mnolev > 0) & (obj^.mnolev # OPM.level) & (prec = 10) THEN designPrec := 9 END ;
     IF prec > designPrec THEN OPM.Write(OpenParen) END;
     IF prec = ProcTypeVar THEN OPM.Write(Deref) END; (* proc var calls must be dereferenced in K&R C *)
     CASE class OF
-- 
2.43.0


From ec746d9af37bd3c8c39e00e8ed23691b26253552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 21/39] fix: name the alias of a WITH record as its uses do

---
 src/compiler/OPV.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index e52b82c..95fd115 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -667,7 +667,7 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
         IF typ^.comp = OPT.Record THEN
           (* introduce alias pointer for var records; T1 *name__ = rec; *)
           OPC.BegStat; OPC.Ident(if^.left^.obj); OPM.WriteString(" *");
-          OPM.WriteString(obj.name); OPM.WriteString("__ = (void*)");
+          OPC.Ident(obj); OPM.WriteString("__ = (void*)");
           obj^.adr := 0; (* for nested WITH with same variable; always take the original name *)
           OPC.CompleteIdent(obj);
           OPC.EndStat
-- 
2.43.0


From 56298a019bff82fa7cbf62593b715d8acbdade59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 22/39] fix: name the receiver of a type-bound procedure as its
 macro's parameter list does

---
 src/compiler/OPC.Mod | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index a0daa2b..aa45a67 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -415,8 +415,8 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
         DeclareParams(obj^.link, TRUE);
         OPM.WriteString(" __SEND(");
         IF obj^.link^.typ^.form = OPT.Pointer THEN
-          OPM.WriteString("__TYPEOF("); Ident(obj^.link); OPM.Write(")")
-        ELSE Ident(obj^.link); OPM.WriteString(TagExt)
+          OPM.WriteString("__TYPEOF("); OPM.WriteStringVar(obj^.link.name); OPM.Write(")")
+        ELSE OPM.WriteStringVar(obj^.link.name); OPM.WriteString(TagExt)
         END ;
         Str1(", #, ", obj^.adr DIV 10000H);
         IF obj^.typ = OPT.notyp THEN OPM.WriteString('void') ELSE Ident(obj^.typ^.strobj) END ;
-- 
2.43.0


From a993381beb33787a82e1e1d8806a1b1f7717185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 23/39] fix: write the type descriptor of an anonymous record
 passed through SYSTEM.VAL

---
 src/compiler/OPC.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index aa45a67..ade820e 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -1119,7 +1119,7 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
       OPM.WriteString(TagExt)
     ELSIF ap^.typ^.strobj # NIL THEN
       Ident(ap^.typ^.strobj); OPM.WriteString(DynTypExt)
-    ELSE Andent(ap.typ)  (*anonymous ap type, p^ *)
+    ELSE Andent(ap.typ); OPM.WriteString(DynTypExt)  (*anonymous ap type, p^ *)
     END
   END TypeOf;
 
-- 
2.43.0


From 643f4642f29cb46b9718934f2fd3942d29754b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 24/39] fix: assignment to a guarded VAR parameter record has
 the type of the guard

---
 src/compiler/OPV.Mod | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 95fd115..2a949c9 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -387,10 +387,13 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
                    END
     | OPT.Neguard: IF OPM.typchk IN OPM.Options THEN
                      IF n^.left^.class = OPT.Nvarpar THEN OPM.WriteString("__GUARDEQR(");
+                       IF n^.typ # n^.left^.typ THEN OPM.Write("("); OPC.Ident(n^.typ^.strobj); OPM.WriteString("*)") END ; (* r(T) *)
                        OPC.CompleteIdent(n^.left^.obj); OPM.WriteString(Comma); TypeOf(n^.left);
                      ELSE OPM.WriteString("__GUARDEQP("); expr(n^.left^.left, MinPrec)
                      END ; (* __GUARDEQx includes deref *)
-                     OPM.WriteString(Comma); OPC.Ident(n^.left^.typ^.strobj); OPM.Write(")")
+                     OPM.WriteString(Comma); OPC.Ident(n^.typ^.strobj); OPM.Write(")")
+                   ELSIF n^.typ # n^.left^.typ THEN (* r(T) *)
+                     OPM.WriteString("*("); OPC.Ident(n^.typ^.strobj); OPM.WriteString("*)"); OPC.CompleteIdent(n^.left^.obj)
                    ELSE
                      expr(n^.left, MinPrec)  (* always lhs of assignment *)
                    END
-- 
2.43.0


From 754fa6c63f89a2ff3d080f242540d26ead06e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 25/39] fix: CASE labels of 64-bit selectors keep all their
 bits

---
 src/compiler/OPC.Mod |  2 +-
 src/compiler/OPP.Mod | 19 ++++++++++++-------
 src/compiler/OPT.Mod |  2 +-
 src/compiler/OPV.Mod |  8 +++++---
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index ade820e..52d3840 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -1254,7 +1254,7 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
                     END
                   UNTIL i = 0;
                   IF skipLeading THEN OPM.Write("0") END
-    | OPT.String: StringLiteral(con.ext^, con.intval2-1)
+    | OPT.String: StringLiteral(con.ext^, OPM.Longint(con.intval2-1))
     | OPT.NilTyp: OPM.WriteString('NIL');
     ELSE OPM.LogWStr("unhandled case in OPC.Constant, form = "); OPM.LogWNum(form, 0); OPM.LogWLn;
     END;
diff --git a/src/compiler/OPP.Mod b/src/compiler/OPP.Mod
index 96117ca..d4a0659 100644
--- a/src/compiler/OPP.Mod
+++ b/src/compiler/OPP.Mod
@@ -7,7 +7,7 @@ MODULE OPP;  (* NW, RC 6.3.89 / 10.2.94 *)  (* object model 4.12.93 *)
   TYPE
     CaseTable = ARRAY OPM.MaxCases OF
       RECORD
-        low, high: LONGINT
+        low, high: SYSTEM.INT64
       END ;
 
   VAR
@@ -671,10 +671,10 @@ MODULE OPP;  (* NW, RC 6.3.89 / 10.2.94 *)  (* object model 4.12.93 *)
   END ProcedureDeclaration;
 
   PROCEDURE CaseLabelList(VAR lab: OPT.Node; LabelTyp: OPT.Struct; VAR n: INTEGER; VAR tab: CaseTable);
-    VAR x, y, lastlab: OPT.Node; i, f: INTEGER; xval, yval: LONGINT;
+    VAR x, y, lastlab: OPT.Node; i, f: INTEGER; xval, yval: SYSTEM.INT64;
   BEGIN lab := NIL; lastlab := NIL;
     LOOP ConstExpression(x); f := x^.typ^.form;
-      IF f IN {OPT.Int, OPT.Char} THEN  xval := OPM.Longint(x^.conval^.intval)
+      IF f IN {OPT.Int, OPT.Char} THEN  xval := x^.conval^.intval
       ELSE err(61); xval := 1
       END;
       IF f = OPT.Int THEN
@@ -682,8 +682,10 @@ MODULE OPP;  (* NW, RC 6.3.89 / 10.2.94 *)  (* object model 4.12.93 *)
       ELSIF LabelTyp.form # f THEN err(60)
       END ;
       IF sym = OPS.upto THEN
-        OPS.Get(sym); ConstExpression(y); yval := OPM.Longint(y^.conval^.intval);
-        IF (y^.typ^.form # f) & ~((f = OPT.Int) & (y^.typ^.form = OPT.Int)) THEN err(60) END ;
+        OPS.Get(sym); ConstExpression(y); yval := y^.conval^.intval;
+        IF (y^.typ^.form # f) & ~((f = OPT.Int) & (y^.typ^.form = OPT.Int)) THEN err(60)
+        ELSIF (f = OPT.Int) & (LabelTyp.form = OPT.Int) & (LabelTyp.size < y.typ.size) THEN err(60)
+        END ;
         IF yval < xval THEN err(63); yval := xval END
       ELSE yval := xval
       END ;
@@ -714,7 +716,7 @@ MODULE OPP;  (* NW, RC 6.3.89 / 10.2.94 *)  (* object model 4.12.93 *)
         s, x, y, z, apar, last, lastif: OPT.Node; pos: LONGINT; name: OPS.Name;
 
     PROCEDURE CasePart(VAR x: OPT.Node);
-      VAR n: INTEGER; low, high: LONGINT; e: BOOLEAN;
+      VAR n: INTEGER; low, high: SYSTEM.INT64; e: BOOLEAN;
           tab: CaseTable; cases, lab, y, lastcase: OPT.Node;
     BEGIN
       Expression(x); pos := OPM.errpos;
@@ -731,7 +733,10 @@ MODULE OPP;  (* NW, RC 6.3.89 / 10.2.94 *)  (* object model 4.12.93 *)
         IF sym = OPS.bar THEN OPS.Get(sym) ELSE EXIT END
       END ;
       IF n > 0 THEN low := tab[0].low; high := tab[n-1].high;
-        IF high - low > OPM.MaxCaseRange THEN err(209) END
+        IF (low >= 0) = (high >= 0) THEN
+          IF high - low > OPM.MaxCaseRange THEN err(209) END
+        ELSIF high > low + OPM.MaxCaseRange THEN err(209)  (* high - low might overflow *)
+        END
       ELSE low := 1; high := 0
       END ;
       e := sym = OPS.else;
diff --git a/src/compiler/OPT.Mod b/src/compiler/OPT.Mod
index b23103a..7708fa1 100644
--- a/src/compiler/OPT.Mod
+++ b/src/compiler/OPT.Mod
@@ -15,7 +15,7 @@ TYPE
   ConstDesc* = RECORD
     ext*:      ConstExt;      (* string or code for code proc *)
     intval*:   SYSTEM.INT64;  (* constant value or adr, proc par size, text position or least case label *)
-    intval2*:  LONGINT;       (* string length, proc var size or larger case label *)
+    intval2*:  SYSTEM.INT64;  (* string length, proc var size or larger case label *)
     setval*:   SYSTEM.SET64;  (* constant value, procedure body present or "ELSE" present in case *)
     realval*:  LONGREAL       (* real or longreal constant value *)
   END;
diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 2a949c9..4e4ed84 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -706,11 +706,13 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
       WHILE label # NIL DO (* label^.class = NConst *)
         low := label^.conval^.intval;
         high := label^.conval^.intval2;
-        WHILE low <= high DO
+        LOOP (* low <= high; not INC(low) beyond MAX(SYSTEM.INT64) *)
           IF i = 0 THEN OPC.BegStat END ;
           OPC.Case(low, form);
-          INC(low); INC(i);
-          IF i = 5 THEN OPM.WriteLn; i := 0 END
+          INC(i);
+          IF i = 5 THEN OPM.WriteLn; i := 0 END ;
+          IF low >= high THEN EXIT END ;
+          INC(low)
         END ;
         label := label^.link
       END ;
-- 
2.43.0


From 621318c909da46b5766709273ea4c4e8b5641506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 26/39] fix: do not truncate parameter names longer than 31
 characters

---
 src/compiler/OPC.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPC.Mod b/src/compiler/OPC.Mod
index 52d3840..07589d8 100644
--- a/src/compiler/OPC.Mod
+++ b/src/compiler/OPC.Mod
@@ -674,7 +674,7 @@ MODULE OPC;  (* copyright (c) J. Templ 12.7.95 / 3.7.96 *)
   END IdentList;
 
   PROCEDURE AnsiParamList (obj: OPT.Object; showParamNames: BOOLEAN);
-    VAR name: ARRAY 32 OF CHAR;
+    VAR name: ARRAY 256 OF CHAR; (* as OPS.Name *)
   BEGIN
     OPM.Write("(");
     IF (obj = NIL) OR (obj^.mode = OPT.TProc) THEN OPM.WriteString("void")
-- 
2.43.0


From 0a13ddc5ab789b2251f7074b6bbc606cd793fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 27/39] fix: passing an extended record to a value parameter
 passes its projection

---
 src/compiler/OPV.Mod | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 4e4ed84..5583342 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -427,6 +427,8 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
             OPM.WriteString("(CHAR*)")  (* force to unsigned char *)
           ELSIF (form = OPT.Pointer) & (typ # n^.typ) & (n^.typ # OPT.niltyp) THEN
             OPM.WriteString("(void*)")  (* type extension *)
+          ELSIF (comp = OPT.Record) & (typ # n^.typ) THEN  (* projection of an extended record *)
+            OPM.WriteString("*("); OPC.Andent(typ); OPM.WriteString("*)&"); prec := 9
           END
         END
       ELSE
-- 
2.43.0


From 31be6393375da30727d5f9d510c9cc0e1c2f2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 28/39] fix: string constants passed to longer array value
 parameters are padded to the length of the array

---
 src/compiler/OPV.Mod | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/OPV.Mod b/src/compiler/OPV.Mod
index 5583342..844fe71 100644
--- a/src/compiler/OPV.Mod
+++ b/src/compiler/OPV.Mod
@@ -410,10 +410,10 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
   END ParIntLiteral;
 
   PROCEDURE ActualPar(n: OPT.Node; fp: OPT.Object);
-    VAR typ, aptyp: OPT.Struct; comp, form, mode, prec, dim: INTEGER;
+    VAR typ, aptyp: OPT.Struct; comp, form, mode, prec, dim: INTEGER; strpad: BOOLEAN;
   BEGIN
     OPM.Write(OpenParen);
-    WHILE n # NIL DO typ := fp^.typ;
+    WHILE n # NIL DO typ := fp^.typ; strpad := FALSE;
       comp := typ^.comp; form := typ^.form; mode := fp^.mode; prec := MinPrec;
       IF (mode = OPT.VarPar) & (n^.class = OPT.Nmop) & (n^.subcl = OPT.val) THEN  (* avoid cast in lvalue *)
         OPM.Write(OpenParen); OPC.Ident(n^.typ^.strobj); OPM.WriteString("*)"); prec := 10
@@ -424,7 +424,10 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
           OPM.Write("&"); prec := 9
         ELSE
           IF (comp IN {OPT.Array, OPT.DynArr}) & (n^.class = OPT.Nconst) THEN
-            OPM.WriteString("(CHAR*)")  (* force to unsigned char *)
+            OPM.WriteString("(CHAR*)");  (* force to unsigned char *)
+            IF (comp = OPT.Array) & (n^.conval^.intval2 < typ^.n) THEN  (* the callee copies the whole array *)
+              OPM.WriteString("(CHAR["); OPM.WriteInt(typ^.n); OPM.WriteString("]){"); strpad := TRUE
+            END
           ELSIF (form = OPT.Pointer) & (typ # n^.typ) & (n^.typ # OPT.niltyp) THEN
             OPM.WriteString("(void*)")  (* type extension *)
           ELSIF (comp = OPT.Record) & (typ # n^.typ) THEN  (* projection of an extended record *)
@@ -442,6 +445,7 @@ MODULE OPV;  (* J. Templ 16.2.95 / 3.7.96
       ELSE
         expr(n, prec)
       END;
+      IF strpad THEN OPM.Write("}") END;
       IF (comp = OPT.Record) & (mode = OPT.VarPar) THEN
         OPM.WriteString(", "); TypeOf(n)
       ELSIF comp = OPT.DynArr THEN
-- 
2.43.0


From b992c1cc242bfc12734d3d737bd67db29cd5f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 29/39] fix: SYSTEM.GET and SYSTEM.GETREG may not write a
 read-only variable

---
 src/compiler/OPB.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 3ff7fff..051428d 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -1216,7 +1216,7 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
                    IF (x^.class = OPT.Ntype) OR (x^.class = OPT.Nproc) THEN err(126)
                    ELSIF f IN {OPT.Undef..OPT.Set, OPT.Pointer, OPT.ProcTyp} THEN
                      IF (fctno = OPT.getfn) OR (fctno = OPT.getrfn) THEN
-                       IF NotVar(x) THEN err(112) END ;
+                       IF NotVar(x) THEN err(112) ELSIF x^.readonly THEN err(76) END ;
                        t := x; x := p; p := t
                      END ;
                      p := NewOp(OPT.Nassign, fctno, p, x)
-- 
2.43.0


From 5a7449beaf7566bf34fa6804bf0838508736cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 30/39] fix: SYSTEM.NEW may not write a read-only variable

---
 src/compiler/OPB.Mod | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 051428d..7298a68 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -1102,7 +1102,8 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
     |OPT.sysnewfn: (*SYSTEM.NEW*)
                    IF NotVar(x) THEN err(112)
                    ELSIF f = OPT.Pointer THEN
-                     IF OPM.NEWusingAdr THEN CheckLeaf(x, TRUE) END
+                     IF OPM.NEWusingAdr THEN CheckLeaf(x, TRUE) END ;
+                     IF x^.readonly THEN err(76) END
                    ELSE err(111)
                    END
     |OPT.assertfn: (*ASSERT*)
-- 
2.43.0


From f7a74bffa9c127335c09cd706a874277db44689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 31/39] fix: a read-only record may not be the receiver of a
 procedure that takes it as VAR parameter

---
 src/compiler/OPB.Mod | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 7298a68..419afca 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -1388,6 +1388,7 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
   BEGIN
     IF fp^.typ^.form = OPT.Pointer THEN
       IF x^.class = OPT.Nderef THEN x := x^.left (*undo DeRef*) ELSE (*x^.typ^.comp = OPT.Record*) err(71) END
+    ELSIF x^.readonly THEN err(76)  (* a record receiver is a variable parameter *)
     END
   END CheckReceiver;
 
-- 
2.43.0


From 74f7e3119e8c9b5e4ecbe32b3b9a371ccba4972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 32/39] fix: report products of constants that are less than
 MIN(HUGEINT) (DIV rounds down, the limit has to be rounded up)

---
 src/compiler/OPB.Mod | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 419afca..699ae72 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -495,8 +495,8 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
     |OPS.times: IF f = OPT.Int THEN xv := xval^.intval; yv := yval^.intval;
                   IF (xv = 0) OR (yv = 0) OR  (* division with negative numbers is not defined *)
                     (xv > 0) & (yv > 0) & (yv <= MAX(SYSTEM.INT64) DIV xv) OR
-                    (xv > 0) & (yv < 0) & (yv >= MIN(SYSTEM.INT64) DIV xv) OR
-                    (xv < 0) & (yv > 0) & (xv >= MIN(SYSTEM.INT64) DIV yv) OR
+                    (xv > 0) & (yv < 0) & (yv >= (MIN(SYSTEM.INT64) + (xv - 1)) DIV xv) OR
+                    (xv < 0) & (yv > 0) & (xv >= (MIN(SYSTEM.INT64) + (yv - 1)) DIV yv) OR
                     (xv < 0) & (yv < 0) & (xv  # MIN(SYSTEM.INT64)) & (yv # MIN(SYSTEM.INT64)) & (-xv <= MAX(SYSTEM.INT64) DIV (-yv)) THEN
                     xval^.intval := xv * yv; SetIntType(x)
                   ELSE err(204)
-- 
2.43.0


From 9caee50cd2dc1ca31747af75330f0d7a4dba87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 33/39] fix: report the overflow of MIN(HUGEINT) DIV (-1) in
 constants

---
 src/compiler/OPB.Mod | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 699ae72..360f4ae 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -528,7 +528,8 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
                 ELSIF f # OPT.Undef THEN err(102)
                 END
     |OPS.div:   IF f = OPT.Int THEN
-                  IF yval^.intval # 0 THEN
+                  IF (yval^.intval = -1) & (xval^.intval = MIN(SYSTEM.INT64)) THEN err(204)
+                  ELSIF yval^.intval # 0 THEN
                     xval^.intval := xval^.intval DIV yval^.intval; SetIntType(x)
                   ELSE err(205)
                   END
-- 
2.43.0


From 7de243d04a66b753908a74d3f72f79954b205fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 34/39] fix: evaluate the other factor of a product with 0

---
 src/compiler/OPB.Mod | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 360f4ae..63b65b1 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -704,14 +704,12 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
                   IF f = OPT.Int THEN
                     IF z^.class = OPT.Nconst THEN val := z^.conval^.intval;
                       IF val = 1 THEN do := FALSE; z := y
-                      ELSIF val = 0 THEN do := FALSE
                       ELSIF log(val) = 1 THEN
                         t := y; y := z; z := t;
                         op := OPT.ash; y^.typ := OPT.sinttyp; y^.conval^.intval := exp; y^.obj := NIL
                       END
                     ELSIF y^.class = OPT.Nconst THEN val := y^.conval^.intval;
                       IF val = 1 THEN do := FALSE
-                      ELSIF val = 0 THEN do := FALSE; z := y
                       ELSIF log(val) = 1 THEN
                         op := OPT.ash; y^.typ := OPT.sinttyp; y^.conval^.intval := exp; y^.obj := NIL
                       END
-- 
2.43.0


From f8c1f60d63e7e8b53089c2ab78599f8258171198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 35/39] fix: keep both conversions when a converted value is
 converted again (ENTIER(SHORT(x)) did not round to REAL, SHORT(ORD(c)) was
 not range checked)

---
 src/compiler/OPB.Mod | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 63b65b1..7978d76 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -627,9 +627,9 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
       ELSE (* (f IN {OPT.Char, OPT.Byte}) & (g IN {OPT.Byte} + OPT.intSet) OR (f = OPT.Undef) *)
       END ;
       x^.obj := NIL
-    ELSIF (x^.class = OPT.Nmop) & (x^.subcl = OPT.conv) & ((x^.left^.typ^.form < f) OR (f > g)) THEN
-      (* don't create new node *)
-      IF x^.left^.typ = typ THEN (* and suppress existing node *) x := x^.left END
+    ELSIF (x^.class = OPT.Nmop) & (x^.subcl = OPT.conv) & (x^.left^.typ^.form < f) & (x^.left^.typ = typ) THEN
+      (* don't create new node and suppress existing, widening node; a conversion that can change the value has to be kept *)
+      x := x^.left
     ELSE node := OPT.NewNode(OPT.Nmop); node^.subcl := OPT.conv; node^.left := x; x := node
     END ;
     x^.typ := typ
-- 
2.43.0


From 92bd0779d54cfef91845bdf3431005d846d211e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 36/39] fix: ENTIER of a constant outside the range of LONGINT
 is computed or reported, the compiler does not trap

---
 src/compiler/OPB.Mod | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index 7978d76..b71416a 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -601,6 +601,15 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
     END
   END ConstOp;
 
+  PROCEDURE Entier(r: LONGREAL): SYSTEM.INT64;  (* predeclared ENTIER yields a LONGINT, which may be too small *)
+    CONST limb = 4194304.0D0;  (* 2^22, so all operations are exact *)
+    VAR hi, mid: SYSTEM.INT64;
+  BEGIN
+    hi  := ENTIER(r / limb / limb); r := r - hi * limb * limb;
+    mid := ENTIER(r / limb);        r := r - mid * limb;
+    RETURN (hi * 400000H + mid) * 400000H + ENTIER(r)
+  END Entier;
+
   PROCEDURE Convert(VAR x: OPT.Node; typ: OPT.Struct); (* Convert node x to new type typ *)
     VAR node: OPT.Node; f, g: INTEGER; k: SYSTEM.INT64; r: LONGREAL;
   BEGIN f := x^.typ^.form; g := typ^.form;  (* f: old form, g: new form *)
@@ -621,8 +630,9 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
         IF g IN OPT.realSet THEN CheckRealType(g, 203, x^.conval)
         ELSE (* g = OPT.Int *)
           r := x^.conval^.realval;
-          IF (r < MIN(SYSTEM.INT64)) OR (r > MAX(SYSTEM.INT64)) THEN err(203); r := 1 END ;
-          x^.conval^.intval := ENTIER(r); SetIntType(x)
+          IF (r < MIN(SYSTEM.INT64)) OR (r >= MAX(SYSTEM.INT64)) THEN err(203); r := 1 END ;  (* MAX is rounded up to 2^63 *)
+          x^.conval^.intval := Entier(r); SetIntType(x);
+          IF x.typ.size > typ.size THEN err(203); x^.conval^.intval := 1 END
         END
       ELSE (* (f IN {OPT.Char, OPT.Byte}) & (g IN {OPT.Byte} + OPT.intSet) OR (f = OPT.Undef) *)
       END ;
-- 
2.43.0


From 9622ecf40e652ccb009e086e4a16da8dc9d142ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 37/39] fix: a SYSTEM.PTR may not be tested for or guarded to a
 pointer to an array (it has no type tag)

---
 src/compiler/OPB.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index b71416a..e37f241 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -226,7 +226,7 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
     IF NotVar(x) THEN err(112)
     ELSIF x^.typ^.form = OPT.Pointer THEN
       IF (x^.typ^.BaseTyp^.comp # OPT.Record) & (x^.typ # OPT.sysptrtyp) THEN err(85)
-      ELSIF obj^.typ^.form = OPT.Pointer THEN GTT(x^.typ^.BaseTyp, obj^.typ^.BaseTyp)
+      ELSIF (obj^.typ^.form = OPT.Pointer) & (obj^.typ^.BaseTyp^.comp = OPT.Record) THEN GTT(x^.typ^.BaseTyp, obj^.typ^.BaseTyp)
       ELSE err(86)
       END
     ELSIF (x^.typ^.comp = OPT.Record) & (x^.class = OPT.Nvarpar) & (obj^.typ^.comp = OPT.Record) THEN
-- 
2.43.0


From 5ed67dfff84c2ff9a17194dc27d98e8ea8a062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 38/39] fix: NEW with a type as length is reported, the
 compiler does not trap

---
 src/compiler/OPB.Mod | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index e37f241..b23f7dc 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -1202,9 +1202,9 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
                    ELSE err(111)
                    END
     |OPT.newfn:    (*NEW(p, x...)*)
-                   IF (x^.class = OPT.Ntype) OR (x^.class = OPT.Nproc) THEN err(126)
-                   ELSIF p^.typ^.comp = OPT.DynArr THEN
-                     IF f = OPT.Int THEN
+                   IF p^.typ^.comp = OPT.DynArr THEN
+                     IF (x^.class = OPT.Ntype) OR (x^.class = OPT.Nproc) THEN err(126)
+                     ELSIF f = OPT.Int THEN
                        IF (x^.class = OPT.Nconst) & ((x^.conval^.intval <= 0) OR (x^.conval^.intval > OPM.MaxIndex)) THEN err(63) END
                      ELSE err(111)
                      END ;
-- 
2.43.0


From 2d69048c678b24f9e2af4883aef475d176b0e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 39/39] fix: OPB: reject a constant zero divided by zero

---
 src/compiler/OPB.Mod | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/OPB.Mod b/src/compiler/OPB.Mod
index b23f7dc..bfdde21 100644
--- a/src/compiler/OPB.Mod
+++ b/src/compiler/OPB.Mod
@@ -519,7 +519,7 @@ MODULE OPB;  (* RC 6.3.89 / 21.2.94 *)  (* object model 17.1.93 *)
                   x^.typ := OPT.realtyp
                 ELSIF f IN OPT.realSet THEN
                   temp := ABS(yval^.realval) >= 1.0;
-                  IF temp OR (ABS(xval^.realval) <= MAX(LONGREAL) * ABS(yval^.realval)) THEN
+                  IF temp OR (yval^.realval # 0.0) & (ABS(xval^.realval) <= MAX(LONGREAL) * ABS(yval^.realval)) THEN
                     xval^.realval := xval^.realval / yval^.realval; CheckRealType(f, 205, xval)
                   ELSE err(205)
                   END
-- 
2.43.0

