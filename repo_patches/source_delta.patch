From 5f1d8359c8bd3a73f4606aeef26f82129502795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 01/33] fix: error messages naming a value (%B) crashed without
 the formatter
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With -DFORMATTER=0, bqn_repr returned its argument, and the message formatter then
read a number or function as an array of characters: ¯1⥊⟨1,2⟩, (4⥊0)⊏(0⥊0) and other
erroneous calls ended the process with a segmentation fault rather than being errors.
---
 src/load.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index b9b112c..78e0caf 100644
--- a/src/load.c
+++ b/src/load.c
@@ -206,7 +206,18 @@ NO_TAIL_CALLS B bqn_fmt(B x) { return c1G(load_fmt, x); }
 NO_TAIL_CALLS B bqn_repr(B x) { return c1G(load_repr, x); }
 #else
 B bqn_fmt(B x) { return x; }
-B bqn_repr(B x) { return x; }
+B bqn_repr(B x) { // used by %B in error messages, which needs a list of characters
+  if (isNum(x)) { f64 v = o2fG(x); return make_fmt("%f", v); }
+  if (isArr(x) && RNK(x)==1) {
+    usz ia = IA(x);
+    SGetU(x)
+    for (usz i = 0; i < ia; i++) if (!isC32(GetU(x,i))) goto other;
+    return x;
+  }
+  other:
+  dec(x);
+  return m_c8vec_0("(value)");
+}
 #endif
 
 static NOINLINE void comps_push(B src, B state, B re) {
-- 
2.43.0


From 739327fd630c4c135bfea53673f67cf5dc266ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 02/33] =?UTF-8?q?fix:=20=F0=9D=95=A8=E2=8A=8F=F0=9D=95=A9?=
 =?UTF-8?q?=20accepted=20out-of-range=20indices=20when=20the=20cells=20of?=
 =?UTF-8?q?=20=F0=9D=95=A9=20are=20empty?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index fa94210..b861c12 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -603,9 +603,16 @@ B select_c2(B t, B w, B x) {
   depth2: return select_depth2_impl(wia, w, x);
   
   generic_l: {
-    if (xia==0) goto emptyRes;
-    SLOW2("𝕨⊏𝕩", w, x);
     SGetU(w)
+    if (xia==0) { // empty cells; indices still must be valid
+      dec(xf);
+      for (usz i = 0; i < wia; i++) {
+        B cw = GetU(w, i);
+        WRAP_SELECT_ONE(o2i64(cw), xn, "%R", cw);
+      }
+      goto emptyRes;
+    }
+    SLOW2("𝕨⊏𝕩", w, x);
     usz csz = arr_csz(x);
     CFRes f = cf_get(1, csz<<elwBitLog(xe));
     
-- 
2.43.0


From 8b25448c2bb417cef77c85946d3d3f8ea6e86948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 03/33] =?UTF-8?q?fix:=20=E2=8C=BE(=F0=9D=95=A8=E2=8A=B8?=
 =?UTF-8?q?=E2=8A=8F)=20compared=20the=20wrong=20cells=20for=20duplicate?=
 =?UTF-8?q?=20indices=20when=20a=20cell=20is=20256=20bytes=20or=20longer?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index b861c12..2f0de6b 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -797,7 +797,7 @@ B select_replace(u32 chr, B w, B x, B rep, usz wia, usz cam, usz csz) { // consu
   #undef IMPL
   
   do_tycell:;
-  u8 cwidth = csz * elWidth(re);
+  ux cwidth = csz * (ux)elWidth(re);
   u8* rp = r.data;
   u8* np = tyany_ptr(rep);
   MatchFnObj eq = MATCHR_GET(re,re);
-- 
2.43.0


From e958d314bc86313c77c7eab6a2d21a18d852b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 04/33] =?UTF-8?q?fix:=20compound=20=F0=9D=95=A8=E2=8A=8F?=
 =?UTF-8?q?=F0=9D=95=A9=20with=20only=20negative=20indices=20along=20an=20?=
 =?UTF-8?q?axis=20aborted=20with=2064-bit=20usz?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/select.c b/src/builtins/select.c
index 2f0de6b..744762f 100644
--- a/src/builtins/select.c
+++ b/src/builtins/select.c
@@ -247,7 +247,7 @@ Depth2Inds select_depth2_parse_inds(B w, B x) { // consumes w; checks that w of
     if (lastIA>0) {
       if (!elNum(ce)) { select_depth2_bad(w,x); thrM("𝕨⊏𝕩: Elements of compound 𝕨 must be arrays of numbers"); }
       
-      if (!getRange_fns[ce](tyany_ptr(c), bounds, lastIA) || bounds[0] < -(i64)xsh[i] || bounds[1] >= xsh[i]) {
+      if (!getRange_fns[ce](tyany_ptr(c), bounds, lastIA) || bounds[0] < -(i64)xsh[i] || bounds[1] >= (i64)xsh[i]) {
         select_depth2_bad(w,x);
         select_depth2_bad_inds(c, i, x);
       }
-- 
2.43.0


From f105f0f27bd43fc901c99ed7bbcacd7675e6126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 05/33] =?UTF-8?q?fix:=20=F0=9D=95=A8=F0=9D=94=BD`?=
 =?UTF-8?q?=F0=9D=95=A9=20with=20one=20cell=20of=20rank=201=20or=20more=20?=
 =?UTF-8?q?read=20the=20shape=20of=20=F0=9D=95=A9=20after=20freeing=20it?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/cells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builtins/cells.c b/src/builtins/cells.c
index 6e010bf..64215d4 100644
--- a/src/builtins/cells.c
+++ b/src/builtins/cells.c
@@ -123,7 +123,7 @@ B scan_arith(B f, B w, B x, usz* xsh) { // Used by scan.c
   ur xr = RNK(x);
   usz xn = xsh[0];
   assert(xr>1 && (!has_w || xn>0));
-  S_KSLICES(x, xsh, 1, xn, 0)
+  S_KSLICES(x, xsh, 1, xn, 1) // x must stay alive until the first append as xsh is part of it
   usz p = 0;
   B c = w;
   M_APD_SH(r, 1, xsh);
@@ -137,6 +137,7 @@ B scan_arith(B f, B w, B x, usz* xsh) { // Used by scan.c
     p+= x_csz;
   }
   decG(c);
+  decG(x);
   return taga(APD_SH_GET(r, 0));
 }
 
-- 
2.43.0


From 068296e5e9c02ad379574f6c92ac43e3f6be086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 06/33] =?UTF-8?q?fix:=20=F0=9D=94=BD=E2=8C=9C=C2=B4=20and?=
 =?UTF-8?q?=20=F0=9D=94=BD=E2=8C=9C=CB=9D=20under=20=CB=98=20or=20?=
 =?UTF-8?q?=E2=8E=89=20on=20empty=20cells=20gave=20enclosed=20identities?=
 =?UTF-8?q?=20instead=20of=20the=20identities?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/fold.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builtins/fold.c b/src/builtins/fold.c
index 483d218..f664985 100644
--- a/src/builtins/fold.c
+++ b/src/builtins/fold.c
@@ -673,6 +673,7 @@ B insert_cells_identity(B x, B f, usz* xsh, ur xr, ur k, u8 rtid) {
   B id;
   if (!isFun(f) || q_N(id = TI(f,identity)(f))) thrF("%c: Identity not found", rtid==n_fold? U'´' : U'˝');
   bool cs = !isArr(id); // if x cell shape is used (not table)
+  if (!cs) id = TO_GET(id,0); // cells of the result are units
   usz ria = shProd(xsh, 0, k);
   if (cs) ria*= shProd(xsh, k+1, xr);
   Arr* r = reshape_one(ria, id);
-- 
2.43.0


From 78092bfbc423aeb2cc6571e2cc0bfb4e4ef4881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 07/33] =?UTF-8?q?fix:=20=F0=9D=95=A8=F0=9D=94=BD=E2=8C=9C?=
 =?UTF-8?q?=F0=9D=95=A9=20with=20an=20array=20as=20=F0=9D=94=BD=20released?=
 =?UTF-8?q?=20the=20operand=20without=20owning=20a=20reference?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/md1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins/md1.c b/src/builtins/md1.c
index ac79aa0..b5f27cf 100644
--- a/src/builtins/md1.c
+++ b/src/builtins/md1.c
@@ -85,7 +85,7 @@ B tbl_c2(Md1D* d, B w, B x) { B f = d->f;
   Arr* ra_nosh;
   if (RARE(!isFun(f))) {
     if (isMd(f) && ria>0) thrM("Calling a modifier");
-    ra_nosh = reshape_one(ria, f);
+    ra_nosh = reshape_one(ria, inc(f));
     goto nosh;
   } else if (RTID(f) == n_ltack) {
     w = squeeze_any(w);
-- 
2.43.0


From 2316a735e5359e12fec20b71dba9595b1ccbf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 08/33] =?UTF-8?q?fix:=20=E2=88=BE=CB=9D=20under=20=CB=98?=
 =?UTF-8?q?=20or=20=E2=8E=89=20on=20rows=20of=20one=20element=20kept=20the?=
 =?UTF-8?q?=20reduced=20axis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/fold.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/builtins/fold.c b/src/builtins/fold.c
index f664985..99551cd 100644
--- a/src/builtins/fold.c
+++ b/src/builtins/fold.c
@@ -657,14 +657,18 @@ B insert_cells_join(B x, usz* xsh, ur cr, ur k) {
   assert(k > 0);
   if (cr <= 1) {
     if (xsh[k]==0) thrM("˝: Identity does not exist");
-    return x;
+    if (cr==0 || xsh[k]>1) return x;
+    // otherwise the result for each cell is its only element, a unit
   }
-  ur rr = k+cr-1; // result rank (>1)
+  ur rr = k+cr-1; // result rank
+  if (rr==1) return taga(arr_shVec(TI(x,slice)(x, 0, IA(x))));
   ShArr* rsh;
   rsh = m_shArr(rr);
   shcpy(rsh->a, xsh, k);
-  rsh->a[k] = xsh[k] * xsh[k+1];
-  shcpy(rsh->a+k+1, xsh+k+2, cr-2);
+  if (cr > 1) {
+    rsh->a[k] = xsh[k] * xsh[k+1];
+    shcpy(rsh->a+k+1, xsh+k+2, cr-2);
+  }
   Arr* r = TI(x,slice)(x, 0, IA(x));
   arr_shSetUG(r, rr, rsh);
   return taga(r);
-- 
2.43.0


From eedcba9a25ae88e1de7e8d10424c9ddf207ba489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 09/33] =?UTF-8?q?fix:=20JIT-compiled=20v=E2=86=A9x=20with?=
 =?UTF-8?q?=20an=20unused=20result=20did=20not=20error=20on=20a=20not=20ye?=
 =?UTF-8?q?t=20defined=20v?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/jit/nvm_x86_64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/nvm_x86_64.c b/src/jit/nvm_x86_64.c
index 8275682..c6f06c3 100644
--- a/src/jit/nvm_x86_64.c
+++ b/src/jit/nvm_x86_64.c
@@ -224,7 +224,7 @@ INS B i_SETUi(     B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, inc(
 INS B i_SETMi(B f, B x, Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c2(f,v_getI(sc, p, true),x); dec(f); v_setI(sc, p, inc(r), true, false); return r; }
 INS B i_SETCi(B f,      Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c1(f,v_getI(sc, p, true)  ); dec(f); v_setI(sc, p, inc(r), true, false); return r; }
 INS void i_SETNv(B x, Scope* sc, u32 p         ) {          v_setI(sc, p, x, false, false); }
-INS void i_SETUv(B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, x, true,  false); }
+INS void i_SETUv(B x, Scope* sc, u32 p, u32* bc) { POS_UPD; v_setI(sc, p, x, true,  true); }
 INS void i_SETMv(B f, B x, Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c2(f,v_getI(sc, p, true),x); dec(f); v_setI(sc, p, r, true, false); }
 INS void i_SETCv(B f,      Scope* sc, u32 p, u32* bc) { POS_UPD; B r = c1(f,v_getI(sc, p, true)  ); dec(f); v_setI(sc, p, r, true, false); }
 INS B i_FLDG(B ns, u32 p, Scope* sc, u32* bc) { POS_UPD;
-- 
2.43.0


From 4b02ec371b64d745da51208bf0200cdd9b165f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 10/33] =?UTF-8?q?fix:=20in=20bodies=20with=20a=20predicate?=
 =?UTF-8?q?,=20blocks=20inside=20did=20not=20see=20(and=20wrongly=20kept)?=
 =?UTF-8?q?=20changes=20to=20=F0=9D=95=A9=20and=20=F0=9D=95=A8?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/jit/nvm_x86_64.c |  5 +++--
 src/vm.c             | 29 +++++++++++++----------------
 src/vm.h             |  1 +
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/jit/nvm_x86_64.c b/src/jit/nvm_x86_64.c
index c6f06c3..f61396e 100644
--- a/src/jit/nvm_x86_64.c
+++ b/src/jit/nvm_x86_64.c
@@ -197,8 +197,9 @@ FORCE_INLINE B gotoNextBodyJIT(Scope* sc, Body* body) {
   Block* bl = body->bl;
   // because of nvm returning semantics, we cannot quick-skip to the next body. TODO maybe we can by moving tail of evalJIT into i_RETN etc and some magic™ here?
   u64 ga = blockGivenVars(bl);
-  for (u64 i = 0; i < ga; i++) inc(sc->vars[i]);
-  Scope* nsc = m_scope(body, sc->psc, body->varAm, ga, sc->vars);
+  B* args = sc->vars + sc->body->argCopy;
+  for (u64 i = 0; i < ga; i++) inc(args[i]);
+  Scope* nsc = m_scope(body, sc->psc, body->varAm, ga, args);
   return execBodyInplaceI(body, nsc, bl);
 }
 INS B i_SETH1(B s, B x, Scope** pscs, u32* bc, Body* v1) { POS_UPD;
diff --git a/src/vm.c b/src/vm.c
index b5e7b04..e6e0b2a 100644
--- a/src/vm.c
+++ b/src/vm.c
@@ -129,6 +129,7 @@ Body* m_body(i32 vam, i32 pos, u32 maxStack, u16 maxPSC) {
   body->maxPSC = maxPSC;
   body->bl = NULL;
   body->varAm = (u16)vam;
+  body->argCopy = 0;
   body->nsDesc = NULL;
   return body;
 }
@@ -265,26 +266,21 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
       i32 bcStart = TSSIZE(newBC);
       u32* c;
       
-      bool remapArgs = false;
+      bool copyArgs = false;
       c = bc+idx;
       while (*c!=RETN & *c!=RETD) {
-        if (*c==PRED) { remapArgs = true; break; }
+        if (*c==PRED) { copyArgs = true; break; }
         c = nextBC(c);
         if (c-bc-1 >= bcIA) thrM("VM compiler: No RETN/RETD found before end of bytecode");
       }
-      if (remapArgs) {
+      if (copyArgs) {
         if (sc && depth==0) thrM("Predicates cannot be used directly in a REPL");
-        c = bc+idx;
-        bool argUsed[6] = {0,0,0,0,0,0};
-        while (*c!=RETN & *c!=RETD) {
-          if (*c==VARO | *c==VARM | *c==VARU) if (c[1]==0 && c[2]<argAm) argUsed[c[2]] = true;
-          c = nextBC(c);
-          if (c-bc-1 >= bcIA) thrM("VM compiler: No RETN/RETD found before end of bytecode");
-        }
-        for (i32 i = 0; i < 6; i++) if (argUsed[i]) {
+        // keep copies of the given variables as the next body should receive them, as this one may modify its own
+        for (i32 i = 0; i < argAm; i++) {
           TSADDA(newBC, ((u32[]){ VARO,0,i, VARM,0,vam+i, SETN, POPS }), 8);
           TSADDA(mapBC, ((u32[]){ 0,0,0,    0,0,0,        0   , 0    }), 8);
         }
+        if (argAm) hM = 2;
       }
       
       c = bc+idx;
@@ -352,7 +348,6 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
                 ins = ins==VARO? EXTO : ins==VARM? EXTM : EXTO;
               }
             }
-            if (remapArgs && cpos<argAm && cdepth==0) cpos+= vam;
             TSADD(newBC, ins);
             TSADD(newBC, cdepth);
             TSADD(newBC, cpos);
@@ -385,12 +380,13 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
       
       if (mpsc>U16_MAX) thrM("VM compiler: Block too deep");
       
-      i32 finalVam = vam+(remapArgs? argAm : 0);
+      i32 finalVam = vam+(copyArgs? argAm : 0);
       Body* body = m_body(finalVam, bcStart, (u32)hM, mpsc);
+      if (copyArgs) body->argCopy = (u16)vam;
       if (boIA>2) {
         m_nsDesc(body, imm, ty, finalVam, nameList, GetU(bodyRepr,2), GetU(bodyRepr,3));
       } else {
-        for (u64 i = 0; i < vam*2; i++) body->varData[i] = -1;
+        for (u64 i = 0; i < finalVam*2; i++) body->varData[i] = -1;
       }
       
       if (is1) { bodyMap[pos1-1] = body; if (firstM) { firstM=false; startBodies[i  ] = body; if(i==0) firstMPos = TSSIZE(bodies); } }
@@ -698,9 +694,10 @@ FORCE_INLINE B gotoNextBody(Block* bl, Scope* sc, Body* body) {
   
   i32 ga = blockGivenVars(bl);
   
-  for (u64 i = 0; i < ga; i++) inc(sc->vars[i]);
+  B* args = sc->vars + sc->body->argCopy;
+  for (u64 i = 0; i < ga; i++) inc(args[i]);
   assert(sc->psc!=NULL);
-  Scope* nsc = m_scopeI(body, sc->psc, body->varAm, ga, sc->vars, true);
+  Scope* nsc = m_scopeI(body, sc->psc, body->varAm, ga, args, true);
   scope_dec(sc);
   return execBodyInplaceI(body, nsc, bl);
 }
diff --git a/src/vm.h b/src/vm.h
index 9a2063a..8b15f29 100644
--- a/src/vm.h
+++ b/src/vm.h
@@ -139,6 +139,7 @@ struct Body {
 #endif
   u16 maxPSC;
   u16 varAm;
+  u16 argCopy; // if non-zero, position of copies of the original given variables for the next body
   bool exists; // whether this body represents a non-existing inverse
   i32 varData[]; // length varAm*2; first half is a gid per var (or -1 if not calculated yet), second half is indexes into nameList
 };
-- 
2.43.0


From 335b282f9192af1f66d0cc6597f0e5dad19d76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 11/33] fix: decoding UTF-8 accepted wrong continuation bytes,
 overlong forms and codepoints above 1114111

---
 src/utils/utf.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utils/utf.c b/src/utils/utf.c
index e5b7acb..7ce8735 100644
--- a/src/utils/utf.c
+++ b/src/utils/utf.c
@@ -27,17 +27,20 @@ FORCE_INLINE void utf8_w(char** buf_i, u32 c) {
   *buf_i = buf;
 }
 
+// whether the l bytes starting at p, with l==utf8lenb(*p), encode a codepoint in its shortest form (surrogates are allowed, as they're valid characters)
+static bool utf8_valid(u8* p, i8 l) {
+  for (i8 i = 1; i < l; i++) if ((p[i]>>6) != 0b10) return false;
+  u32 c = utf8_p(p);
+  return l==1 || (l==2? c>=0x80 : l==3? c>=0x800 : c>=0x10000 && c<=0x10FFFF);
+}
+
 B utf8Decode(const char* s, i64 len) {
   u64 sz = 0;
   i64 j = 0;
   while (true) {
-    if (j>=len) {
-      if (j!=len) thrM("Invalid UTF-8");
-      break;
-    }
+    if (j==len) break;
     i8 l = utf8lenb((u8)s[j]);
-    if (l==-1) thrM("Invalid UTF-8");
-    // TODO validate unicode or something
+    if (l==-1 || l>len-j || !utf8_valid((u8*)s+j, l)) thrM("Invalid UTF-8");
     sz++;
     j+= l;
   }
-- 
2.43.0


From 24f8fa05fae7dbcee4a86c76501a6152b30c19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 12/33] =?UTF-8?q?fix:=20=E2=80=A2bit=20functions=20took=20?=
 =?UTF-8?q?characters=20in=20a=20generic=20array=20(such=20as=20a=20list?=
 =?UTF-8?q?=20literal)=20as=20zeros?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/bit.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builtins/bit.c b/src/builtins/bit.c
index 08bfda0..76783cd 100644
--- a/src/builtins/bit.c
+++ b/src/builtins/bit.c
@@ -49,6 +49,9 @@ static CastType getCastType(B e, bool hasVal, B val) { // returns a valid type (
   return (CastType) { s, c };
   
 }
+static B unboxed(B x) { // characters & numbers in a generic array wouldn't be noticed by isCharArr & convert
+  return TI(x,elType)==el_B? squeeze_any(x) : x;
+}
 static B convert(CastType t, B x, char* name) {
   switch (t.s) { default: thrF("•bit._%U: Unsupported data width %i", name, t.s);
     case  1: return taga(toBitArr(x));
@@ -102,6 +105,7 @@ static B set_bit_result(B r, u8 rt, ur rr, usz rl, usz *sh) {
 B bitcast_impl(B el0, B el1, B x) {
   ur xr;
   if (!isArr(x) || (xr=RNK(x))<1) thrM("•bit._cast: 𝕩 must have rank at least 1");
+  x = unboxed(x);
   
   CastType xct = getCastType(el0, true, x);
   CastType rct = getCastType(el1, false, m_f64(0));
@@ -196,6 +200,7 @@ static B bitop1(B f, B x, enum BitOp1 op, char* name) {
   
   ur xr;
   if (!isArr(x) || (xr=RNK(x))<1) thrF("•bit._%U: 𝕩 must have rank at least 1", name);
+  x = unboxed(x);
   
   usz* sh = SH(x);
   usz rws = CTZ(rw);
@@ -264,8 +269,8 @@ static B bitop2(B f, B w, B x, enum BitOp2 op, char* name) {
     ow = t[0]; rw = t[1]; xw = t[2]; ww = t[3];
   }
   
-  if (isAtm(x)) x = m_unit(x);
-  if (isAtm(w)) w = m_unit(w);
+  x = unboxed(isAtm(x)? m_unit(x) : x);
+  w = unboxed(isAtm(w)? m_unit(w) : w);
   ur wr=RNK(w); usz* wsh = SH(w); u64 s = wr==0? ww : ww*(u64)wsh[wr-1];
   ur xr=RNK(x); usz*  sh = SH(x); u64 t = xr==0? xw : xw*(u64) sh[xr-1];
   bool negw = 0; // Negate 𝕨 to subtract from 𝕩
-- 
2.43.0


From cca9b8832d3c730550dc4176d41f3c9de63aafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 13/33] fix: file writes whose buffered data could not be
 written out were reported as successful

---
 src/utils/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/file.c b/src/utils/file.c
index 22696a9..79a5d59 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -251,7 +251,7 @@ void free_chars(CharBuf b) {
 static u64 file_openWriteClose(B path, char* data, u64 len) {
   FILE* f = file_open(path, "write to", "wb");
   u64 written = fwrite(data, 1, len, f);
-  fclose(f);
+  if (fclose(f)!=0) return ~(u64)0; // buffered data couldn't be written out
   return written;
 }
 static void file_checkWritten(B path, u64 written, u64 len) {
-- 
2.43.0


From 1d05075fd49c782d4d48af238b636e3a3495b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 14/33] =?UTF-8?q?fix:=20=E2=80=A2file.MapBytes=20failed=20?=
 =?UTF-8?q?on=20empty=20files?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/utils/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/file.c b/src/utils/file.c
index 79a5d59..8dddf57 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -362,7 +362,7 @@ B mmap_file(B path) {
     close(fd);
     thrM("failed to pre-allocate mmap region");
   }
-  u8* arr_data = mmap(mmap_start+head, len, PROT_READ, MAP_PRIVATE|MAP_FIXED, fd, 0);
+  u8* arr_data = len==0? mmap_start+head : mmap(mmap_start+head, len, PROT_READ, MAP_PRIVATE|MAP_FIXED, fd, 0); // mmap doesn't accept zero length
   if (arr_data==MAP_FAILED) {
     munmap(mmap_start, mmap_size);
     close(fd);
-- 
2.43.0


From e42be5acbef451617270b192bc505b3e0c766109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 15/33] fix: file functions given a path with a null character
 acted on the file named by the part before it

---
 src/utils/file.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/utils/file.c b/src/utils/file.c
index 8dddf57..fd552a0 100644
--- a/src/utils/file.c
+++ b/src/utils/file.c
@@ -17,7 +17,12 @@
 #if !defined(_WIN32)
   typedef char* OsStr;
   #define OS_C(C) C
-  #define toOsStr     toCStr
+  static char* toOsStr(B path) { // doesn't consume
+    u64 len = utf8lenB(path);
+    char* p = toCStr(path);
+    if (strlen(p)!=len) { freeCStr(p); thrM("File path cannot contain null characters"); }
+    return p;
+  }
   #define freeOsStr   freeCStr
   #define OsStrDecode0 utf8Decode0
 #else
@@ -58,9 +63,9 @@ NOINLINE void fileRef_close(FILE* f) {
 
 FILE* file_open(B path, char* desc, char* mode) { // doesn't consume
 #if !defined(_WIN32)
-  char* p = toCStr(path);
+  OsStr p = toOsStr(path);
   FILE* f = fopen(p, mode);
-  freeCStr(p);
+  freeOsStr(p);
 #else
   WCHAR wmode[8] = {0};
   u64 len = strlen(mode);
@@ -346,10 +351,10 @@ static NOINLINE Arr* mmapH_slice(B x, usz s, usz ia) {
 B mmap_file(B path) {
   // TODO count mapped memory in some memory usage counter
 #if !defined(_WIN32)
-  char* p = toCStr(path);
+  OsStr p = toOsStr(path);
   dec(path);
   int fd = open(p, 0);
-  freeCStr(p);
+  freeOsStr(p);
   if (fd==-1) thrF("Failed to open file: %S", strerror(errno));
   u64 len = lseek(fd, 0, SEEK_END);
   
-- 
2.43.0


From c6ec61c4a50efeb3c6ff0459bfe8a012bad0409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 16/33] fix: a REPL line that cannot be compiled adds no
 variables

---
 src/vm.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/vm.c b/src/vm.c
index e6e0b2a..4707a71 100644
--- a/src/vm.c
+++ b/src/vm.c
@@ -240,6 +240,19 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
       i32 h = 0; // stack height
       i32 hM = 0; // max stack height
       i32 mpsc = 0;
+      u32* c;
+      
+      // anything unacceptable in a REPL must be noticed before its scope is extended
+      bool copyArgs = false;
+      c = bc+idx;
+      while (*c!=RETN & *c!=RETD) {
+        if (*c==PRED) { copyArgs = true; break; }
+        c = nextBC(c);
+        if (c-bc-1 >= bcIA) thrM("VM compiler: No RETN/RETD found before end of bytecode");
+      }
+      if (copyArgs && sc && depth==0) thrM("Predicates cannot be used directly in a REPL");
+      if (nsResult==-1 && depth==0 && *c==RETD) thrM("Cannot construct a namespace for a REPL result");
+      
       if (depth==0 && sc && vam > sc->varAm) {
         if (boIA==2) thrM("VM compiler: Full block info must be provided for extending scopes");
         u32 regAm = sc->varAm;
@@ -264,17 +277,7 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
         }
       }
       i32 bcStart = TSSIZE(newBC);
-      u32* c;
-      
-      bool copyArgs = false;
-      c = bc+idx;
-      while (*c!=RETN & *c!=RETD) {
-        if (*c==PRED) { copyArgs = true; break; }
-        c = nextBC(c);
-        if (c-bc-1 >= bcIA) thrM("VM compiler: No RETN/RETD found before end of bytecode");
-      }
       if (copyArgs) {
-        if (sc && depth==0) thrM("Predicates cannot be used directly in a REPL");
         // keep copies of the given variables as the next body should receive them, as this one may modify its own
         for (i32 i = 0; i < argAm; i++) {
           TSADDA(newBC, ((u32[]){ VARO,0,i, VARM,0,vam+i, SETN, POPS }), 8);
@@ -314,7 +317,6 @@ Block* compileBlock(B block, Comp* comp, bool* bDone, u32* bc, usz bcIA, B allBl
             break;
           case RETD: if(h!=1&h!=0) thrM("VM compiler: RETD expected to be called with no more than 1 item on the stack");
             if (nsResult!=0 && depth==0) {
-              if (nsResult==-1) thrM("Cannot construct a namespace for a REPL result");
               assert(nsResult==1);
               if (h==0) thrM("No value for REPL expression to return");
               TSADD(newBC, RETN);
-- 
2.43.0


From 761701dac117b62e555c3b80dc33183d2f25e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 17/33] =?UTF-8?q?fix:=20=E2=80=A2ReBQN=20read=20past=20the?=
 =?UTF-8?q?=20end=20of=20repl=20strings=20that=20are=20a=20prefix=20of=20a?=
 =?UTF-8?q?=20mode?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index 97f79c2..6006b27 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -20,6 +20,7 @@ static bool eqStr(B w, u32* x) {
   SGetU(w)
   u64 i = 0;
   while (x[i]) {
+    if (i==IA(w)) return false;
     B c = GetU(w, i);
     if (!isC32(c) || x[i]!=(u32)c.u) return false;
     i++;
-- 
2.43.0


From 3c5c218a466589b2d86b73330aa8d585a9910b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 18/33] fix: reading an unset variable released values already
 taken off the VM stack

The stack pointer recorded for unwinding was not brought up to date, so values consumed since it last was (such as list elements) were released twice.
---
 src/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm.c b/src/vm.c
index 4707a71..486dd99 100644
--- a/src/vm.c
+++ b/src/vm.c
@@ -832,7 +832,7 @@ B evalBC(Body* b, Scope* sc, Block* bl) { // doesn't consume
       }
       case VARO: { u32 d = *bc++; u32 p = *bc++;
         B l = pscs[d]->vars[p];
-        if(v_checkBadRead(l)) { POS_UPD; v_tagError(l, false); }
+        if(v_checkBadRead(l)) { GS_UPD; POS_UPD; v_tagError(l, false); }
         ADD(inc(l));
         break;
       }
@@ -849,7 +849,7 @@ B evalBC(Body* b, Scope* sc, Block* bl) { // doesn't consume
       }
       case EXTO: { u32 d = *bc++; u32 p = *bc++;
         B l = pscs[d]->ext->vars[p];
-        if(v_checkBadRead(l)) { POS_UPD; v_tagError(l, false); }
+        if(v_checkBadRead(l)) { GS_UPD; POS_UPD; v_tagError(l, false); }
         ADD(inc(l));
         break;
       }
-- 
2.43.0


From 99920d825524f2535584f0816000e9ec0f110947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 19/33] =?UTF-8?q?fix:=20=E2=80=A2GetLine=20cut=20lines=20a?=
 =?UTF-8?q?t=20a=20null=20character=20and=20took=20a=20line=20starting=20w?=
 =?UTF-8?q?ith=20one=20for=20the=20end=20of=20input?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index 6006b27..0c9786f 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -978,11 +978,11 @@ B getLine_c1(B t, B x) {
   char* ln = NULL;
   size_t gl = 0;
   i64 read = getline(&ln, &gl, stdin);
-  if (read<=0 || ln[0]==0) {
+  if (read<=0) {
     if (ln) free(ln);
     return m_c32(0);
   }
-  u64 len = strlen(ln);
+  u64 len = read;
   if (len && ln[len-1]=='\n') len--;
   if (len && ln[len-1]=='\r') len--;
   B r = utf8Decode(ln, len);
-- 
2.43.0


From 8db01312e46e2dfa62b539cca53c7d0f0e611b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 20/33] fix: an empty line in the plain REPL read and could
 write before the start of the line buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c89918e..d6544e6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1106,7 +1106,7 @@ int main(int argc, char* argv[]) {
         i64 read = getline(&ln, &gl, stdin);
         if (read<=0 || ln[0]==0) { if(!silentREPL) printf("\n"); break; }
         if (ln[read-1]==10) ln[--read] = 0;
-        if (ln[read-1]==13) ln[--read] = 0;
+        if (read>0 && ln[read-1]==13) ln[--read] = 0;
         cbqn_runLine(ln, read);
         free(ln);
       }
-- 
2.43.0


From 577a21e4f18c7867b292e36ea9c706208a412ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 21/33] =?UTF-8?q?fix:=20=E2=80=A2SH=20died=20when=20the=20?=
 =?UTF-8?q?process=20closed=20its=20stdin=20early,=20and=20cut=20its=20inp?=
 =?UTF-8?q?ut=20when=20it=20closed=20stdout=20and=20stderr=20first?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index 0c9786f..e735f0d 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1027,6 +1027,7 @@ B toUtf8_c1(B t, B x) {
 #define HAS_SH 1
 #include <spawn.h>
 #include <fcntl.h>
+#include <signal.h>
 #include <sys/wait.h>
 #include <poll.h>
 #if !defined(environ)
@@ -1114,12 +1115,17 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   ps[out_i = plen++] = (pollfd){.fd=p_out[0], .events=POLLIN};
   ps[in_i  = plen++] = (pollfd){.fd=p_in[1], .events=POLLOUT};
   
+  // the process may close its stdin before everything's been written to it
+  struct sigaction pipeIgn = {.sa_handler = SIG_IGN};
+  struct sigaction pipeOld;
+  sigaction(SIGPIPE, &pipeIgn, &pipeOld);
+  
   while (poll(&ps[0], plen - iDone, -1) > 0) {
     shDbg("next poll; revents: out:%d err:%d in:%d\n", ps[0].revents, ps[1].revents, ps[2].revents);
     bool any = false;
     if (ps[out_i].revents & POLLIN) while(true) { i64 len = read(p_out[0], &oBuf[0], bufsz); shDbg("read stdout "N64d"\n",len); if(len<=0) break; else any=true; *oBufIA = len; s_out = vec_join(s_out, incG(oBufObj)); }
     if (ps[err_i].revents & POLLIN) while(true) { i64 len = read(p_err[0], &oBuf[0], bufsz); shDbg("read stderr "N64d"\n",len); if(len<=0) break; else any=true; *oBufIA = len; s_err = vec_join(s_err, incG(oBufObj)); }
-    if (!iDone && ps[in_i].revents & POLLOUT) {
+    if (!iDone && ps[in_i].revents & (POLLOUT|POLLERR)) {
       shDbg("writing "N64u"\n", iLen-iOff);
       ssize_t ww = write(p_in[1], iBuf+iOff, iLen-iOff);
       shDbg("written %zd/"N64u"\n", ww, iLen-iOff);
@@ -1127,6 +1133,8 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
         iOff+= ww;
         if (iOff==iLen) { iDone=true; shClose(p_in[1]); FREE_INPUT; shDbg("writing done\n"); }
         any = true;
+      } else if (errno==EPIPE) {
+        iDone=true; shClose(p_in[1]); FREE_INPUT; shDbg("process closed stdin; only got to write "N64u"/"N64u"\n", iOff, iLen);
       }
     }
     #ifdef __CYGWIN__
@@ -1134,8 +1142,11 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
     #else
     (void)any;
     #endif
-    if (ps[out_i].revents & POLLHUP  &&  ps[err_i].revents & POLLHUP) { shDbg("HUP end\n"); break; }
+    if (ps[out_i].revents & POLLHUP) ps[out_i].fd = -1; // everything has been read
+    if (ps[err_i].revents & POLLHUP) ps[err_i].fd = -1;
+    if (ps[out_i].fd<0 && ps[err_i].fd<0 && iDone) { shDbg("HUP end\n"); break; }
   }
+  sigaction(SIGPIPE, &pipeOld, NULL);
   
   // free output buffer
   assert(reusable(oBufObj));
-- 
2.43.0


From 82555af6b282bbce6af2563c7acfcffa4befcad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 22/33] =?UTF-8?q?fix:=20=E2=80=A2SH=20left=20its=20pipes?=
 =?UTF-8?q?=20open=20when=20the=20process=20could=20not=20be=20started,=20?=
 =?UTF-8?q?and=20reported=20the=20wrong=20reason?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/builtins/sysfn.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index e735f0d..ee09b93 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1058,7 +1058,12 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   int p_in[2];
   int p_out[2];
   int p_err[2];
-  if (pipe(p_in) || pipe(p_out) || pipe(p_err)) thrM("•SH: Failed to create process: Couldn't create pipes"); // TODO these pipes will easily leak
+  i32 pipes = pipe(p_in)? 0 : pipe(p_out)? 1 : pipe(p_err)? 2 : 3;
+  if (pipes != 3) {
+    if (pipes>0) { shClose(p_in [0]); shClose(p_in [1]); }
+    if (pipes>1) { shClose(p_out[0]); shClose(p_out[1]); }
+    thrM("•SH: Failed to create process: Couldn't create pipes");
+  }
   shDbg("pipes: %d %d %d %d %d %d\n", p_in[0], p_in[1], p_out[0], p_out[1], p_err[0], p_err[1]);
   fcntl(p_in[1], F_SETFL, O_NONBLOCK); // make our side of pipes never block because we're working on multiple
   fcntl(p_out[0], F_SETFL, O_NONBLOCK);
@@ -1072,7 +1077,7 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   
   // spawn the actual process
   pid_t pid;
-  if(posix_spawnp(&pid, argv[0], &a, NULL, argv, environ) != 0) thrF("•SH: Failed to create process: %S", strerror(errno));
+  int spawnErr = posix_spawnp(&pid, argv[0], &a, NULL, argv, environ);
   posix_spawn_file_actions_destroy(&a); // used now
   shClose(p_in[0]); // close the useless pipes on this side
   shClose(p_out[1]);
@@ -1081,6 +1086,12 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   // free args
   for (u64 i = 0; i < xia; i++) TFREE(argv[i]);
   TFREE(argv);
+  if (spawnErr != 0) {
+    shClose(p_in[1]);
+    shClose(p_out[0]);
+    shClose(p_err[0]);
+    thrF("•SH: Failed to create process: %S", strerror(spawnErr));
+  }
   
   // allocate stdin
   u64 iOff = 0;
-- 
2.43.0


From 6aa613b6eefd2feb4d69dae97d543cf2f4b5e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 23/33] =?UTF-8?q?fix:=20=E2=80=A2SH=20left=20a=20process?=
 =?UTF-8?q?=20and=20its=20pipes=20behind=20when=20given=20raw=20stdin=20th?=
 =?UTF-8?q?at=20isn't=20characters=20or=20numbers?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Converting stdin can error, so it's done before the process is created.
---
 src/builtins/sysfn.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/builtins/sysfn.c b/src/builtins/sysfn.c
index ee09b93..b696a2b 100644
--- a/src/builtins/sysfn.c
+++ b/src/builtins/sysfn.c
@@ -1054,6 +1054,21 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
   }
   argv[xia] = NULL;
   
+  // allocate stdin; invalid values error before there's a process
+  u64 iOff = 0;
+  char* iBuf;
+  CharBuf iBufRaw;
+  if (iLen>0) {
+    if (raw) {
+      iBufRaw = get_chars(inObj);
+      iBuf = iBufRaw.data;
+    } else {
+      iBuf = TALLOCP(char, iLen);
+      toUTF8(inObj, iBuf);
+    }
+  } else iBuf = "";
+  #define FREE_INPUT do { if (iLen>0) { if (raw) free_chars(iBufRaw); else TFREE(iBuf); } } while(0)
+  
   // create pipes
   int p_in[2];
   int p_out[2];
@@ -1090,24 +1105,10 @@ static i32 sh_core(bool raw, B x, usz xia, B inObj, u64 iLen, B* s_outp, B* s_er
     shClose(p_in[1]);
     shClose(p_out[0]);
     shClose(p_err[0]);
+    FREE_INPUT;
     thrF("•SH: Failed to create process: %S", strerror(spawnErr));
   }
   
-  // allocate stdin
-  u64 iOff = 0;
-  char* iBuf;
-  CharBuf iBufRaw;
-  if (iLen>0) {
-    if (raw) {
-      iBufRaw = get_chars(inObj);
-      iBuf = iBufRaw.data;
-    } else {
-      iBuf = TALLOCP(char, iLen);
-      toUTF8(inObj, iBuf);
-    }
-  } else iBuf = "";
-  #define FREE_INPUT do { if (iLen>0) { if (raw) free_chars(iBufRaw); else TFREE(iBuf); } } while(0)
-  
   bool iDone = false;
   // allocate output buffer
   B s_out = emptyCVec();
-- 
2.43.0


From 77057404cd713f231ca8296f5cc6a3da3c784e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 24/33] fix: FFI: type parser: don't read past the end of a
 representation, nor truncate its letter

---
 src/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffi.c b/src/ffi.c
index 11fd5be..e8fa2b4 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -541,7 +541,7 @@ ParsedType ffi_parseType(u32** src, bool inPtr, bool top) { // parse actual type
   }
   if (parseRepr && *c==':') {
     c++;
-    u8 t = *c++;
+    u32 t = *c; if (t!=0) c++;
     u32 n = readUInt(&c);
     if (t=='i' || t=='c') {
       if (n!=8 & n!=16 & n!=32) { badW: thrF("Type parser: Unsupported width in :%c%i", (u32)t, n); }
-- 
2.43.0


From a396e263e686dfaa096ae3ffc26a64d28aca7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 25/33] =?UTF-8?q?fix:=20FFI:=20i64=20results=20of=20-2?=
 =?UTF-8?q?=E2=8B=8663=20are=20an=20error=20like=20other=20large=20ones?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffi.c b/src/ffi.c
index e8fa2b4..c86a586 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -636,7 +636,7 @@ static NOINLINE B toW(u8 reT, u8 reW, B x) {
   }
 }
 
-FORCE_INLINE u64 i64abs(i64 x) { return x<0?-x:x; }
+FORCE_INLINE u64 i64abs(i64 x) { return x<0? -(u64)x : x; }
 
 #define CPY_UNSIGNED(REL, DIRECT, WIDEN, WEL, NARROW) \
   if (TI(x,elType)<=el_##REL) return taga(DIRECT(x)); \
-- 
2.43.0


From 27f3c463a05fb166aa8cf554df0d7d8921514dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 26/33] fix: FFI: a packed representation writes only the bytes
 of its type

---
 src/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffi.c b/src/ffi.c
index c86a586..2505cc3 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -797,7 +797,7 @@ void genObj(B o, B c, void* ptr, B* sourceObjs) { // doesn't consume
         if (isAtm(c)) thrF("FFI: Expected array corresponding to %R", ty_fmt(o));
         if (IA(c) != mul) thrF("FFI: Bad array corresponding to %R: expected %s elements, got %s", ty_fmt(o), (usz)mul, IA(c));
         B cG = toW(reT, reW, incG(c));
-        memcpy(ptr, tyany_ptr(cG), 8); // may over-read, but CBQN-allocations allow that; may write past the end, but that's fine too? maybe? idk actually; TODO
+        memcpy(ptr, tyany_ptr(cG), elSz);
         decG(cG);
       } else { // *scalar:any / &scalar:any / *:any / **:any
         BQNFFIType* t2 = c(BQNFFIType, o2);
-- 
2.43.0


From a9a2f794c4d8e32abcf8bd27e3b51e9329a509f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 27/33] fix: FFI: f64 NaNs read from native memory can't become
 tagged values

---
 src/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffi.c b/src/ffi.c
index 2505cc3..b4fb2a9 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -865,7 +865,7 @@ static NOINLINE B readSimple(u8 resCType, u8* ptr) {
     case sty_i64: { i64 v = *(i64*)ptr; if (i64abs(v)>=(1ULL<<53)) thrM("FFI: i64 result absolute value ≥ 2⋆53"); return m_f64(v); }
     case sty_u64: { u64 v = *(u64*)ptr; if (       v >=(1ULL<<53)) thrM("FFI: u64 result ≥ 2⋆53");                return m_f64(v); }
     case sty_f32: return m_f64(*(float* )ptr);
-    case sty_f64: return m_f64(*(double*)ptr);
+    case sty_f64: { f64 v = *(f64*)ptr; return m_f64(v==v? v : 0.0/0.0); } // any NaN could otherwise be a tagged value
   }
 }
 
-- 
2.43.0


From 0d6cc3435b6af88a884824deabe728f90116fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 28/33] fix: FFI: pointer objects given to mutable pointer
 arguments are returned as they are

---
 src/ffi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ffi.c b/src/ffi.c
index b4fb2a9..cf7c839 100644
--- a/src/ffi.c
+++ b/src/ffi.c
@@ -907,6 +907,7 @@ B readUpdatedObj(BQNFFIEnt ent, bool anyMut, B** objs) {
     B e = t->a[0].o;
     B f = *((*objs)++);
     if (t->ty==cty_ptr && t->mutPtr) {
+      if (isNsp(f)) return incG(f); // pointer object
       if (isC32(e)) {
         switch(styG(e)) { default: UD;
           case sty_i8: case sty_i16: case sty_i32: case sty_f64: return inc(f);
-- 
2.43.0


From d165033a184063d44eb48817a526df1fbe234a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 29/33] fix: native compiler: an assignment without a value at
 the end of an expression is an error

---
 src/opt/comp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opt/comp.c b/src/opt/comp.c
index c519e41..c99ca12 100644
--- a/src/opt/comp.c
+++ b/src/opt/comp.c
@@ -233,6 +233,7 @@ B nc_generate(B p1) { // consumes
   B e = incG(GetU(p2, p2ia-1));
   usz i = p2ia-1; // pointer to last used thing
   u8 tyE = nc_ty(GetU(p2,p2ia-1));
+  if (tyE>3) thrM("Native compiler: Unexpected assignment");
   bool explicit = tyE==3;
   
   while(i>0) {
-- 
2.43.0


From a9e1fa7635456ffde350c86942872143fd72bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 30/33] fix: native compiler: reading a variable that isn't
 set, or modifying one, is an error

---
 src/opt/comp.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/opt/comp.c b/src/opt/comp.c
index c99ca12..a1aef1c 100644
--- a/src/opt/comp.c
+++ b/src/opt/comp.c
@@ -414,6 +414,23 @@ NOINLINE usz nc_skipSeparators(B tokens, usz i) {
   return i;
 }
 
+static void nc_checkDefined(B bc, u32 varCount, u32 given) { // checks that variables are read only after being set; code runs straight through, so bytecode order is execution order
+  assert(TI(bc,elType)==el_i32);
+  u32* c = (u32*)i32any_ptr(bc);
+  u32* e = c + IA(bc);
+  TALLOC(bool, defined, varCount+1);
+  for (u32 i = 0; i < varCount; i++) defined[i] = i<given;
+  while (c < e) {
+    if (*c==VARO && !defined[c[2]]) thrM("Native compiler: Undefined variable");
+    if (*c==VARM) { // always followed by SETN or SETU
+      if (c[3]==SETU && !defined[c[2]]) thrM("Native compiler: Undefined variable");
+      defined[c[2]] = true;
+    }
+    c+= bL_m[*c];
+  }
+  TFREE(defined);
+}
+
 B nc_parseBlock(B tokens, usz i0, u32 end, bool isBlock, B* objs, u32* varCount) { // returns bytecode
   usz i1;
   #if FAST_NATIVE_COMP
@@ -441,6 +458,7 @@ B nc_parseBlock(B tokens, usz i0, u32 end, bool isBlock, B* objs, u32* varCount)
   if (i1 != IA(tokens)) thrM("Native compiler: Code present after block end");
   B r = TO_GET(r0, 1);
   decG(toFree);
+  nc_checkDefined(r, *varCount, isBlock? 3 : 0);
   return r;
 }
 
-- 
2.43.0


From ae37f403e5f0a333baac4753e7c63044c083798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:02 +0000
Subject: [PATCH 31/33] fix: native compiler: an absent left argument is an
 error where a value is needed

---
 src/opt/comp.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/opt/comp.c b/src/opt/comp.c
index a1aef1c..c5b02aa 100644
--- a/src/opt/comp.c
+++ b/src/opt/comp.c
@@ -168,6 +168,13 @@ usz addObj(B* objs, B val) { // consumes val
 
 i32 nc_ty(B x) { return o2iG(IGetU(x, 0)); }
 
+NOINLINE void nc_ijoinValue(B* w, B e) { // append code of e, which may not evaluate to Nothing
+  B bc = IGetU(e, 1);
+  nc_ijoin(w, bc);
+  bool constant = IA(bc)==2 && o2iG(IGetU(bc,0))==PUSH;
+  if (nc_ty(e)==3 && !constant) nc_iadd(w, CHKV);
+}
+
 B nc_generate(B p1) { // consumes
   // printf("p1: "); printI(p1); printf("\n");
   
@@ -199,7 +206,7 @@ B nc_generate(B p1) { // consumes
         if (e1t==1) {
           B bc = nc_emptyI32Vec();
           nc_ijoin(&bc, IGetU(e1, 1));
-          nc_ijoin(&bc, IGetU(e,  1));
+          nc_ijoinValue(&bc, e);
           nc_iadd(&bc, MD1C);
           decG(e);
           e = m_hvec2(m_f64(0), bc);
@@ -209,9 +216,9 @@ B nc_generate(B p1) { // consumes
           u8 e2t = nc_ty(e2);
           if (!(e2t==0 || e2t==3)) thrM("Native compiler: Improper 2-modifier e2 operand");
           B bc = nc_emptyI32Vec();
-          nc_ijoin(&bc, IGetU(e2, 1));
+          nc_ijoinValue(&bc, e2);
           nc_ijoin(&bc, IGetU(e1, 1));
-          nc_ijoin(&bc, IGetU(e,  1));
+          nc_ijoinValue(&bc, e);
           nc_iadd(&bc, MD2C);
           decG(e);
           e = m_hvec2(m_f64(0), bc);
@@ -244,7 +251,7 @@ B nc_generate(B p1) { // consumes
     if (en1t==4 || en1t==5) { // assignment
       if (!explicit && i!=1) thrM("Native compiler: Assignment in the middle of tacit code");
       B bc = nc_emptyI32Vec();
-      nc_ijoin(&bc, IGetU(e,   1));
+      nc_ijoinValue(&bc, e);
       nc_ijoin(&bc, IGetU(en1, 1));
       if (tyE != o2iG(IGetU(en1, 2))) thrM("Native compiler: Wrong assignment class");
       nc_iadd(&bc, en1t==4? SETN : SETU);
@@ -389,7 +396,8 @@ B nc_parseStatements(B tokens, usz i0, usz* i1, u32 close, B* objs, Vars vars) {
   for (usz i = 0; i < segAm; i++) {
     B segment = GetU(statements, i);
     if (i && close!=U'⟩') nc_iadd(&final, POPS);
-    nc_ijoin(&final, IGetU(segment, 1));
+    if (close==U'⟩' || (close!=')' && i==segAm-1)) nc_ijoinValue(&final, segment);
+    else nc_ijoin(&final, IGetU(segment, 1));
   }
   
   u8 type0 = segAm==1? nc_ty(GetU(statements,0)) : 99;
-- 
2.43.0


From 220b1e00f4e8304cb050a13f6b92d06d984f3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 32/33] fix: JIT: check for Nothing after a constant was kept
 when the constant got folded away

---
 src/jit/nvm_x86_64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jit/nvm_x86_64.c b/src/jit/nvm_x86_64.c
index f61396e..9178bf2 100644
--- a/src/jit/nvm_x86_64.c
+++ b/src/jit/nvm_x86_64.c
@@ -379,6 +379,11 @@ static OptRes opt(u32* bc0) {
         stk[TSSIZE(stk)-1] = SREF(d, pos);
         break;
       }
+      case CHKV: { S(x,0)
+        if (x.p==-1 || q_N(x.v)) goto defIns;
+        cact = 10; // a constant other than · passes; its instruction may be removed, so the check must be too
+        break;
+      }
       case SETN: case SETU: case SETM: case SETC: { S(s,0)
         if (!isVar(s.v)) goto defIns;
         cact = 2; RM(s.p);
-- 
2.43.0


From 90a0b8c7af421248ed85d95f31e9cb0b50b54902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:41 +0000
Subject: [PATCH 33/33] fix: identity of a table of a constant was looked up as
 if it were a function

---
 src/core/derv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/derv.c b/src/core/derv.c
index 84074f4..715f021 100644
--- a/src/core/derv.c
+++ b/src/core/derv.c
@@ -157,7 +157,7 @@ static B m2BI_d(B t, B f, B g) { return m_md2D(c(Md2,t), f, g); }
 
 static B md1D_identity(B t) {
   Md1D* d = c(Md1D, t);
-  if (PRTID(d->m1) == n_tbl) {
+  if (PRTID(d->m1) == n_tbl && isFun(d->f)) {
     B i = TI(d->f,identity)(d->f);
     return q_N(i)? i : m_unit(i);
   }
-- 
2.43.0

