From 273fc75a4f7188be690c3f377e61cdd6e68776be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 001/107] fix: sim86: keep registers 16-bit on the host so
 shifts and divisions see 16-bit operands

---
 sim86.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0589925..e3b64e1 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,8 +93,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SEXT(x) x
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SEXT(x) ((short)(x))
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -775,6 +777,12 @@ int main(int argc, char** argv)
             *insttext = 0;
         }
 
+#ifndef __SCC__
+        // Host integers are wider than the registers
+        for (i = 0; i < 8; ++i)
+            reg[i] = TRIM(reg[i]);
+#endif
+
         modrm = -1;
         addr = 0;
         dsize = 1;
@@ -1067,7 +1075,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
+                        res = SEXT(v)>>1;
                         c = v&1;
                         break;
                     default:
@@ -1076,7 +1084,7 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
                 }
                 break;
             case 0xD3:
@@ -1098,7 +1106,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
+                        res = SEXT(v) >> a;
                         if (a) c = (v >> (a-1)) & 1;
                         break;
                     default:
@@ -1107,7 +1115,7 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
                 }
                 break;
             case 0xE8:
@@ -1162,10 +1170,10 @@ int main(int argc, char** argv)
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SEXT(ReadRM());
+                            assert(SEXT(reg[R_DX]) == (reg[R_AX] & 0x8000 ? -1 : 0));
+                            reg[R_DX] = SEXT(reg[R_AX]) % d;
+                            reg[R_AX] = SEXT(reg[R_AX]) / d;
                         }
                         break;
                     default:
-- 
2.43.0


From 4cf8d4e5fbee188460d3a755ad76b7f2a831774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 002/107] fix: sim86: set ZF from the low byte of 8-bit ALU
 results

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index e3b64e1..fde7b05 100644
--- a/sim86.c
+++ b/sim86.c
@@ -376,7 +376,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask | (mask - 1))))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From 3efaefca6587ad8e5ddfdaa530e410f394baf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 003/107] fix: sim86: INC/DEC set the result flags (all but
 carry)

---
 sim86.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index fde7b05..d771145 100644
--- a/sim86.c
+++ b/sim86.c
@@ -519,23 +519,24 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+// INC/DEC don't modify carry
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int c = flags & FC;
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | c;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
-- 
2.43.0


From c4fe1455a6abb00fac39761440dfe888b0073620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 004/107] fix: sim86: NEG sets the flags

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index d771145..4ac2dbc 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1148,7 +1148,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From bd77fbad1086c73f90a1b03a8b45822d4312d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 005/107] fix: sim86: CMPSB/SCASB compare bytes and keep the
 flags when CX is 0

---
 sim86.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 4ac2dbc..d0133c9 100644
--- a/sim86.c
+++ b/sim86.c
@@ -963,12 +963,14 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1026,11 +1028,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 855025f7ee7dd6d8821451987a0dd30c2d222f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 006/107] fix: sim86: honour segment overrides on MOV AX,[mem]
 and string instructions

---
 sim86.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sim86.c b/sim86.c
index d0133c9..4ffdce1 100644
--- a/sim86.c
+++ b/sim86.c
@@ -861,6 +861,9 @@ int main(int argc, char** argv)
             reg[r] = Imm16();
             if (verbose) sprintf(insttext, "MOV %s, 0x%04X", RegName(inst-0xb8), reg[r]);
         } else {
+            // Direct memory moves and string sources default to DS
+            if (inst >= 0xa0 && inst < 0xae && seg == -1)
+                seg = SR_DS;
             switch (inst) {
             case 0x80:
             case 0x81:
@@ -922,15 +925,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(seg, Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(seg, Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(seg, Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(seg, Off);
                         }
                     }
                 }
@@ -940,7 +943,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                        Write8(SR_ES, reg[R_DI], Read8(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -952,7 +955,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                        Write16(SR_ES, reg[R_DI], Read16(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -965,7 +968,7 @@ int main(int argc, char** argv)
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     dsize = 0;
                     while (reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                        DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -1012,7 +1015,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(seg, reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
@@ -1020,7 +1023,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(seg, reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
-- 
2.43.0


From bd7dd021ed8830299e7ea19956aa98f605b1caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 007/107] fix: sim86: build the same command tail with and
 without options, CR right after it

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 4ffdce1..25c3d29 100644
--- a/sim86.c
+++ b/sim86.c
@@ -744,11 +744,11 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
+        if (i != argi + 1) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From e7b0c840df1816ab343651cb9f83f50501c4fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 008/107] fix: sim86: shift flags (SF, OF, unchanged for a
 count of 0) and counts above 15

---
 sim86.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 25c3d29..e1015c8 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,7 +93,7 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
-#define SEXT(x) x
+#define SEXT(x) ((int)(x))
 #else
 #define TRIM(x) ((x)&0xffff)
 #define SEXT(x) ((short)(x))
@@ -1069,17 +1069,19 @@ int main(int argc, char** argv)
                 {
                     ModRM();
                     const unsigned v = ReadRM();
-                    unsigned res, c;
+                    unsigned res, c, o = 0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, 1
                         if (verbose) sprintf(insttext, "SHL %s, 1", rmtext);
                         res = v << 1;
                         c = v & 0x8000;
+                        o = (v ^ res) & 0x8000;
                         break;
                     case 5: // SHR R/M16, 1
                         if (verbose) sprintf(insttext, "SHR %s, 1", rmtext);
                         res = v>>1;
                         c = v&1;
+                        o = v & 0x8000;
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
@@ -1092,14 +1094,18 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
+                    if (o) flags |= FO;
                     if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
                 }
                 break;
             case 0xD3:
                 {
                     ModRM();
                     const unsigned v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
+                    unsigned a = reg[R_CX]&0xff;
+                    if (a > 31)
+                        a = 31; // Everything is shifted out
                     unsigned res, c=0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, CL
@@ -1115,15 +1121,18 @@ int main(int argc, char** argv)
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
                         res = SEXT(v) >> a;
-                        if (a) c = (v >> (a-1)) & 1;
+                        if (a) c = (SEXT(v) >> (a-1)) & 1;
                         break;
                     default:
                         Fatal("TODO: D3/%d", modrm>>3&7);
                     }
                     WriteRM(res);
+                    if (!a)
+                        break; // Flags are unaffected
                     flags = 0;
                     if (c) flags |= FC;
                     if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
                 }
                 break;
             case 0xE8:
-- 
2.43.0


From af8bf3d5c9d32bbf3a56a12ba23b93dbd70cd5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 009/107] fix: scc: spill the stored left operand before
 branching in ?:, && and ||

---
 scc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scc.c b/scc.c
index 9f267b3..81f4c58 100644
--- a/scc.c
+++ b/scc.c
@@ -1400,6 +1400,16 @@ void FlushPushAx(void)
     }
 }
 
+// Move the stored value (if any) from BX to the stack
+void SpillStoredVal(void)
+{
+    if (RegUse) {
+        RegUse = 0;
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+    }
+}
+
 int EmitChecks(void)
 {
     if (IsDeadCode)
@@ -2354,6 +2364,10 @@ void HandleCondOp(void)
         return;
     }
 
+    if (CurrentType != VT_BOOL)
+        ToBool();
+    // All paths must agree on where the left hand side of an outer operator is
+    SpillStoredVal();
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
     DoCondHasExpr(FalseLabel, 1);
@@ -2436,6 +2450,7 @@ void ParseExpr1(int OuterPrecedence)
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
                 ToBool();
+            SpillStoredVal();
             EmitJcc(CurrentVal ^ !Temp, LEnd);
         } else {
             LEnd = -1;
-- 
2.43.0


From 10c6d8fbac32dde0b5c402871fbbb63bc60eaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 010/107] fix: scc: ++/-- on pointers to objects larger than
 127 bytes

---
 scc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 81f4c58..faea8cd 100644
--- a/scc.c
+++ b/scc.c
@@ -1584,12 +1584,15 @@ void DoIncDecOp(int Op, int Post)
     }
     Op = Op == TOK_MINUSMINUS;
 
-    if (Size > 1) {
+    if (Size > 127) {
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
+    } else if (Size > 1) {
         EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
         Output1Byte(Size);
-        return;
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From 7207d41092190bb37e754556a6b8b0ad70908fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 011/107] fix: scc: value of prefix ++/-- on lvalues accessed
 through a pointer

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index faea8cd..0901f65 100644
--- a/scc.c
+++ b/scc.c
@@ -1593,6 +1593,8 @@ void DoIncDecOp(int Op, int Post)
     } else {
         EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
+    if (!Post && !Loc)
+        Output1Byte(I_XCHG_AX|R_SI); // Still an lvalue, keep its address in AX
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From 6d76a934b942198599c28b9a6062df64bf5b6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 012/107] fix: scc: do-while with a constant true condition
 must loop

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 0901f65..69a5607 100644
--- a/scc.c
+++ b/scc.c
@@ -2306,7 +2306,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From f82529ff887da9c0d827eefa5043ef53da0dc6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 013/107] fix: scc: multiplication by constant 0

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 69a5607..9d6cdde 100644
--- a/scc.c
+++ b/scc.c
@@ -1273,7 +1273,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || (Scale & (Scale-1))) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From 073b5830a0ab824871c53ceef19abf2dba09f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 014/107] fix: scc: signed division by a power of two rounds
 towards zero, signed pointer differences

---
 scc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 9d6cdde..11561af 100644
--- a/scc.c
+++ b/scc.c
@@ -1295,13 +1295,14 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    if (Amm == 1)
+        return;
+    if (!IsUnsignedOp || (Amm & (Amm-1))) {
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
-        const int ModRM = IsUnsignedOp ? MODRM_REG|SHROT_SHR<<3 : MODRM_REG|SHROT_SAR<<3;
         while (Amm /= 2) {
-            Output2Bytes(0xD1, ModRM);
+            Output2Bytes(0xD1, MODRM_REG|SHROT_SHR<<3);
         }
     }
 }
@@ -2644,6 +2645,7 @@ DoNormal:
         }
 BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
+            IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-- 
2.43.0


From 59032341bcfb11bb8afc8cbd627b042ccdb8b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 015/107] fix: scc: load constant operands of &&, || and !

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 11561af..b1628c9 100644
--- a/scc.c
+++ b/scc.c
@@ -2005,7 +2005,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From 4ceea7062459c3f7744ba87a22b51c1bb4e0f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 016/107] fix: scc: only rely on ZF when the last instruction
 set it from the value in AX

---
 scc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index b1628c9..67d6d90 100644
--- a/scc.c
+++ b/scc.c
@@ -1140,6 +1140,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0; // There may be other ways to get here
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -1238,6 +1239,13 @@ void EmitStoreConst(int Size, int Loc, int Val)
         Output1Byte(CurrentVal>>8);
 }
 
+// The instruction just emitted has set ZF according to AX
+void ZFFromAX(void)
+{
+    if (!IsDeadCode)
+        LastZFInst = CodeAddress;
+}
+
 void EmitAddRegConst(int r, int Amm)
 {
     if (!Amm) return;
@@ -1259,6 +1267,8 @@ void EmitAddRegConst(int r, int Amm)
             Output2Bytes(I_ALU_RM16_IMM16, MODRM_REG|Op);
         OutputWord(Amm);
     }
+    if (!r)
+        ZFFromAX();
 }
 
 void EmitMovRR(int d, int s)
@@ -2185,6 +2195,8 @@ int GetSimpleALU(int Op)
 
 void FinishOp(int Inst)
 {
+    if (!(Inst & 0x80)) // Not for MUL and shifts
+        ZFFromAX();
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
@@ -2566,7 +2578,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2649,7 +2660,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From e5ebb7b7c12eaff0e76287b77e1c0d0cff55858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 017/107] fix: scc: scale the operand of += and -= on pointers

---
 scc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scc.c b/scc.c
index 67d6d90..1d7fb0c 100644
--- a/scc.c
+++ b/scc.c
@@ -2544,6 +2544,15 @@ void ParseExpr1(int OuterPrecedence)
                 Size = 1;
             }
             if (Op != '=') {
+                if (LhsType & VT_PTRMASK) {
+                    Temp = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (CurrentType == (VT_INT|VT_LOCLIT)) {
+                        CurrentVal *= Temp;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(Temp);
+                    }
+                }
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
-- 
2.43.0


From 79a592331e983329700f77c77fd12c77ed229d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 018/107] fix: scc: an assignment has the type and value of the
 object assigned to

---
 scc.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/scc.c b/scc.c
index 1d7fb0c..e8cd1a4 100644
--- a/scc.c
+++ b/scc.c
@@ -2568,9 +2568,7 @@ void ParseExpr1(int OuterPrecedence)
                         }
                         if (!LhsLoc)
                             Output1Byte(I_XCHG_AX|R_DI);
-                        CurrentType = LhsType | LhsLoc | VT_LVAL;
-                        CurrentVal = LhsVal;
-                        continue;
+                        goto AssignLval;
                     }
                 }
                 if (!Temp) {
@@ -2587,19 +2585,28 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-            } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
+            } else if (CurrentType == (VT_INT|VT_LOCLIT) && LhsLoc) {
                 // Constant assignment
-                if (!LhsLoc) {
-                    GetVal();
-                    Output1Byte(I_STOSB-1+Size);
-                } else {
-                    EmitStoreConst(Size, LhsLoc, LhsVal);
-                }
-                continue;
+                EmitStoreConst(Size, LhsLoc, LhsVal);
+                if (LhsType == VT_INT)
+                    continue;
+                goto AssignLval;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+            if (Size == 1) {
+                if (LhsLoc) {
+            AssignLval:
+                    LhsType |= LhsLoc | VT_LVAL;
+                } else {
+                    EmitExtend(LhsType&VT_UNSIGNED);
+                    LhsType = VT_INT;
+                }
+            }
+            CurrentType      = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
+            CurrentVal       = LhsVal;
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 5da89de80633561afb9b4b4940138dbc7a2472c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 019/107] fix: scc: ?: with conditions or operands of different
 signedness as results

---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index e8cd1a4..e366129 100644
--- a/scc.c
+++ b/scc.c
@@ -2343,7 +2343,7 @@ void ForceToReg(void)
         LvalToRval();
 
     const int Loc = CurrentType & VT_LOCMASK;
-    if (!Loc) return;
+    if (!Loc && CurrentType != VT_BOOL) return;
     if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
         EmitLoadAddr(R_AX, Loc, CurrentVal);
         CurrentType &= ~VT_LOCMASK;
@@ -2401,13 +2401,16 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
+        TypeDiff = CurrentType;
         CurrentType = LhsType;
         LvalToRval();
+        if (TypeDiff == (VT_UNSIGNED|VT_INT))
+            CurrentType |= VT_UNSIGNED;
         EmitLocalLabel(RealEnd);
     } else {
         EmitLocalLabel(EndLabel);
-- 
2.43.0


From 6f4d4065689a6a62225f9246c0746d1e54dcc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 020/107] fix: scc: signedness of the result of arithmetic and
 shifts

---
 scc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scc.c b/scc.c
index e366129..8769530 100644
--- a/scc.c
+++ b/scc.c
@@ -2521,6 +2521,8 @@ void ParseExpr1(int OuterPrecedence)
         }
 
         IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        if (Op == TOK_LSH || Op == TOK_RSH)
+            IsUnsignedOp = LhsType & VT_UNSIGNED;
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2678,6 +2680,8 @@ BinOpOut:
             IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
+        } else if ((CurrentType & ~VT_UNSIGNED) == VT_INT) {
+            CurrentType = IsUnsignedOp ? VT_UNSIGNED|VT_INT : VT_INT;
         }
     } while (OperatorPrecedence <= OuterPrecedence);
 }
-- 
2.43.0


From c7a636aaf7ab85d85c3b8356726bd9b8a3458786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 021/107] fix: scc: evaluate constant expressions in 16 bits on
 the host too, diagnose division by 0

---
 scc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 8769530..8ee3f22 100644
--- a/scc.c
+++ b/scc.c
@@ -530,7 +530,11 @@ void Fail(void)
     Fatal("Check failed");
 }
 
-#ifndef __SCC__
+// Constants are 16-bit
+#ifdef __SCC__
+int Sext16(int Val) { return Val; }
+#else
+#define Sext16(Val) ((short)(Val))
 #define Fail() do { Printf("In %s:%d: ", __FILE__, __LINE__); Fail(); } while (0)
 #endif
 
@@ -1736,7 +1740,7 @@ void ParsePrimaryExpression(void)
         return;
     case TOK_NUM:
         CurrentType = VT_LOCLIT | VT_INT;
-        CurrentVal  = TokenNumVal;
+        CurrentVal  = Sext16(TokenNumVal);
         GetToken();
         return;
     case TOK_STRLIT:
@@ -2061,7 +2065,7 @@ void ParseUnaryExpression(void)
             }
             if (Op == '-') {
                 if (IsConst) {
-                    CurrentVal = -CurrentVal;
+                    CurrentVal = Sext16(-CurrentVal);
                 } else {
                     if ((CurrentType&~VT_UNSIGNED) != VT_INT) Fail();
                     Output2Bytes(0xF7, 0xD8); // NEG AX
@@ -2285,6 +2289,8 @@ void DoRhsConstBinOp(int Op)
 
 int DoConstBinOp(int Op, int L, int R)
 {
+    if (!R && (Op == '/' || Op == '%'))
+        Fatal("Division by zero");
     switch (Op) {
     case '+':     return L + R;
     case '-':     return L - R;
@@ -2501,7 +2507,7 @@ void ParseExpr1(int OuterPrecedence)
 
         if (LhsLoc == VT_LOCLIT && CurrentType == (VT_LOCLIT|VT_INT)) {
             if (LhsType != VT_INT) Fail();
-            CurrentVal = DoConstBinOp(Op, LhsVal, CurrentVal);
+            CurrentVal = Sext16(DoConstBinOp(Op, LhsVal, CurrentVal));
             continue;
         }
 
-- 
2.43.0


From bd3323552e1094185535ca79b7babe81dedc7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 022/107] fix: scc: adding/subtracting the constant -32768 when
 self-hosted

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 8ee3f22..0855ee8 100644
--- a/scc.c
+++ b/scc.c
@@ -1258,11 +1258,11 @@ void EmitAddRegConst(int r, int Amm)
         Amm = -Amm;
         Op += I_SUB;
     }
-    if (Amm <= 2) {
+    if ((unsigned)Amm <= 2) {
         Output1Byte(Op = (Op&15)|I_INC);
         if (--Amm)
             Output1Byte(Op);
-    } else if (Amm < 128) {
+    } else if ((unsigned)Amm < 128) {
         Output3Bytes(I_ALU_RM16_IMM8, MODRM_REG|Op, Amm);
     } else {
         if (!r)
-- 
2.43.0


From ae36fb52a2efbf1e10622b19fbd3e5e728c256f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 023/107] fix: scc: convert the value of functions returning
 char

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 0855ee8..184637b 100644
--- a/scc.c
+++ b/scc.c
@@ -1912,6 +1912,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType&VT_UNSIGNED);
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From c492610c10851b51c68e22a0c33f1730e7fdc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 024/107] fix: scc: address of functions that are defined later

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 184637b..e79a438 100644
--- a/scc.c
+++ b/scc.c
@@ -1073,11 +1073,11 @@ void DoFixups(int r, int relative)
     while (r) {
         int o = 0;
         f = CodeAddress;
-        if (relative) {
+        c = &Output[r - CODESTART];
+        if (relative && (c[-1]&0xf8) != I_MOV_R_IMM16) { // Only the address of a function is loaded to a register
             o = r + 2;
             f -= o;
         }
-        c = &Output[r - CODESTART];
         r = c[0]|c[1]<<8;
         if (!c[-1]) {
             // Fused Jcc/JMP
-- 
2.43.0


From 2347563891f281f59c8e187cfaebef9a268ef5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 025/107] fix: scc: type of declarators following arrays or
 functions, typedef of arrays and pointers

---
 scc.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/scc.c b/scc.c
index e79a438..b046ede 100644
--- a/scc.c
+++ b/scc.c
@@ -2709,13 +2709,8 @@ void ParseAssignmentExpression(void)
 
 void SaveBaseType(void)
 {
-    BaseType      = CurrentType & ~VT_PTRMASK;
+    BaseType      = CurrentType;
     BaseTypeExtra = CurrentTypeExtra;
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY) {
-        struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-        BaseType      = AD->Type;
-        BaseTypeExtra = AD->TypeExtra;
-    }
 }
 
 void ParseDeclarator(int* Id);
@@ -2938,8 +2933,8 @@ Redo:
         GetToken();
         if (ArrayCount == ARRAY_MAX) Fail();
         struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & VT_STATIC;
-        AD->Type      = CurrentType & ~VT_STATIC;
+        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
+        AD->Type      = CurrentType & ~(VT_STATIC|VT_TYPEDEF);
         AD->TypeExtra = CurrentTypeExtra;
         if (TokenType != ']') {
             ParseExpr();
@@ -2988,9 +2983,8 @@ struct VarDecl* ParseFirstDecl(void)
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
-    struct VarDecl* VD = DoDecl();
     SaveBaseType();
-    return VD;
+    return DoDecl();
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
-- 
2.43.0


From a676ac9515b42b17946fb4b12cc32565175b0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 026/107] fix: scc: don't peek past the end of the code when
 resolving jumps

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index b046ede..afbe84c 100644
--- a/scc.c
+++ b/scc.c
@@ -1088,7 +1088,7 @@ void DoFixups(int r, int relative)
                 c[-2] = f+3;
                 // If the next instruction is a known jump / return, copy it in
                 c[1]  = I_XCHG_AX;
-                switch (c[2]) {
+                if (f) switch (c[2]) {
                 case I_JMP_REL8:
                     if (((signed char *)c)[3] > 0x7f-3)
                         break;
-- 
2.43.0


From afa20d7bc30f26357edbc4d08ee74e101aed13a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 027/107] fix: scc: integer + pointer scales the integer

---
 scc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scc.c b/scc.c
index afbe84c..8edd995 100644
--- a/scc.c
+++ b/scc.c
@@ -2628,6 +2628,22 @@ void ParseExpr1(int OuterPrecedence)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
             CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
+        } else if (Op == '+' && (CurrentType & VT_BASEMASK) == VT_ARRAY) {
+            LvalToRval();
+        }
+        if (Op == '+' && (CurrentType & VT_PTRMASK)) {
+            // Integer + pointer
+            GetVal();
+            Temp = SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
+            if (LhsLoc) {
+                EmitAddRegConst(R_AX, LhsVal * Temp);
+            } else {
+                Output1Byte(I_XCHG_AX|R_SI);
+                GetStoredVal(R_AX);
+                EmitScaleAx(Temp);
+                Output2Bytes(I_ADD|1, MODRM_REG|R_SI<<3);
+            }
+            continue;
         }
         if (CurrentType == (VT_LOCLIT|VT_INT)) {
             if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
-- 
2.43.0


From ace8658112ce7263c7c4abda49092834334d3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 028/107] fix: scc: unevaluated and unreachable expressions
 must not disturb the register and stack tracking

---
 scc.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/scc.c b/scc.c
index 8edd995..4ac4f08 100644
--- a/scc.c
+++ b/scc.c
@@ -1150,6 +1150,13 @@ void EmitLocalLabel(int l)
     Labels[l].Ref = 0;
 }
 
+// Emit label used inside an expression (can't be reached if it hasn't been referenced from live code)
+void EmitExprLabel(int l)
+{
+    if (!IsDeadCode || Labels[l].Ref)
+        EmitLocalLabel(l);
+}
+
 const char StaticName[] = "@static";
 void EmitGlobalLabel(struct VarDecl* vd)
 {
@@ -1802,6 +1809,8 @@ void ParseAssignmentExpression(void);
 int GetStoredVal(int Reg)
 {
     if (Pending&PENDING_PUSHAX) Fail();
+    if (IsDeadCode) // Nothing was stored
+        return Reg;
     if (RegUse) {
         RegUse = 0;
         switch (Reg) {
@@ -2110,8 +2119,11 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
+            const int WasDead    = IsDeadCode;
+            const int OldPending = Pending;
+            const int OldRegUse  = RegUse;
             IsDeadCode = 1;
+            Pending = RegUse = 0;
             if (TokenType == '(') {
                 GetToken();
                 if (IsTypeStart()) {
@@ -2126,6 +2138,8 @@ void ParseUnaryExpression(void)
             }
             if (!IsDeadCode) Fail();
             IsDeadCode = WasDead;
+            Pending    = OldPending;
+            RegUse     = OldRegUse;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2368,10 +2382,15 @@ void ParseMaybeDead(int Live)
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
         const int WasDead  = IsDeadCode;
+        const int OldPend  = Pending;
+        const int OldReg   = RegUse;
         IsDeadCode = 1;
+        Pending = RegUse = 0;
         ParseAssignmentExpression();
         if (!IsDeadCode) Fail();
         IsDeadCode       = WasDead;
+        Pending          = OldPend;
+        RegUse           = OldReg;
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
@@ -2401,7 +2420,7 @@ void HandleCondOp(void)
     const int LhsType = CurrentType;
     EmitJmp(EndLabel);
     Expect(':');
-    EmitLocalLabel(FalseLabel);
+    EmitExprLabel(FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
     // Check if type unification is needed.
@@ -2412,15 +2431,15 @@ void HandleCondOp(void)
         const int RealEnd = MakeLabel();
         LvalToRval();
         EmitJmp(RealEnd);
-        EmitLocalLabel(EndLabel);
+        EmitExprLabel(EndLabel);
         TypeDiff = CurrentType;
         CurrentType = LhsType;
         LvalToRval();
         if (TypeDiff == (VT_UNSIGNED|VT_INT))
             CurrentType |= VT_UNSIGNED;
-        EmitLocalLabel(RealEnd);
+        EmitExprLabel(RealEnd);
     } else {
-        EmitLocalLabel(EndLabel);
+        EmitExprLabel(EndLabel);
     }
 }
 
@@ -2518,11 +2537,11 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsVal != CurrentVal) {
                 Output2Bytes(0xB0, !Temp);
                 Output2Bytes(0x70|(CurrentVal^Temp), 2);
-                EmitLocalLabel(LEnd);
+                EmitExprLabel(LEnd);
                 Output3Bytes(0xB0, Temp, 0x98);
                 CurrentType = VT_INT;
             } else {
-                EmitLocalLabel(LEnd);
+                EmitExprLabel(LEnd);
             }
             continue;
         }
-- 
2.43.0


From 691d467ff98238ffd4d7869d38f429f7941c8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 029/107] fix: scc: count the newline directly after a token

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 4ac4f08..035d14d 100644
--- a/scc.c
+++ b/scc.c
@@ -561,6 +561,8 @@ int SkipWhitespace(void)
 {
     for (;;) {
         if (CurChar <= ' ') {
+            if (CurChar == '\n')
+                ++Line;
             while ((CurChar = *InBufPtr++) <= ' ') {
                 switch (CurChar) {
                 case ' ':  continue;
-- 
2.43.0


From 911ccd4c1cf26b4d53c1c1a2769b714000c2087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 030/107] fix: scc: diagnose goto to undefined labels, unnamed
 parameters in function definitions

---
 scc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 035d14d..4954f7f 100644
--- a/scc.c
+++ b/scc.c
@@ -3395,6 +3395,7 @@ void ParseExternalDefition(void)
         Scopes[0] -= GLOBAL_RESERVE;
         for (i = 0; i < ArgsCount; ++i) {
             struct Argument* A = &Args[i];
+            if (A->Id < 0) Fail();
             CurrentType = A->Type | VT_LOCOFF;
             CurrentTypeExtra = A->TypeExtra;
             struct VarDecl* arg = AddVarDecl(A->Id);
@@ -3416,9 +3417,10 @@ void ParseExternalDefition(void)
         }
         Output2Bytes(I_POP|R_BP, I_RET);
 
-        // When debugging:
-        //int l;for (l = 0; l < LocalLabelCounter; ++l)if (!(Labels[l].Ref == 0)) Fail();
-        LocalLabelCounter = 0;
+        while (LocalLabelCounter) {
+            if (Labels[--LocalLabelCounter].Ref)
+                Fatal("Undefined label");
+        }
         NamedLabelCount = 0;
         PopScope();
         return;
-- 
2.43.0


From 000223580426585a95049b804d1f3ce8a9d186c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 031/107] fix: scc: static locals that are never used

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 4954f7f..8212a1c 100644
--- a/scc.c
+++ b/scc.c
@@ -1676,6 +1676,7 @@ void PopScope(void)
             // Move static variable for real to global scope
             CurrentType = vd->Type;
             CurrentTypeExtra = vd->TypeExtra;
+            BssSize += SizeofCurrentType();
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3329,7 +3330,6 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-                BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
-- 
2.43.0


From 20858085e91bcce07f21867f1a812b3f0e1dd6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 032/107] fix: scc: size of static local arrays and structs
 whose type has gone out of scope

---
 scc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 8212a1c..f57ab00 100644
--- a/scc.c
+++ b/scc.c
@@ -1674,9 +1674,10 @@ void PopScope(void)
             continue;
         if (vd->Ref) {
             // Move static variable for real to global scope
-            CurrentType = vd->Type;
-            CurrentTypeExtra = vd->TypeExtra;
-            BssSize += SizeofCurrentType();
+            // Its type goes out of scope, so keep just the size
+            CurrentType = VT_LOCGLOB|VT_CHAR;
+            CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
+            BssSize += CurrentTypeExtra;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3551,7 +3552,7 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-        CodeAddress += SizeofType(CurrentType, vd->TypeExtra);
+        CodeAddress += vd->Id < 0 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
     }
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
-- 
2.43.0


From dfe398398af803cafa75bb10aae7da5d693c8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 033/107] fix: scc: the value of a struct assignment is the
 object assigned to

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index f57ab00..8d19975 100644
--- a/scc.c
+++ b/scc.c
@@ -2569,8 +2569,10 @@ void ParseExpr1(int OuterPrecedence)
                 else
                     Output1Byte(I_XCHG_AX|R_SI);
                 EmitMovRImm(R_CX, SizeofCurrentType());
+                if (!LhsLoc)
+                    EmitMovRR(R_AX, R_DI);
                 Output2Bytes(0xF3, 0xA4); // REP MOVSB
-                continue;
+                goto AssignLval;
             }
 
             LvalToRval();
-- 
2.43.0


From afe909e154600f5e5ffa135fdffc3a32f0eab563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 034/107] fix: scc: pointer minus integer is a pointer, only
 pointer differences are divided

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 8d19975..aa18ddb 100644
--- a/scc.c
+++ b/scc.c
@@ -2677,6 +2677,7 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsType & VT_PTRMASK) {
                 CurrentVal *= LhsPointeeSize;
                 CurrentType = LhsType;
+                LhsPointeeSize = 0;
             }
 RhsConst:
             DoRhsConstBinOp(Op);
@@ -2694,10 +2695,11 @@ RhsConst:
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if (LhsPointeeSize && (Op == '+' || Op == '-') && !(CurrentType & VT_PTRMASK)) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
+                    LhsPointeeSize = 0;
                 } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
-- 
2.43.0


From 273d43e0945e054394e6ddb832b458a4313e19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 035/107] fix: scc: accept constant valued right operands with
 side effects

---
 scc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index aa18ddb..589bc8b 100644
--- a/scc.c
+++ b/scc.c
@@ -2670,8 +2670,7 @@ void ParseExpr1(int OuterPrecedence)
             }
             continue;
         }
-        if (CurrentType == (VT_LOCLIT|VT_INT)) {
-            if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
+        if (CurrentType == (VT_LOCLIT|VT_INT) && ((Pending&PENDING_PUSHAX)|IsDeadCode)) {
             Pending &= ~PENDING_PUSHAX;
             CurrentType = VT_INT;
             if (LhsType & VT_PTRMASK) {
-- 
2.43.0


From d9362bc566691798908bf9fec0cd603e41cd4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 036/107] fix: scc: case labels after declarations in a switch
 body get the right stack level

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 589bc8b..b1e4014 100644
--- a/scc.c
+++ b/scc.c
@@ -3143,6 +3143,8 @@ Redo:
             EmitJmp(NextSwitchCase);
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
+            if (LocalOffset != BStackLevel)
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset);
             NextSwitchStmt = -1;
             goto Redo;
         }
-- 
2.43.0


From 63fb5e48931395c17cfaf4e7c140cf0c1aed993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 037/107] fix: scc: function pointer parameters do not disturb
 the list of arguments, functions can be passed

---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index b1e4014..a39beff 100644
--- a/scc.c
+++ b/scc.c
@@ -1901,7 +1901,7 @@ void ParsePostfixExpression(void)
                         EmitStoreConst(2, VT_LOCOFF, LocalOffset + ArgSize);
                     } else {
                         GetVal();
-                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & VT_PTRMASK)) Fail();
+                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & (VT_PTRMASK|VT_FUN))) Fail();
                         EmitStoreAx(2, VT_LOCOFF, LocalOffset + ArgSize);
                     }
                     ArgSize += 2;
@@ -2944,8 +2944,9 @@ Redo:
         GetToken();
         const int T = CurrentType | VT_FUN;
         const int E = CurrentTypeExtra;
+        const int C = IsFunPtr ? ArgsCount : 0; // The arguments of a function pointer are not needed
 
-        ArgsCount = 0;
+        ArgsCount = C;
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
@@ -2966,6 +2967,8 @@ Redo:
             break;
         }
         Expect(')');
+        if (IsFunPtr)
+            ArgsCount = C;
         CurrentType      = T;
         CurrentTypeExtra = E;
         return;
-- 
2.43.0


From 69d0c162c7e9bcdceb2496506e04914d67d51f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 038/107] fix: scc: the value of a function pointer variable is
 its contents

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index a39beff..a9178b7 100644
--- a/scc.c
+++ b/scc.c
@@ -1566,7 +1566,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if ((CurrentType & VT_FUNPTR) == VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -2071,6 +2071,8 @@ void ParseUnaryExpression(void)
             }
 
             int IsConst = 0;
+            if (Op == '*' && CurrentType & VT_FUNPTR)
+                return; // Functions and function pointers are called the same way
             if ((CurrentType & VT_LOCMASK) == VT_LOCLIT) {
                 if (CurrentType != (VT_INT|VT_LOCLIT)) Fail();
                 IsConst = 1;
@@ -2093,8 +2095,6 @@ void ParseUnaryExpression(void)
                     CurrentVal ^= 1;
                 }
             } else if (Op == '*') {
-                if (CurrentType & VT_FUNPTR)
-                    return;
                 if (!(CurrentType & VT_PTRMASK)) {
                     Fatal("Pointer required for dereference");
                 }
-- 
2.43.0


From 69f349d39286765fc04769be5b989b175ab3d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 039/107] fix: scc: calls through pointers find the function
 when registers had to be saved

---
 scc.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/scc.c b/scc.c
index a9178b7..0954a4a 100644
--- a/scc.c
+++ b/scc.c
@@ -1850,19 +1850,6 @@ void ParsePostfixExpression(void)
                 const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
                 int RetExtra = CurrentTypeExtra;
                 struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
-                    Func = &VarDecls[CurrentVal];
-                    RetExtra = Func->TypeExtra;
-                    break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
-                default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
-                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
-                    LocalOffset -= 2;
-                }
 
                 int RU = RegUse;
                 if (Pending & PENDING_PUSHAX) {
@@ -1881,6 +1868,21 @@ void ParsePostfixExpression(void)
                     RegUse = 0;
                 }
 
+                // The function pointer must be just above the arguments
+                switch (CurrentType & VT_LOCMASK) {
+                case VT_LOCGLOB:
+                    Func = &VarDecls[CurrentVal];
+                    RetExtra = Func->TypeExtra;
+                    break;
+                case 0:
+                    Output1Byte(I_XCHG_AX|R_SI);
+                    // Fall through
+                default:
+                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
+                    LocalOffset -= 2;
+                }
+
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
                 while (TokenType != ')') {
-- 
2.43.0


From 63da78669ff75a8eb9c22c156fd530ff852a288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 040/107] fix: scc: function pointers from conditional and
 assignment expressions

---
 scc.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index 0954a4a..4e7d7b6 100644
--- a/scc.c
+++ b/scc.c
@@ -1874,11 +1874,9 @@ void ParsePostfixExpression(void)
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
                     break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
                 default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    if ((CurrentType & VT_FUNPTR) != VT_FUN)
+                        LvalToRval();
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
@@ -2433,7 +2431,7 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED|VT_FUNPTR)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
         EmitJmp(RealEnd);
-- 
2.43.0


From 1651277cfb2fa73ecda9fca8742aa146d4d80ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 041/107] fix: scc: objects of a file scope typedef name are
 not globals

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 4e7d7b6..b549ab9 100644
--- a/scc.c
+++ b/scc.c
@@ -2890,7 +2890,7 @@ void ParseDeclSpecs(void)
             {
                 struct VarDecl* Typedef = LookupTypedef();
                 if (Typedef) {
-                    CurrentType      = Typedef->Type & ~VT_TYPEDEF;
+                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
-- 
2.43.0


From 5be8d2be76b40424cb3abfd49d08cb36f37dc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 042/107] fix: sim86: MUL/IMUL set the high half of the
 product, CF and OF

---
 sim86.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index e1015c8..63dc10a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -457,6 +457,28 @@ void ReadFile(const char* Filename)
     close(fd);
 }
 
+// Only uses 16-bit operations
+void Multiply(unsigned a, unsigned b, int sign)
+{
+    const unsigned al = a & 0xff;
+    const unsigned ah = a>>8 & 0xff;
+    const unsigned bl = b & 0xff;
+    const unsigned bh = b>>8 & 0xff;
+    const unsigned m1 = ah*bl + (al*bl>>8);
+    const unsigned m2 = al*bh + (m1&0xff);
+    unsigned hi = ah*bh + (m1>>8) + (m2>>8);
+    unsigned ext = 0;
+    if (sign) {
+        if (a & 0x8000) hi -= b;
+        if (b & 0x8000) hi -= a;
+        if (m2 & 0x80) ext = 0xffff;
+    }
+    reg[R_AX] = a*b;
+    reg[R_DX] = hi;
+    flags &= ~(FC|FO);
+    if (TRIM(hi) != ext) flags |= FC|FO;
+}
+
 void JMP(int rel)
 {
     if (verbose) sprintf(insttext, "JMP 0x%04X", TRIM(ip+rel));
@@ -1166,14 +1188,10 @@ int main(int argc, char** argv)
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
                         DoOp(OP_SUB, 0, ReadRM());
                         break;
-                    case 4: // MUL (TODO: Full 32-bit result)
-                    case 5: // IMUL (TODO: Full 32-bit result)
-                        {
-                            if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
-                            const unsigned int m = ReadRM();
-                            reg[R_AX] *= m;
-                            reg[R_DX] = 0;
-                        }
+                    case 4: // MUL
+                    case 5: // IMUL
+                        if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
+                        Multiply(reg[R_AX], ReadRM(), modrm&8);
                         break;
                     case 6: // DIV (TODO: Full 32-bit divide)
                         {
-- 
2.43.0


From 9651d8aff92cfca17843ef3fc70f796a0ff1b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 043/107] fix: sim86: REPNE repeats STOSB/STOSW like REP

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 63dc10a..2fe1344 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1002,7 +1002,7 @@ int main(int argc, char** argv)
             case 0xAA:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSB");
                         iter = reg[R_CX];
                         reg[R_CX] -= iter;
@@ -1018,7 +1018,7 @@ int main(int argc, char** argv)
             case 0xAB:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSW");
                         iter = reg[R_CX];
                         reg[R_CX] -= iter;
-- 
2.43.0


From 9083ae8140c6dfc61688cfa577df584f3e03115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 044/107] fix: sim86: CALL r/m16 reads its operand before
 pushing the return address

---
 sim86.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 2fe1344..981eec3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1231,8 +1231,11 @@ int main(int argc, char** argv)
                         break;
                     case 2:
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
-                        DoPush(ip);
-                        ip = ReadRM();
+                        {
+                            const int target = ReadRM();
+                            DoPush(ip);
+                            ip = target;
+                        }
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From 6a7f28bcda0baaad4fbcd6a6de21e1f6b04bd722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 045/107] fix: sim86: FE /2 is not an instruction

---
 sim86.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sim86.c b/sim86.c
index 981eec3..9590ba0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1230,6 +1230,8 @@ int main(int argc, char** argv)
                         DEC();
                         break;
                     case 2:
+                        if (!dsize)
+                            goto Unhandled;
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
                         {
                             const int target = ReadRM();
-- 
2.43.0


From 34c6892eaf750af9407a5b032540e40b165659b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 046/107] fix: sim86: stop when an IDIV quotient does not fit

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 9590ba0..996fd46 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1207,6 +1207,7 @@ int main(int argc, char** argv)
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
                             const int d = SEXT(ReadRM());
                             assert(SEXT(reg[R_DX]) == (reg[R_AX] & 0x8000 ? -1 : 0));
+                            assert(d != -1 || TRIM(reg[R_AX]) != 0x8000);
                             reg[R_DX] = SEXT(reg[R_AX]) % d;
                             reg[R_AX] = SEXT(reg[R_AX]) / d;
                         }
-- 
2.43.0


From cfb5747bd07840a16ccc542b385aaa608784156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 047/107] fix: sim86: bound the length of file names

---
 sim86.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index 996fd46..32686b1 100644
--- a/sim86.c
+++ b/sim86.c
@@ -561,21 +561,27 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+// Returns 0 if the string doesn't fit
+int ReadAsciiz(char* dest, int size, int sr, int off)
 {
     int ch;
     do {
+        if (!size--)
+            return 0;
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
-    } while (ch); 
+    } while (ch);
+    return 1;
 }
 
 void HandleOpen(int oflags)
 {
-    char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
-    int fd = open(fname, O_BINARY | oflags, 0600);
-    if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+    char fname[128];
+    int fd = -1;
+    if (ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX])) {
+        fd = open(fname, O_BINARY | oflags, 0600);
+        if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+    }
     if (fd < 0) {
         flags |= FC;
         fd = 2; // File not found
-- 
2.43.0


From 6d75c69c12a03990fb258aca232782afd86c699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 048/107] fix: sim86: end of file is not an error, a failed
 read, write or close is

---
 sim86.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 32686b1..16304b6 100644
--- a/sim86.c
+++ b/sim86.c
@@ -683,22 +683,29 @@ void INT(void)
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
         if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
         flags &= ~FC;
+#ifndef __SCC__
+        if (close(reg[R_BX])) {
+            flags |= FC;
+            reg[R_AX] = 6; // Invalid handle
+        }
+#else
+        close(reg[R_BX]);
+#endif
     } else if (func == 0x3F) {
         int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
-            r = 0;
+            r = 6; // Invalid handle
         } else {
             flags &= ~FC;
         }
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
-            r = 0;
+            r = 6; // Invalid handle
         } else {
             flags &= ~FC;
         }
-- 
2.43.0


From cd3d94817503a50e64599c9624fbd7216b36f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 049/107] fix: sim86: keep the order of character and handle
 output

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 16304b6..77388b0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -440,6 +440,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
+    fflush(stdout);
     return write(fd, mem+MAKEADDR(SR_DS, off), size);
 #endif
 }
-- 
2.43.0


From ec837c445b70475ce43fb0c2d9dfdb0ca3029020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 050/107] fix: sim86: room for the longest operand text

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 77388b0..e1df3c0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -60,7 +60,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20];
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From e80127c93ad5b50732465f395c7aa73b7a7ae38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 051/107] fix: sim86: profiling does not replace or add console
 output

---
 sim86.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index e1df3c0..d38e625 100644
--- a/sim86.c
+++ b/sim86.c
@@ -59,7 +59,8 @@ int addr;
 char dsize;
 signed char seg;
 
-int verbose;
+int trace;   // -v
+int verbose; // Instruction text wanted
 char rmtext[20];
 char insttext[64];
 const char* filename;
@@ -581,7 +582,7 @@ void HandleOpen(int oflags)
     int fd = -1;
     if (ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX])) {
         fd = open(fname, O_BINARY | oflags, 0600);
-        if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+        if (trace) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     }
     if (fd < 0) {
         flags |= FC;
@@ -594,7 +595,7 @@ void HandleOpen(int oflags)
 
 void DoExit(int ec)
 {
-    if (verbose) {
+    if (trace) {
         if (ec)
             printf("\nExiting with error code %d\n", ec);
         else
@@ -674,7 +675,7 @@ void INT(void)
     const int func = reg[R_AX]>>8&0xff;
     if (func == 0x02) {
         int c = reg[R_DX]&0xff;
-        if (verbose)
+        if (trace)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
             putchar(c);
@@ -683,7 +684,7 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
+        if (trace) printf("\nclose(%d)\n", reg[R_BX]);
         flags &= ~FC;
 #ifndef __SCC__
         if (close(reg[R_BX])) {
@@ -759,7 +760,7 @@ int main(int argc, char** argv)
     int argi = 1;
     for (; argv[argi]; ++argi) {
         if (!strcmp(argv[argi], "-v")) {
-            verbose = 1;
+            trace = verbose = 1;
 #ifdef PROFILING
         } else if (!strcmp(argv[argi], "-p")) {
             do_profile = 1;
-- 
2.43.0


From 0591cc36f3d4fa9f3c98f4a0be801f62bcf0a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 052/107] fix: sim86: reject a command line that does not fit
 the PSP

---
 sim86.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index d38e625..f60779e 100644
--- a/sim86.c
+++ b/sim86.c
@@ -739,6 +739,14 @@ struct Stack RecordStack(void)
 #undef READSS
 #endif
 
+void EndCommandTail(int len)
+{
+    if (len > 126)
+        Fatal("Command line too long");
+    Write8(SR_DS, 0x81+len, '\r');
+    Write8(SR_DS, 0x80, len);
+}
+
 int main(int argc, char** argv)
 {
     if (argc < 2) {
@@ -785,8 +793,7 @@ int main(int argc, char** argv)
         const char* s = argv[i];
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x81+p, '\r');
-    Write8(SR_DS, 0x80, p);
+    EndCommandTail(p);
 
     DoPush(0);
     ip = LOAD_OFFSET;
-- 
2.43.0


From 9b6ef9e4b3ee79f9415c5eefefa97ac3848c580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 053/107] fix: sim86: show 16-bit immediates and displacements
 the same way on every host

---
 sim86.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sim86.c b/sim86.c
index f60779e..3479bed 100644
--- a/sim86.c
+++ b/sim86.c
@@ -243,6 +243,7 @@ void ModRM(void)
         return;
     }
     if (verbose) {
+        const int disp = SEXT(addr);
         char sr[4];
         sr[0] = 0;
         if (seg != -1) {
@@ -252,14 +253,14 @@ void ModRM(void)
             sr[3] = 0;
         }
         switch (modrm&7) {
-        case 0: sprintf(rmtext, "[%sBX+SI%+d]", sr, addr); break;
-        case 1: sprintf(rmtext, "[%sBX+DI%+d]", sr, addr); break;
-        case 2: sprintf(rmtext, "[%sBP+SI%+d]", sr, addr); break;
-        case 3: sprintf(rmtext, "[%sBP+DI%+d]", sr, addr); break;
-        case 4: sprintf(rmtext, "[%sSI%+d]", sr, addr);    break;
-        case 5: sprintf(rmtext, "[%sDI%+d]", sr, addr);    break;
-        case 6: sprintf(rmtext, "[%sBP%+d]", sr, addr);    break;
-        case 7: sprintf(rmtext, "[%sBX%+d]", sr, addr);    break;
+        case 0: sprintf(rmtext, "[%sBX+SI%+d]", sr, disp); break;
+        case 1: sprintf(rmtext, "[%sBX+DI%+d]", sr, disp); break;
+        case 2: sprintf(rmtext, "[%sBP+SI%+d]", sr, disp); break;
+        case 3: sprintf(rmtext, "[%sBP+DI%+d]", sr, disp); break;
+        case 4: sprintf(rmtext, "[%sSI%+d]", sr, disp);    break;
+        case 5: sprintf(rmtext, "[%sDI%+d]", sr, disp);    break;
+        case 6: sprintf(rmtext, "[%sBP%+d]", sr, disp);    break;
+        case 7: sprintf(rmtext, "[%sBX%+d]", sr, disp);    break;
         }
     }
     int sr = SR_DS;
@@ -852,7 +853,7 @@ int main(int argc, char** argv)
                     Imm = (signed char)ReadIByte();
                 modrm = 0xc0;
                 DoOp(op, reg[R_AX], Imm);
-                if (verbose) sprintf(insttext, "%s A%c, 0x%04X", OpName(op), dsize?'X':'L', Imm);
+                if (verbose) sprintf(insttext, "%s A%c, 0x%04X", OpName(op), dsize?'X':'L', TRIM(Imm));
             } else if (type == 6) {
                 if (inst < 0x26) {
                     const int sr = inst>>3;
@@ -918,7 +919,7 @@ int main(int argc, char** argv)
                     ModRM();
                     const int imm = inst == 0x81 ? Imm16() : (signed char)ReadIByte();
                     DoOp(modrm>>3&7, ReadRM(), imm);
-                    if (verbose) sprintf(insttext, "%s %s, 0x%04X", OpName(modrm>>3&7), rmtext, imm);
+                    if (verbose) sprintf(insttext, "%s %s, 0x%04X", OpName(modrm>>3&7), rmtext, TRIM(imm));
                 }
                 break;
             case 0x88:
-- 
2.43.0


From 687adf67fa3d660173b28264a9d1b925a2bf6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 054/107] fix: sim86: a segment override does not turn a word
 instruction into a byte one

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 3479bed..775df8b 100644
--- a/sim86.c
+++ b/sim86.c
@@ -831,12 +831,12 @@ int main(int argc, char** argv)
 
         modrm = -1;
         addr = 0;
-        dsize = 1;
         seg = -1;
 
         int rep = 0;
 
-    Restart: ;
+    Restart:
+        dsize = 1;
         const int inst = ReadIByte();
 
         if (inst < 0x40) {
-- 
2.43.0


From b89f71a549bcb1132ad511494da3119bf5ba6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 055/107] fix: scpp keeps the quotes of literals when
 stringifying and pasting

---
 scpp.c | 62 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..60d0e33 100644
--- a/scpp.c
+++ b/scpp.c
@@ -471,6 +471,21 @@ void ReadChar(void)
     CurFile->Buf[CurFile->BufSize] = 0;
 }
 
+void AddTextChar(int Ch)
+{
+    assert(TokenDataPos < TOKEN_DATA_MAX);
+    TokenData[TokenDataPos++] = (char)Ch;
+}
+
+void AddEscaped(const char* Text)
+{
+    while (*Text) {
+        if (*Text == '"' || *Text == '\\')
+            AddTextChar('\\');
+        AddTextChar(*Text++);
+    }
+}
+
 void ReadToTokenData(void)
 {
     assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -670,7 +685,7 @@ Restart:
     case '\'':
         {
             const int End = CurrentChar;
-            ReadChar();
+            ReadToTokenData();
             CurTok.Type = End == '"' ? TOK_STRLIT : TOK_CHARLIT;
             int esc = 0;
             while (esc || CurrentChar != End) {
@@ -684,7 +699,7 @@ Restart:
                     esc = 0;
                 ReadToTokenData();
             }
-            ReadChar();
+            ReadToTokenData();
             goto Out;
         }
     case 0:
@@ -936,7 +951,13 @@ void GetToken(void)
                     CurTok.Text = T;
                     CurTok.Type = TOK_NUM;
                 } else if (CurTok.Type == TOK___FILE__) {
-                    CurTok.Text = CurFile->Filename;
+                    TokenDataPos = NextTokenDataPos;
+                    CurTok.Text = &TokenData[TokenDataPos];
+                    AddTextChar('"');
+                    AddEscaped(CurFile->Filename);
+                    AddTextChar('"');
+                    AddTextChar(0);
+                    NextTokenDataPos = TokenDataPos;
                     CurTok.Type = TOK_STRLIT;
                 } else {
                     CurTok.Text = "1";
@@ -1032,7 +1053,7 @@ char StrBuf[256]; // HACK HACK
 
 void Stringify(struct TokenList* TL)
 {
-    int StrPos = 0;
+    int StrPos = 1;
     int PendWS = 0;
     int FromS = 0;
     while (TL || FromS) {
@@ -1064,13 +1085,19 @@ void Stringify(struct TokenList* TL)
                 StrBuf[StrPos++] = ' ';
                 PendWS = 0;
             }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+            const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
+            const char* T;
+            for (T = CurTok.Text; *T; ++T) {
+                assert(StrPos+2 < (int)sizeof(StrBuf));
+                if (Lit && (*T == '"' || *T == '\\'))
+                    StrBuf[StrPos++] = '\\';
+                StrBuf[StrPos++] = *T;
+            }
         }
     }
-    assert(StrPos < (int)sizeof(StrBuf));
+    assert(StrPos+1 < (int)sizeof(StrBuf));
+    StrBuf[0] = '"';
+    StrBuf[StrPos++] = '"';
     StrBuf[StrPos] = 0;
 
     CurTok.Type = TOK_STRLIT;
@@ -1374,7 +1401,8 @@ void HandleInclude(void)
         NextTokenDataPos = TokenDataPos;
     } else {
         NextTokenDataPos = TokenDataPos;
-        Filename = CurTok.Text;
+        Filename = CurTok.Text + 1;
+        TokenData[TokenDataPos-2] = 0; // Remove final quote
     }
     RawGetToken();
     CurFile->LastChar = CurrentChar;
@@ -1541,19 +1569,7 @@ void PPMain(void)
             }
             WS = 0;
         }
-        switch (CurTok.Type) {
-        case TOK_STRLIT:
-        case TOK_CHARLIT:
-            {
-                const char* S = CurTok.Type == TOK_STRLIT ? "\"" : "'";
-                OutputStr(S);
-                OutputStr(CurTok.Text);
-                OutputStr(S);
-            }
-            break;
-        default:
-            OutputStr(CurTok.Text);
-        }
+        OutputStr(CurTok.Text);
         GetToken();
     }
 }
-- 
2.43.0


From 1cee90aaf95200ac6c52398fceabd68990705c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 056/107] fix: scpp treats a comment as white space and passes
 every character through

---
 scpp.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/scpp.c b/scpp.c
index 60d0e33..5bd0a73 100644
--- a/scpp.c
+++ b/scpp.c
@@ -376,6 +376,7 @@ unsigned IdHash[ID_HASH_MAX];
 int IdCount;
 
 int Line = 1;
+int TokLine; // Line of last token read from file
 
 char CurrentChar;
 
@@ -471,6 +472,12 @@ void ReadChar(void)
     CurFile->Buf[CurFile->BufSize] = 0;
 }
 
+void Error(const char* Msg)
+{
+    printf("%s:%d: %s\n", CurFile->Filename, TokLine, Msg);
+    exit(1);
+}
+
 void AddTextChar(int Ch)
 {
     assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -594,6 +601,11 @@ void PasteAppend(struct Token* Tok)
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
 
+int IsIdCh(void)
+{
+    return (IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1;
+}
+
 void RawGetToken(void)
 {
     while (ReplaceNest) {
@@ -637,6 +649,7 @@ void RawGetToken(void)
 
 Restart:
     TokenDataPos = NextTokenDataPos;
+    TokLine = Line;
     CurTok.Text = TokenData + TokenDataPos;
 
     switch (CurrentChar) {
@@ -663,8 +676,10 @@ Restart:
                 star = CurrentChar == '*';
                 ReadChar();
             }
+            if (!CurrentChar) Error("Unterminated comment");
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE; // A comment separates tokens
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -714,12 +729,12 @@ Restart:
         goto Identifier;
     }
 
-    if (CurrentChar <= ' ') {
+    if ((unsigned char)CurrentChar <= ' ') {
         CurTok.Type = TOK_WHITESPACE;
         ReadChar();
         if (!CurrentChar)
             return;
-        while (CurrentChar <= ' ' && CurrentChar != '\n') {
+        while ((unsigned char)CurrentChar <= ' ' && CurrentChar != '\n') {
             if ((CurrentChar = *CurFileBuf++))
                 continue;
             --CurFileBuf;
@@ -730,13 +745,13 @@ Restart:
         return;
     }
 
-    if (CurrentChar < 'A') {
+    if ((unsigned char)CurrentChar < 'A') {
         if ((unsigned)(CurrentChar - '0') < 10) {
             CurTok.Type = TOK_NUM;
             ReadToTokenData();
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
-            while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
+            while (IsIdCh()) {
                 TokenData[TokenDataPos++] = CurrentChar;
                 if ((CurrentChar = *CurFileBuf++))
                     continue;
@@ -745,7 +760,7 @@ Restart:
             }
             goto Out;
         }
-    } else if ((CurrentChar&0xDF) <= 'Z') {
+    } else if (IsIdCh()) {
 Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
@@ -755,7 +770,7 @@ Identifier:
                 --CurFileBuf;
                 ReadChar();
             }
-        } while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1);
+        } while (IsIdCh());
         CurHash &= ID_HASH_MAX-1;
         goto Out;
     }
@@ -803,8 +818,7 @@ Identifier:
     case '~':
         break;
     default:
-        printf("Unknown token type %c (%02X)\n", CurTok.Type, CurTok.Type);
-        assert(0);
+        CurTok.Type = TOK_CREATED_OP; // Pass any other character through
     }
 Out:
     assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -1564,11 +1578,12 @@ void PPMain(void)
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
-            } else {
+            } else if (!StartOfLine) {
                 OutputStr(" ");
             }
             WS = 0;
         }
+        StartOfLine = 0;
         OutputStr(CurTok.Text);
         GetToken();
     }
-- 
2.43.0


From ea2c28cc68a7d1586fcda582ad26c309e587b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 057/107] fix: scpp evaluates #if expressions as C does, and
 only where their value decides

---
 scpp.c | 177 +++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 121 insertions(+), 56 deletions(-)

diff --git a/scpp.c b/scpp.c
index 5bd0a73..e35ac82 100644
--- a/scpp.c
+++ b/scpp.c
@@ -327,6 +327,8 @@ enum {
     TOK_NOTEQ,
     TOK_ANDAND,
     TOK_OROR,
+    TOK_SHL,
+    TOK_SHR,
 
     TOK_RAW_ID   = 256, // Hasn't been looked up
     // Keywords
@@ -787,10 +789,12 @@ Identifier:
         TryExtendOp('=', TOK_NOTEQ);
         break;
     case '<':
-        TryExtendOp('=', TOK_LTEQ);
+        if (!TryExtendOp('=', TOK_LTEQ))
+            TryExtendOp('<', TOK_SHL);
         break;
     case '>':
-        TryExtendOp('=', TOK_GTEQ);
+        if (!TryExtendOp('=', TOK_GTEQ))
+            TryExtendOp('>', TOK_SHR);
         break;
     case '&':
         TryExtendOp('&', TOK_ANDAND);
@@ -1241,37 +1245,83 @@ int IsDefined(int Tok)
 }
 
 int EvalExpr(void);
+int EvalSkip; // Non-zero when the value isn't used
 
-int EvalUnary(void)
+int EvalNumber(void)
 {
     int n = 0;
-    SkipWS();
-    if (CurTok.Type == TOK_NUM) {
-        int base = 10;
-        const char* s = CurTok.Text;
-        if (*s == '0') {
-            ++s;
-            base = 8;
-            if (*s == 'x' || *s == 'X') {
-                base = 16;
-                ++s;
-            }
+    int base = 10;
+    const char* s = CurTok.Text;
+    if (*s == '0') {
+        base = 8;
+        if ((s[1]&0xdf) == 'X') {
+            base = 16;
+            s += 2;
         }
-        int ch;
-        while ((ch = *s++)) {
-            n *= base;
-            if (ch >= '0' && ch <= '9')
-                n += ch - '0';
-            else {
-                n += (ch & 0xdf) - ('A' - 10);
+    }
+    for (; *s; ++s) {
+        int d = *s;
+        if (d >= '0' && d <= '9') {
+            d -= '0';
+        } else {
+            d = (d&0xdf) - ('A' - 10);
+            if (base != 16 || d > 15)
+                break;
+        }
+        if (d >= base) Error("Invalid number");
+        n = n * base + d;
+    }
+    while ((*s&0xdf) == 'U' || (*s&0xdf) == 'L')
+        ++s;
+    if (*s) Error("Invalid number");
+    return n;
+}
+
+int EvalChar(void)
+{
+    const char* s = CurTok.Text + 1;
+    int n = *s++;
+    if (n == '\\') {
+        n = *s++;
+        switch (n) {
+        case 'a': n = 7; break;
+        case 'b': n = 8; break;
+        case 't': n = 9; break;
+        case 'n': n = 10; break;
+        case 'v': n = 11; break;
+        case 'f': n = 12; break;
+        case 'r': n = 13; break;
+        case 'x':
+            n = 0;
+            for (; *s && *s != '\''; ++s) {
+                if (*s <= '9') n = n*16 + *s - '0';
+                else n = n*16 + (*s&0xdf) - ('A'-10);
+            }
+            n = (char)n;
+            break;
+        default:
+            if (n >= '0' && n <= '7') {
+                n -= '0';
+                while (*s >= '0' && *s <= '7')
+                    n = n*8 + *s++ - '0';
+                n = (char)n;
             }
         }
+    }
+    if (*s != '\'') Error("Invalid character constant");
+    return n;
+}
+
+int EvalUnary(void)
+{
+    int n = 0;
+    SkipWS();
+    if (CurTok.Type == TOK_NUM || CurTok.Type == TOK_CHARLIT) {
+        n = CurTok.Type == TOK_NUM ? EvalNumber() : EvalChar();
         GetToken();
         return n;
-    } else if (CurTok.Type == TOK_RAW_ID) {
-        GetToken();
-        return 0;
-    } else if (Accept(TOK_DEFINED)) {
+    } else if (CurTok.Type == TOK_DEFINED) {
+        RawGetToken();
         RawSkipWS();
         int Par = 0;
         if (CurTok.Type == '(') {
@@ -1279,30 +1329,30 @@ int EvalUnary(void)
             RawGetToken();
             RawSkipWS();
         }
-        ReplaceId();
+        if (CurTok.Type < TOK_RAW_ID) Error("Expected identifier");
+        if (CurTok.Type == TOK_RAW_ID) ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
         if (Par) Expect(')');
         return n;
+    } else if (CurTok.Type >= TOK_RAW_ID) {
+        // Not a macro - evaluate as zero
+        GetToken();
+        return 0;
     } else if (Accept('!')) {
         return !EvalUnary();
+    } else if (Accept('-')) {
+        return -EvalUnary();
+    } else if (Accept('~')) {
+        return ~EvalUnary();
+    } else if (Accept('+')) {
+        return EvalUnary();
     } else if (Accept('(')) {
         n = EvalExpr();
         Expect(')');
         return n;
     }
-
-    if (CurTok.Type >= TOK_USER_ID) {
-        // Undefined macro - evaluate as zero
-        assert(Macros[CurTok.Type - TOK_USER_ID].Hide == 2);
-        GetToken();
-        return 0;
-    }
-
-    printf("TODO: EvalUnary() CurTok=");
-    PrintToken(&CurTok);
-    printf("\n");
-    assert(!"TODO: Unary");
+    Error("Invalid expression");
     return 0;
 }
 
@@ -1311,6 +1361,7 @@ int OperatorPrecedence(int Op)
     switch (Op) {
     case '*': case '/': case '%': return 3;
     case '+': case '-': return 4;
+    case TOK_SHL: case TOK_SHR: return 5;
     case '<': case '>': case TOK_LTEQ: case TOK_GTEQ: return 6;
     case TOK_EQEQ: case TOK_NOTEQ: return 7;
     case '&': return 8;
@@ -1328,38 +1379,47 @@ int EvalExpr1(int LHS, int OuterPrec)
     for (;;) {
         SkipWS();
         const int Op = CurTok.Type;
-        if (Op <= ' ' || Op >= TOK_ID)
-            break;
         const int Prec = OperatorPrecedence(Op);
         if (Prec > OuterPrec)
             break;
         GetToken();
+        const int OldSkip = EvalSkip;
         if (Op == '?') {
-            const int L = EvalExpr1(EvalUnary(), 14);
+            if (!LHS) EvalSkip = 1;
+            const int L = EvalExpr();
             Expect(':');
-            const int R = EvalExpr1(EvalUnary(), 14);
+            EvalSkip = OldSkip;
+            if (LHS) EvalSkip = 1;
+            const int R = EvalExpr1(EvalUnary(), 13);
+            EvalSkip = OldSkip;
             LHS = LHS ? L : R;
             continue;
         }
+        if ((Op == TOK_ANDAND && !LHS) || (Op == TOK_OROR && LHS))
+            EvalSkip = 1;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
-            const int LookAheadOp = CurTok.Type;
-            if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
-                break;
-            const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            const int LookAheadPrec = OperatorPrecedence(CurTok.Type);
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        EvalSkip = OldSkip;
+        if (!RHS && (Op == '/' || Op == '%')) {
+            if (!EvalSkip) Error("Division by zero");
+            RHS = 1;
+        }
         switch (Op) {
         case '*': LHS *= RHS; break;
         case '/': LHS /= RHS; break;
         case '%': LHS %= RHS; break;
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
+        case TOK_SHL: LHS = LHS << RHS; break;
+        case TOK_SHR: LHS = LHS >> RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
@@ -1369,9 +1429,6 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '|': LHS |= RHS; break;
         case TOK_ANDAND: LHS = LHS && RHS; break;
         case TOK_OROR: LHS = LHS || RHS; break;
-        default:
-            printf("TODO: Calculate %d %s %d\n", LHS, TokenTypeText(Op), RHS);
-            assert(0);
         }
     }
     return LHS;
@@ -1382,6 +1439,16 @@ int EvalExpr(void)
     return EvalExpr1(EvalUnary(), 15);
 }
 
+int EvalCond(void)
+{
+    GetToken();
+    EvalSkip = 0;
+    const int n = EvalExpr();
+    SkipWS();
+    if (CurTok.Type != TOK_NEWLINE) Error("Invalid expression");
+    return n;
+}
+
 int CondActive(void)
 {
     return !CondCount || CondState[CondCount-1] == COND_TRUE;
@@ -1478,16 +1545,14 @@ void HandleDirective(void)
             assert(0);
         }
     } else {
-        GetToken();
-
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            NewCond(CondActive() && EvalCond());
         } else if (Directive == TOK_ELIF) {
-            assert(S);
+            if (!S) Error("#elif without #if");
             if (*S == COND_TRUE)
                 *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
+            else if (*S == COND_FALSE && EvalCond())
                 *S = COND_TRUE;
         } else if (Directive == TOK_ELSE) {
             assert(S);
-- 
2.43.0


From e4fb89c9ee5cc1d49b4b0247f977100a5da594ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 058/107] fix: scpp rejects unbalanced conditionals and does
 not look into skipped groups

---
 scpp.c | 56 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/scpp.c b/scpp.c
index e35ac82..66ac069 100644
--- a/scpp.c
+++ b/scpp.c
@@ -359,6 +359,7 @@ struct File {
     char* BufPtr;
     int BufSize;
     int OldLine;
+    int OldCond; // Number of active conditionals on entry
     char LastChar;
     char Buf[FILE_BUF_SIZE];
 };
@@ -429,6 +430,7 @@ enum {
     COND_DONE,        // Done, waiting for #endif
 };
 char CondState[COND_MAX];
+char CondElse[COND_MAX]; // Set after #else
 int CondCount;
 
 enum { Debug = 0 };
@@ -1463,6 +1465,7 @@ void NewCond(int Active)
     else if (Active)
         S = COND_TRUE;
     if (Debug) printf("New cond: %d\n", S);
+    CondElse[CondCount] = 0;
     CondState[CondCount++] = S;
 }
 
@@ -1493,22 +1496,29 @@ void HandleInclude(void)
     if (Debug) printf("Entering '%s' (%d)\n", Filename, NumFiles);
     CurFile = OpenFile(Filename, 0);
     CurFile->OldLine = Line;
+    CurFile->OldCond = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
     ReadChar();
 }
 
+void GetMacroName(void)
+{
+    RawGetToken();
+    RawSkipWS();
+    if (CurTok.Type != TOK_RAW_ID) Error("Expected macro name");
+    ReplaceId();
+}
+
 void HandleDirective(void)
 {
     RawSkipWS();
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
-    ReplaceId();
+    if (CurTok.Type == TOK_RAW_ID)
+        ReplaceId();
     const int Directive = CurTok.Type;
-    assert(Directive < TOK_USER_ID);
-
-    if (Debug) printf("Processing directive %s (CondActive=%d)\n", IdText[Directive-TOK_ID], CondActive());
 
     if (Directive == TOK_DEFINE) {
         if (CondActive()) HandleDefine();
@@ -1527,11 +1537,12 @@ void HandleDirective(void)
             GetToken();
         }
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
-        RawGetToken();
-        RawSkipWS();
-        ReplaceId();
-        NewCond((int)(Directive == TOK_IFNDEF) ^ IsDefined(CurTok.Type));
-        RawGetToken();
+        if (CondActive()) {
+            GetMacroName();
+            NewCond((int)(Directive == TOK_IFNDEF) ^ IsDefined(CurTok.Type));
+        } else {
+            NewCond(0);
+        }
     } else if (Directive == TOK_ERROR) {
         if (CondActive()) {
             printf("#error in %s:%d!\n", CurFile->Filename, Line);
@@ -1539,33 +1550,28 @@ void HandleDirective(void)
         }
     } else if (Directive == TOK_PRAGMA || Directive == TOK_LINE) {
         // Ignore
-    } else if (Directive == TOK_RAW_ID) {
-        if (CondActive()) {
-            printf("Invalid directive '%s'\n", CurTok.Text);
-            assert(0);
-        }
     } else {
-        char* S = CondCount ? &CondState[CondCount-1] : 0;
+        char* S = CondCount > CurFile->OldCond ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
             NewCond(CondActive() && EvalCond());
         } else if (Directive == TOK_ELIF) {
-            if (!S) Error("#elif without #if");
+            if (!S || CondElse[CondCount-1]) Error("Unexpected #elif");
             if (*S == COND_TRUE)
                 *S = COND_DONE;
             else if (*S == COND_FALSE && EvalCond())
                 *S = COND_TRUE;
         } else if (Directive == TOK_ELSE) {
-            assert(S);
+            if (!S || CondElse[CondCount-1]) Error("Unexpected #else");
+            CondElse[CondCount-1] = 1;
             if (*S == COND_TRUE)
                 *S = COND_DONE;
             else if (*S == COND_FALSE)
                 *S = COND_TRUE;
         } else if (Directive == TOK_ENDIF) {
-            assert(CondCount);
+            if (CondCount == CurFile->OldCond) Error("#endif without #if");
             --CondCount;
-        } else {
-            assert(Directive >= TOK_ID && Directive < TOK_ID+ID_MAX);
-            printf("TODO: Handle directive '%s'\n", IdText[Directive-TOK_ID]);
+        } else if (CondActive()) {
+            Error("Invalid directive");
         }
     }
     while (CurTok.Type != TOK_NEWLINE) {
@@ -1605,12 +1611,14 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
             StartOfLine = 1;
             Active = CondActive();
+            if (Active) GetToken();
+            else RawGetToken();
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
+            if (CondCount != CurFile->OldCond) Error("Missing #endif");
             Line = CurFile->OldLine;
             CloseFile();
             CurFile = &Files[NumFiles-1];
@@ -1625,7 +1633,9 @@ void PPMain(void)
         }
 
         if (!Active) {
-            GetToken();
+            // Only look for directives
+            StartOfLine = CurTok.Type == TOK_NEWLINE || (StartOfLine && CurTok.Type == TOK_WHITESPACE);
+            RawGetToken();
             continue;
         }
 
-- 
2.43.0


From e8e692afb0d5c0654ee47b6509c289942d7b8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 059/107] fix: scpp expands macro arguments before substituting
 them, as C requires

---
 scpp.c | 573 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 291 insertions(+), 282 deletions(-)

diff --git a/scpp.c b/scpp.c
index 66ac069..bcaf03a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -287,9 +287,9 @@ enum {
     ID_MAX          = 32,
     ID_HASH_MAX     = 128,  // Must be power of 2 and larger than ID_MAX
     TOKEN_DATA_MAX  = 2048,
-    MAX_NEST        = 10,   // Maximum nesting of replacments
+    MAX_NEST        = 32,   // Maximum nesting of replacments
     COND_MAX        = 16,
-    TOKEN_LIST_MAX  = 128,
+    TOKEN_LIST_MAX  = 768,
     TOKEN_QUEUE_MAX = 16,
     ARGUMENT_MAX    = 32,
     FILES_MAX       = 4,
@@ -318,6 +318,7 @@ enum {
     TOK_INVALID_LIT, // Unterminated string literal
 
     TOK_ARG, // Text points to arguments
+    TOK_STRINGIFY,
 
     TOK_CREATED_OP = 128,
     TOK_HASHHASH,
@@ -404,7 +405,6 @@ struct TokenList* NextFreeTokenList;
 struct Argument {
     int Id;
     struct Argument* Next;
-    struct TokenList* Replacement;
 };
 struct Argument Argument[ARGUMENT_MAX];
 int ArgumentCount;
@@ -420,9 +420,10 @@ struct Macro Macros[MACRO_MAX];
 struct ReplaceStackElem {
     struct Macro* M;
     struct TokenList* TL;
-    int Stop;
+    struct TokenList* List;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
+int InDirective;
 
 enum {
     COND_TRUE,        // In active block
@@ -488,6 +489,12 @@ void AddTextChar(int Ch)
     TokenData[TokenDataPos++] = (char)Ch;
 }
 
+void AddText(const char* Text)
+{
+    while (*Text)
+        AddTextChar(*Text++);
+}
+
 void AddEscaped(const char* Text)
 {
     while (*Text) {
@@ -542,65 +549,35 @@ void FreeTokenList(struct TokenList* TL)
     }
 }
 
-struct TokenList* SkipWsNL(struct TokenList* TL)
+struct TokenList* SkipTLWS(struct TokenList* TL)
 {
-    while (TL) {
-        const int T = TL->Tok.Type;
-        if (T != TOK_WHITESPACE && T != TOK_NEWLINE)
-            break;
+    while (TL && TL->Tok.Type == TOK_WHITESPACE)
         TL = TL->Next;
-    }
     return TL;
 }
 
-void FreeArgs(struct Argument* Args)
+// Preserve the data of the current token
+void KeepText(void)
 {
-    if (Args == (struct Argument*)1)
-        return;
-    while (Args) {
-        FreeTokenList(Args->Replacement);
-        Args->Replacement = 0;
-        Args = Args->Next;
-    }
+    if (NextTokenDataPos < TokenDataPos)
+        NextTokenDataPos = TokenDataPos;
 }
 
 void TokenQueuePush(struct Token* Tok)
 {
-    assert(TokenQueueTail - TokenQueueHead < TOKEN_QUEUE_MAX);
-    TokenQueue[TokenQueueTail++ % TOKEN_QUEUE_MAX] = *Tok;
+    assert(TokenQueueTail < TOKEN_QUEUE_MAX);
+    TokenQueue[TokenQueueTail++] = *Tok;
+    KeepText();
 }
 
-struct Token* SimpleExpand(struct Token* Tok)
+// Macro argument being expanded if !M
+void PushReplacement(struct Macro* M, struct TokenList* TL)
 {
-    while (Tok->Type == TOK_ARG) {
-        const struct Argument* A = (const struct Argument*)Tok->Text;
-        if (!A->Replacement)
-            return 0;
-        assert(!A->Replacement->Next);
-        Tok = &A->Replacement->Tok;
-    }
-    return Tok;
-}
-
-void PrintToken(const struct Token* T);
-
-void PasteAppend(struct Token* Tok)
-{
-    CurTok = *SimpleExpand(&CurTok);
-    Tok = SimpleExpand(Tok);
-    if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
-    const char* T2 = Tok ? Tok->Text : "";
-    const int l1 = (int)strlen(CurTok.Text);
-    const int l2 = (int)strlen(T2) + 1;
-    assert(TokenDataPos+l1+l2 < TOKEN_DATA_MAX);
-    memcpy(&TokenData[TokenDataPos], CurTok.Text, l1);
-    memcpy(&TokenData[TokenDataPos+l1], T2, l2);
-    CurTok.Text = &TokenData[TokenDataPos];
-    TokenDataPos+=l1+l2;
-    if (CurTok.Type > ' ' && CurTok.Type < TOK_RAW_ID) {
-        CurTok.Type = TOK_CREATED_OP;
-    }
-    if (Debug) { printf(" --> "); PrintToken(&CurTok); printf("\n"); }
+    assert(ReplaceNest < MAX_NEST);
+    ReplaceStack[ReplaceNest].M    = M;
+    ReplaceStack[ReplaceNest].TL   = TL;
+    ReplaceStack[ReplaceNest].List = M ? TL : 0;
+    ++ReplaceNest;
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
@@ -610,47 +587,8 @@ int IsIdCh(void)
     return (IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1;
 }
 
-void RawGetToken(void)
+void FileGetToken(void)
 {
-    while (ReplaceNest) {
-        struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
-        assert(!RS->M || RS->M->Hide == 1);
-        if (RS->TL) {
-            CurTok = RS->TL->Tok;
-            RS->TL = RS->TL->Next;
-
-            // Look for paste operation
-            struct TokenList* TL = SkipWsNL(RS->TL);
-            while (TL && TL->Tok.Type == TOK_HASHHASH) {
-                TL = SkipWsNL(TL->Next);
-                assert(TL);
-                PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
-            }
-
-            CurHash = ID_HASH_MAX;
-            if (Debug) { printf("Returning from replacement list: ");PrintToken(&CurTok);printf("\n"); }
-            return;
-        }
-        if (RS->M) {
-            RS->M->Hide = 0;
-            FreeArgs(RS->M->Arguments);
-        }
-        --ReplaceNest;
-        if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
-        if (RS->Stop) {
-            CurTok.Type = TOK_EOF;
-            return;
-        }
-    }
-
-    if (TokenQueueHead != TokenQueueTail) {
-        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
-        CurHash = ID_HASH_MAX;
-        return;
-    }
-
 Restart:
     TokenDataPos = NextTokenDataPos;
     TokLine = Line;
@@ -829,7 +767,36 @@ Identifier:
 Out:
     assert(TokenDataPos < TOKEN_DATA_MAX);
     TokenData[TokenDataPos++] = 0;
-    if (Debug) { printf("Returning new token: ");PrintToken(&CurTok);printf("\n"); }
+}
+
+void RawGetToken(void)
+{
+    CurHash = ID_HASH_MAX;
+    while (ReplaceNest) {
+        struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
+        if (RS->TL) {
+            CurTok = RS->TL->Tok;
+            RS->TL = RS->TL->Next;
+            return;
+        }
+        --ReplaceNest;
+        if (!RS->M) {
+            // End of macro argument
+            CurTok.Type = TOK_EOF;
+            return;
+        }
+        FreeTokenList(RS->List);
+        RS->M->Hide = 0;
+    }
+
+    if (TokenQueueHead != TokenQueueTail) {
+        CurTok = TokenQueue[TokenQueueHead++];
+        if (TokenQueueHead == TokenQueueTail)
+            TokenQueueHead = TokenQueueTail = 0;
+        return;
+    }
+
+    FileGetToken();
 }
 
 const char* TokenTypeText(int Type)
@@ -901,39 +868,209 @@ void RawSkipWS(void)
         RawGetToken();
 }
 
-void Stringify(struct TokenList* TL);
+// Is the next token (that isn't white space) a '('?
+int AtLeftParen(void)
+{
+    int n;
+    int Type;
+    for (n = ReplaceNest; n--;) {
+        struct TokenList* TL = SkipTLWS(ReplaceStack[n].TL);
+        if (TL)
+            return TL->Tok.Type == '(';
+        if (!ReplaceStack[n].M)
+            return 0;
+    }
+    // Look ahead in the file
+    struct Token OldTok;
+    OldTok = CurTok;
+    KeepText();
+    for (n = TokenQueueHead;; ++n) {
+        if (n == TokenQueueTail) {
+            do {
+                FileGetToken();
+            } while (n != TokenQueueHead && (CurTok.Type == TOK_WHITESPACE || (CurTok.Type == TOK_NEWLINE && Type == TOK_NEWLINE)));
+            TokenQueuePush(&CurTok);
+        }
+        Type = TokenQueue[n].Type;
+        if (Type != TOK_WHITESPACE && (Type != TOK_NEWLINE || InDirective))
+            break;
+    }
+    CurTok = OldTok;
+    return Type == '(';
+}
 
-void PushHandleArg(struct Argument* A)
+void CollectArgs(struct Macro* M, struct TokenList** Args)
 {
-    if (Debug) {
-        printf("Handling arg %s\n", IdText[A->Id-TOK_ID]);
+    do {
+        RawGetToken();
+    } while (CurTok.Type != '(');
+    struct TokenList** ArgL = Args;
+    int NumArgs = 0;
+    int Nest = 0;
+    int PendWS = -1;
+    for (;;) {
+        RawGetToken();
+        const int T = CurTok.Type;
+        if (T == TOK_WHITESPACE || (T == TOK_NEWLINE && !InDirective)) {
+            if (PendWS == 0) PendWS = 1;
+            continue;
+        }
+        if (T == TOK_EOF || T == TOK_NEWLINE) Error("Unterminated macro call");
+        if (T == '(') {
+            ++Nest;
+        } else if (T == ')' && Nest) {
+            --Nest;
+        } else if (!Nest && (T == ')' || T == ',')) {
+            ++NumArgs;
+            if (T == ')')
+                break;
+            assert(NumArgs < MACRO_MAX);
+            ArgL = Args + NumArgs;
+            PendWS = -1;
+            continue;
+        }
+        if (PendWS == 1) {
+            struct Token WSTok;
+            WSTok.Type = TOK_WHITESPACE;
+            ArgL = AddToken(ArgL, &WSTok);
+        }
+        PendWS = 0;
+        ArgL = AddToken(ArgL, &CurTok);
+        KeepText();
     }
-    assert(ReplaceNest < MAX_NEST);
-    ReplaceStack[ReplaceNest].M  = 0;
-    ReplaceStack[ReplaceNest].TL = A->Replacement;
-    ReplaceStack[ReplaceNest].Stop = 0;
-    ++ReplaceNest;
+    struct Argument* A = M->Arguments;
+    if (A == (struct Argument*)1) {
+        if (!*Args) --NumArgs;
+    } else {
+        for (; A; A = A->Next)
+            --NumArgs;
+    }
+    if (NumArgs) Error("Wrong number of macro arguments");
+}
+
+void GetToken(void);
+
+struct TokenList* ExpandArg(struct TokenList* TL)
+{
+    struct TokenList* Res = 0;
+    struct TokenList** Last = &Res;
+    PushReplacement(0, TL);
+    for (;;) {
+        GetToken();
+        if (CurTok.Type == TOK_EOF)
+            break;
+        Last = AddToken(Last, &CurTok);
+        KeepText();
+    }
+    return Res;
 }
 
-struct Argument* GetArg(int Id)
+void Stringify(struct TokenList* TL, struct Token* Dst)
 {
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
+    KeepText();
+    TokenDataPos = NextTokenDataPos;
+    Dst->Type = TOK_STRLIT;
+    Dst->Text = &TokenData[TokenDataPos];
+    AddTextChar('"');
+    for (; TL; TL = TL->Next) {
+        const int T = TL->Tok.Type;
+        if (T == TOK_WHITESPACE)
+            AddTextChar(' ');
+        else if (T == TOK_STRLIT || T == TOK_CHARLIT)
+            AddEscaped(TL->Tok.Text);
+        else
+            AddText(TL->Tok.Text);
+    }
+    AddTextChar('"');
+    AddTextChar(0);
+    KeepText();
+}
+
+void PasteTokens(struct Token* Dst, const char* Text)
+{
+    KeepText();
+    TokenDataPos = NextTokenDataPos;
+    AddText(Dst->Text);
+    AddText(Text);
+    AddTextChar(0);
+    Dst->Text = &TokenData[NextTokenDataPos];
+    if (Dst->Type >= TOK_RAW_ID)
+        Dst->Type = TOK_RAW_ID;
+    else if (Dst->Type > ' ')
+        Dst->Type = TOK_CREATED_OP;
+    KeepText();
+}
+
+void ExpandMacro(struct Macro* M)
+{
+    struct TokenList* Raw[MACRO_MAX];
+    struct TokenList* Expanded[MACRO_MAX];
+    char IsExpanded[MACRO_MAX];
+    memset(Raw, 0, sizeof(Raw));
+    memset(Expanded, 0, sizeof(Expanded));
+    memset(IsExpanded, 0, sizeof(IsExpanded));
+    if (M->Arguments)
+        CollectArgs(M, Raw);
+
+    struct TokenList* Out = 0;
+    struct TokenList** Last = &Out;
+    struct Token* LastTok = 0;
+    struct TokenList* TL = M->Replacement;
+    int Paste = 0;
+    int LeftEmpty = 1;
+    while (TL) {
+        struct TokenList One;
+        struct TokenList* Src = &One;
+        One.Tok  = TL->Tok;
+        One.Next = 0;
+        TL = TL->Next;
+        if (One.Tok.Type == TOK_HASHHASH) {
+            Paste = 1;
+            TL = SkipTLWS(TL);
+            continue;
+        }
+        struct TokenList* Next = SkipTLWS(TL);
+        const int NextPaste = Next && Next->Tok.Type == TOK_HASHHASH;
+        if (One.Tok.Type == TOK_WHITESPACE) {
+            if (!NextPaste)
+                Last = AddToken(Last, &One.Tok);
+            continue;
+        } else if (One.Tok.Type == TOK_ARG || One.Tok.Type == TOK_STRINGIFY) {
+            const int Arg = (int)((struct Argument*)One.Tok.Text - M->Arguments);
+            if (One.Tok.Type == TOK_STRINGIFY) {
+                Stringify(Raw[Arg], &One.Tok);
+            } else if (Paste || NextPaste) {
+                Src = Raw[Arg];
+            } else {
+                if (!IsExpanded[Arg]) {
+                    Expanded[Arg] = ExpandArg(Raw[Arg]);
+                    IsExpanded[Arg] = 1;
                 }
-                return A;
+                Src = Expanded[Arg];
             }
         }
+        if (!Paste)
+            LeftEmpty = 1;
+        for (; Src; Src = Src->Next) {
+            if (Paste && !LeftEmpty) {
+                PasteTokens(LastTok, Src->Tok.Text);
+            } else {
+                struct TokenList** Pos = Last;
+                Last = AddToken(Last, &Src->Tok);
+                LastTok = &(*Pos)->Tok;
+            }
+            LeftEmpty = 0;
+            Paste = 0;
+        }
+        Paste = 0;
     }
-    return 0;
+    int i;
+    for (i = 0; i < MACRO_MAX; ++i) {
+        FreeTokenList(Raw[i]);
+        FreeTokenList(Expanded[i]);
+    }
+    M->Hide = 1;
+    PushReplacement(M, Out);
 }
 
 void GetToken(void)
@@ -941,187 +1078,46 @@ void GetToken(void)
     for (;;) {
         RawGetToken();
 
-        switch (CurTok.Type) {
-        case TOK_RAW_ID:
-            break;
-        case '#':
-            if (!ReplaceNest)
-                return;
-            if (Debug) printf("Stringify!\n");
-            RawGetToken();
-            RawSkipWS();
-            assert(CurTok.Type == TOK_ARG);
-            Stringify(((struct Argument*)CurTok.Text)->Replacement);
-            return;
-        case TOK_ARG:
-            PushHandleArg((struct Argument*)CurTok.Text);
-            continue;
-        default:
+        if (CurTok.Type != TOK_RAW_ID)
             return;
-        }
 
         ReplaceId();
         if (CurTok.Type < TOK_USER_ID) {
             if (CurTok.Type > TOK_DEFINED) {
-                if (Debug) printf("Special token! %s\n", CurTok.Text);
+                if (CurTok.Type == TOK___SCC__) {
+                    CurTok.Text = "1";
+                    CurTok.Type = TOK_NUM;
+                    return;
+                }
+                KeepText();
+                TokenDataPos = NextTokenDataPos;
                 if (CurTok.Type == TOK___LINE__) {
-                    char* T = &TokenData[NextTokenDataPos];
+                    char T[9];
                     sprintf(T, "%d", Line);
-                    NextTokenDataPos += (int)strlen(T) + 1;
-                    CurTok.Text = T;
+                    AddText(T);
                     CurTok.Type = TOK_NUM;
-                } else if (CurTok.Type == TOK___FILE__) {
-                    TokenDataPos = NextTokenDataPos;
-                    CurTok.Text = &TokenData[TokenDataPos];
+                } else {
                     AddTextChar('"');
                     AddEscaped(CurFile->Filename);
                     AddTextChar('"');
-                    AddTextChar(0);
-                    NextTokenDataPos = TokenDataPos;
                     CurTok.Type = TOK_STRLIT;
-                } else {
-                    CurTok.Text = "1";
-                    CurTok.Type = TOK_NUM;
                 }
+                AddTextChar(0);
+                CurTok.Text = &TokenData[NextTokenDataPos];
+                KeepText();
             }
             return;
         }
-        const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
-            continue;
-        }
-        struct Macro* M = &Macros[Id - TOK_USER_ID];
+
+        struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
         if (M->Hide)
             return;
-        if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
-        if (M->Arguments) {
-            RawGetToken();
-            int WS = CurTok.Type;
-            RawSkipWS();
-            if (CurTok.Type != '(') {
-                // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
-                    struct Token WSToken;
-                    WSToken.Type = WS;
-                    TokenQueuePush(&WSToken);
-                }
-                TokenQueuePush(&CurTok);
-                CurTok.Type = Id;
-                CurTok.Text = IdText[Id - TOK_ID];
-                return;
-            }
-            RawGetToken();
-            RawSkipWS();
-            if (CurTok.Type != ')') {
-                assert(M->Arguments != (struct Argument*)1);
-                A = M->Arguments;
-                while (A) {
-                    struct TokenList** ArgL = &A->Replacement;
-                    int Nest = 0;
-                    int PendWS = -1;
-                    for (;; RawGetToken()) {
-                        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-                            if (PendWS == 0) PendWS = 1;
-                            continue;
-                        }
-                        if (CurTok.Type == '(')
-                            ++Nest;
-                        else if (CurTok.Type == ')' && !Nest--)
-                            break;
-                        else if (!CurTok.Type || (!Nest && CurTok.Type == ','))
-                            break;
-                        if (PendWS == 1) {
-                            struct Token WSTok;
-                            WSTok.Type = TOK_WHITESPACE;
-                            ArgL = AddToken(ArgL, &WSTok);
-                        }
-                        PendWS = 0;
-                        ArgL = AddToken(ArgL, &CurTok);
-                        assert(TokenDataPos >= NextTokenDataPos);
-                        NextTokenDataPos = TokenDataPos; // Preserve the token data
-                    }
-                    *ArgL = 0;
-                    A = A->Next;
-                    if (CurTok.Type != ',')
-                        break;
-                    RawGetToken();
-                }
-                assert(!A && CurTok.Type == ')');
-            }
-        }
-        if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
-        if (M->Replacement) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = M;
-            ReplaceStack[ReplaceNest].TL = M->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            M->Hide = 1;
-            ++ReplaceNest;
-        } else {
-            FreeArgs(M->Arguments);
-        }
-    }
-}
-
-char StrBuf[256]; // HACK HACK
-
-void Stringify(struct TokenList* TL)
-{
-    int StrPos = 1;
-    int PendWS = 0;
-    int FromS = 0;
-    while (TL || FromS) {
-        if (!FromS) {
-            CurTok = TL->Tok;
-            TL = TL->Next;
-        } else {
-            GetToken();
-            if (CurTok.Type == TOK_EOF) {
-                --FromS;
-                if (Debug) printf("Hit stop: FromS=%d\n", FromS);
-                continue;
-            }
-        }
-        if (CurTok.Type == TOK_ARG) {
-            ++FromS;
-            if (Debug) printf("Switching to arg list FromS=%d\n", FromS);
-            PushHandleArg((struct Argument*)CurTok.Text);
-            ReplaceStack[ReplaceNest-1].Stop = 1;
-            continue;
-        }
-
-        if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
-        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-            PendWS = 1;
-        } else {
-            if (PendWS) {
-                assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
-                PendWS = 0;
-            }
-            const int Lit = CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT;
-            const char* T;
-            for (T = CurTok.Text; *T; ++T) {
-                assert(StrPos+2 < (int)sizeof(StrBuf));
-                if (Lit && (*T == '"' || *T == '\\'))
-                    StrBuf[StrPos++] = '\\';
-                StrBuf[StrPos++] = *T;
-            }
+        if (M->Arguments && !AtLeftParen()) {
+            CurTok.Type = TOK_RAW_ID;
+            return;
         }
+        ExpandMacro(M);
     }
-    assert(StrPos+1 < (int)sizeof(StrBuf));
-    StrBuf[0] = '"';
-    StrBuf[StrPos++] = '"';
-    StrBuf[StrPos] = 0;
-
-    CurTok.Type = TOK_STRLIT;
-    CurTok.Text = StrBuf;
 }
 
 void HandleDefine(void)
@@ -1183,18 +1179,26 @@ void HandleDefine(void)
     RawSkipWS();
     struct TokenList** Last = &M->Replacement;
     int PendWS = -1;
+    int LastType = 0;
+    if (CurTok.Type == TOK_HASHHASH) Error("Invalid use of ##");
     for (; CurTok.Type != TOK_NEWLINE; RawGetToken()) {
         if (CurTok.Type == TOK_WHITESPACE) {
             if (PendWS == 0) PendWS = 1;
             continue;
         }
+        int Str = 0;
+        if (M->Arguments && CurTok.Type == '#') {
+            Str = 1;
+            RawGetToken();
+            RawSkipWS();
+        }
         if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
                 while (A) {
                     if (A->Id == CurTok.Type) {
-                        CurTok.Type = TOK_ARG;
+                        CurTok.Type = Str ? TOK_STRINGIFY : TOK_ARG;
                         CurTok.Text = (char*)A;
                         goto Add;
                     }
@@ -1203,6 +1207,7 @@ void HandleDefine(void)
             }
             CurTok.Type = TOK_RAW_ID;
         }
+        if (Str) Error("# not followed by macro parameter");
 Add:
         if (PendWS == 1) {
             struct Token WS;
@@ -1210,9 +1215,11 @@ Add:
             Last = AddToken(Last, &WS);
         }
         PendWS = 0;
+        LastType = CurTok.Type;
         Last = AddToken(Last, &CurTok);
-        NextTokenDataPos = TokenDataPos; // Preserve the token data
+        KeepText();
     }
+    if (LastType == TOK_HASHHASH) Error("Invalid use of ##");
     *Last = 0;
 }
 
@@ -1335,6 +1342,7 @@ int EvalUnary(void)
         if (CurTok.Type == TOK_RAW_ID) ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
+        SkipWS();
         if (Par) Expect(')');
         return n;
     } else if (CurTok.Type >= TOK_RAW_ID) {
@@ -1513,14 +1521,14 @@ void GetMacroName(void)
 void HandleDirective(void)
 {
     RawSkipWS();
-    if (CurTok.Type == TOK_NEWLINE) {
-        return;
-    }
+    InDirective = 1;
     if (CurTok.Type == TOK_RAW_ID)
         ReplaceId();
     const int Directive = CurTok.Type;
 
-    if (Directive == TOK_DEFINE) {
+    if (Directive == TOK_NEWLINE) {
+        // Null directive
+    } else if (Directive == TOK_DEFINE) {
         if (CondActive()) HandleDefine();
     } else if (Directive == TOK_INCLUDE) {
         if (CondActive()) HandleInclude();
@@ -1577,6 +1585,7 @@ void HandleDirective(void)
     while (CurTok.Type != TOK_NEWLINE) {
         RawGetToken();
     }
+    InDirective = 0;
 }
 
 void OutputStr(const char* Str)
@@ -1604,7 +1613,7 @@ void PPMain(void)
     for (;;) {
         switch (CurTok.Type) {
         case '#':
-            if (!StartOfLine)
+            if (!StartOfLine || ReplaceNest)
                 break;
             RawGetToken();
             HandleDirective();
-- 
2.43.0


From 597de9f435d55c96f614765f667f6a1442e4a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 060/107] fix: scpp #define and #undef start from a clean
 definition; continued lines join inside literals and comments

---
 scpp.c | 150 ++++++++++++++++++++++++++++-----------------------------
 1 file changed, 75 insertions(+), 75 deletions(-)

diff --git a/scpp.c b/scpp.c
index bcaf03a..c12a137 100644
--- a/scpp.c
+++ b/scpp.c
@@ -292,6 +292,7 @@ enum {
     TOKEN_LIST_MAX  = 768,
     TOKEN_QUEUE_MAX = 16,
     ARGUMENT_MAX    = 32,
+    CALL_ARGS_MAX   = 16,   // Maximum number of arguments in macro call
     FILES_MAX       = 4,
     FILE_BUF_SIZE   = 512,
     FNAME_MAX       = 64,
@@ -414,7 +415,7 @@ struct Macro {
     struct TokenList* Replacement;
     char Hide; // 0=Not hidden, 1=Hidden while being expanded, 2=Undefined
 };
-enum { MACRO_MAX = ID_MAX-(TOK_USER_ID-TOK_ID) };
+enum { MACRO_MAX = ID_MAX };
 struct Macro Macros[MACRO_MAX];
 
 struct ReplaceStackElem {
@@ -602,14 +603,12 @@ Restart:
     case '/':
         ReadChar();
         if (CurrentChar == '/') {
-            do {
-                while ((CurrentChar = *CurFileBuf++)) {
-                    if (CurrentChar == '\n')
-                        goto Restart;
-                }
-                --CurFileBuf;
+            char Last = 0;
+            while (CurrentChar && (CurrentChar != '\n' || Last == '\\')) {
+                if (CurrentChar != '\r')
+                    Last = CurrentChar;
                 ReadChar();
-            } while (CurrentChar && CurrentChar != '\n');
+            }
             goto Restart;
         } else if (CurrentChar == '*') {
             ReadChar();
@@ -644,16 +643,22 @@ Restart:
             const int End = CurrentChar;
             ReadToTokenData();
             CurTok.Type = End == '"' ? TOK_STRLIT : TOK_CHARLIT;
-            int esc = 0;
-            while (esc || CurrentChar != End) {
+            while (CurrentChar != End) {
+                if (CurrentChar == '\\') {
+                    ReadToTokenData();
+                    if (CurrentChar == '\r')
+                        ReadChar();
+                    if (CurrentChar == '\n') {
+                        // Line continues
+                        --TokenDataPos;
+                        ReadChar();
+                        continue;
+                    }
+                }
                 if (!CurrentChar || CurrentChar == '\n') {
                     CurTok.Type = TOK_INVALID_LIT; // To support this happening in in-active block
                     goto Out;
                 }
-                if (CurrentChar == '\\')
-                    esc = !esc;
-                else
-                    esc = 0;
                 ReadToTokenData();
             }
             ReadToTokenData();
@@ -835,6 +840,7 @@ int AddId(const char* Text)
     while (IdHash[H &= ID_HASH_MAX-1] < ID_MAX)
         ++H;
     IdHash[H] = Id;
+    Macros[Id].Hide = 2; // Not defined yet
     return Id;
 }
 
@@ -924,7 +930,7 @@ void CollectArgs(struct Macro* M, struct TokenList** Args)
             ++NumArgs;
             if (T == ')')
                 break;
-            assert(NumArgs < MACRO_MAX);
+            assert(NumArgs < CALL_ARGS_MAX);
             ArgL = Args + NumArgs;
             PendWS = -1;
             continue;
@@ -1003,9 +1009,9 @@ void PasteTokens(struct Token* Dst, const char* Text)
 
 void ExpandMacro(struct Macro* M)
 {
-    struct TokenList* Raw[MACRO_MAX];
-    struct TokenList* Expanded[MACRO_MAX];
-    char IsExpanded[MACRO_MAX];
+    struct TokenList* Raw[CALL_ARGS_MAX];
+    struct TokenList* Expanded[CALL_ARGS_MAX];
+    char IsExpanded[CALL_ARGS_MAX];
     memset(Raw, 0, sizeof(Raw));
     memset(Expanded, 0, sizeof(Expanded));
     memset(IsExpanded, 0, sizeof(IsExpanded));
@@ -1065,7 +1071,7 @@ void ExpandMacro(struct Macro* M)
         Paste = 0;
     }
     int i;
-    for (i = 0; i < MACRO_MAX; ++i) {
+    for (i = 0; i < CALL_ARGS_MAX; ++i) {
         FreeTokenList(Raw[i]);
         FreeTokenList(Expanded[i]);
     }
@@ -1082,8 +1088,10 @@ void GetToken(void)
             return;
 
         ReplaceId();
-        if (CurTok.Type < TOK_USER_ID) {
-            if (CurTok.Type > TOK_DEFINED) {
+        if (CurTok.Type == TOK_RAW_ID)
+            return;
+        if (CurTok.Type >= TOK_DEFINED && CurTok.Type < TOK_USER_ID) {
+            if (CurTok.Type != TOK_DEFINED) {
                 if (CurTok.Type == TOK___SCC__) {
                     CurTok.Text = "1";
                     CurTok.Type = TOK_NUM;
@@ -1109,7 +1117,7 @@ void GetToken(void)
             return;
         }
 
-        struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
+        struct Macro* M = &Macros[CurTok.Type - TOK_ID];
         if (M->Hide)
             return;
         if (M->Arguments && !AtLeftParen()) {
@@ -1120,62 +1128,68 @@ void GetToken(void)
     }
 }
 
-void HandleDefine(void)
+void UndefMacro(struct Macro* M)
+{
+    M->Hide = 2;
+    M->Arguments = 0;
+    FreeTokenList(M->Replacement);
+    M->Replacement = 0;
+}
+
+void GetMacroName(void)
 {
     RawGetToken();
     RawSkipWS();
-    assert(CurTok.Type == TOK_RAW_ID);
+    if (CurTok.Type != TOK_RAW_ID) Error("Expected macro name");
     ReplaceId();
-    int Id = CurTok.Type;
-    struct Macro* M;
-    if (Id >= TOK_USER_ID) {
-        M = &Macros[Id-TOK_USER_ID];
-        if (!M->Hide) {
-            // Macro redifition (must match previous definition)
-            return;
-        }
-        // Macro was previously #undef'ed
-        M->Hide = 0;
-    } else {
-        Id = AddId(CurTok.Text) + TOK_ID;
-        NextTokenDataPos = TokenDataPos;
-        assert(Id - TOK_USER_ID < MACRO_MAX);
-        M = &Macros[Id-TOK_USER_ID];
+}
+
+void HandleDefine(void)
+{
+    GetMacroName();
+    if (CurTok.Type >= TOK_DEFINED && CurTok.Type < TOK_USER_ID) Error("Macro can't be defined");
+    if (CurTok.Type == TOK_RAW_ID) {
+        CurTok.Type = AddId(CurTok.Text) + TOK_ID;
+        KeepText();
     }
-    if (Debug) printf("Defining macro %s\n", IdText[Id-TOK_ID]);
+    struct Macro* M = &Macros[CurTok.Type-TOK_ID];
+    UndefMacro(M);
     RawGetToken();
-    struct Argument** LastArg;
     if (CurTok.Type == '(') { // Function-like macros
-        LastArg = &M->Arguments;
+        struct Argument** LastArg = &M->Arguments;
         RawGetToken();
         RawSkipWS();
         while (CurTok.Type != ')') {
-            RawSkipWS();
-            assert(CurTok.Type == TOK_RAW_ID);
+            if (CurTok.Type != TOK_RAW_ID) Error("Expected parameter name");
             ReplaceId();
             if (CurTok.Type == TOK_RAW_ID) {
                 CurTok.Type = AddId(CurTok.Text) + TOK_ID;
-                NextTokenDataPos = TokenDataPos;
-                assert(CurTok.Type - TOK_USER_ID < MACRO_MAX);
-                Macros[CurTok.Type-TOK_USER_ID].Hide = 2; // Prented the Id refers to an undefined macro
+                KeepText();
+            }
+            struct Argument* A;
+            for (A = M->Arguments; A; A = A->Next) {
+                if (A->Id == CurTok.Type) Error("Duplicate parameter name");
             }
             assert(ArgumentCount < ARGUMENT_MAX);
-            Argument[ArgumentCount].Id = CurTok.Type;
-            *LastArg = &Argument[ArgumentCount];
-            LastArg = &Argument[ArgumentCount].Next;
-            ++ArgumentCount;
+            A = &Argument[ArgumentCount++];
+            A->Id    = CurTok.Type;
+            A->Next  = 0;
+            *LastArg = A;
+            LastArg  = &A->Next;
             RawGetToken();
             RawSkipWS();
-            if (CurTok.Type != ',') {
-                break;
+            if (CurTok.Type == ',') {
+                RawGetToken();
+                RawSkipWS();
+                if (CurTok.Type == ')') Error("Expected parameter name");
+            } else if (CurTok.Type != ')') {
+                Error("Expected , or )");
             }
-            RawGetToken();
         }
-        *LastArg = 0;
-        assert(CurTok.Type == ')');
         RawGetToken();
         if (!M->Arguments) M->Arguments = (struct Argument*)1;
     }
+    M->Hide = 0;
     RawSkipWS();
     struct TokenList** Last = &M->Replacement;
     int PendWS = -1;
@@ -1194,7 +1208,7 @@ void HandleDefine(void)
         }
         if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
+            if (CurTok.Type >= TOK_ID && M->Arguments != (struct Argument*)1) {
                 struct Argument* A = M->Arguments;
                 while (A) {
                     if (A->Id == CurTok.Type) {
@@ -1250,7 +1264,7 @@ void Expect(int T)
 
 int IsDefined(int Tok)
 {
-    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_USER_ID && !Macros[Tok - TOK_USER_ID].Hide);
+    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_ID && !Macros[Tok - TOK_ID].Hide);
 }
 
 int EvalExpr(void);
@@ -1510,14 +1524,6 @@ void HandleInclude(void)
     ReadChar();
 }
 
-void GetMacroName(void)
-{
-    RawGetToken();
-    RawSkipWS();
-    if (CurTok.Type != TOK_RAW_ID) Error("Expected macro name");
-    ReplaceId();
-}
-
 void HandleDirective(void)
 {
     RawSkipWS();
@@ -1534,15 +1540,9 @@ void HandleDirective(void)
         if (CondActive()) HandleInclude();
     } else if (Directive == TOK_UNDEF) {
         if (CondActive()) {
-            RawGetToken();
-            RawSkipWS();
-            ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
-                // HACK: Just hide #undef'ed macros
-                Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
-                FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
-            }
-            GetToken();
+            GetMacroName();
+            if (CurTok.Type >= TOK_ID)
+                UndefMacro(&Macros[CurTok.Type - TOK_ID]);
         }
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
         if (CondActive()) {
-- 
2.43.0


From 422619d5a9b8fcd9710a607fd2f776d7640618c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 061/107] fix: scpp joins continued lines wherever the
 backslash falls

---
 scpp.c | 110 ++++++++++++++++++++++-----------------------------------
 1 file changed, 43 insertions(+), 67 deletions(-)

diff --git a/scpp.c b/scpp.c
index c12a137..a87f078 100644
--- a/scpp.c
+++ b/scpp.c
@@ -359,7 +359,6 @@ struct File {
     const char* Filename;
     int FD;
     char* BufPtr;
-    int BufSize;
     int OldLine;
     int OldCond; // Number of active conditionals on entry
     char LastChar;
@@ -461,21 +460,43 @@ void CloseFile(void)
     close(Files[NumFiles].FD);
 }
 
-void ReadChar(void)
+void ReadBuf(int Pos)
 {
-    if (CurrentChar == '\n') ++Line;
-    if ((CurrentChar = *CurFileBuf++))
-        return;
-
+    int Size = read(CurFile->FD, CurFile->Buf + Pos, FILE_BUF_SIZE-1 - Pos);
+    if (Size < 0) Size = 0;
+    CurFile->Buf[Pos + Size] = 0;
     CurFileBuf = CurFile->Buf;
-    CurFile->BufSize = read(CurFile->FD, CurFile->Buf, sizeof(CurFile->Buf)-1);
-    if (CurFile->BufSize <= 0) {
-        CurFile->BufSize = 0;
-        CurrentChar = 0;
-    } else {
-        CurrentChar = *CurFileBuf++;
+}
+
+// Is the rest of the line empty? (If so skip it)
+int SkipNewline(void)
+{
+    int i;
+    for (i = 0;; ++i) {
+        if (!CurFileBuf[i]) {
+            // The character after this one is in the next part of the file
+            if (i) CurFile->Buf[0] = '\r';
+            ReadBuf(i);
+        }
+        if (i || CurFileBuf[i] != '\r')
+            break;
     }
-    CurFile->Buf[CurFile->BufSize] = 0;
+    if (CurFileBuf[i] != '\n')
+        return 0;
+    CurFileBuf += i + 1;
+    ++Line;
+    return 1;
+}
+
+void ReadChar(void)
+{
+    if (CurrentChar == '\n') ++Line;
+    do {
+        if (!*CurFileBuf)
+            ReadBuf(0);
+        CurrentChar = *CurFileBuf;
+        if (CurrentChar) ++CurFileBuf;
+    } while (CurrentChar == '\\' && SkipNewline());
 }
 
 void Error(const char* Msg)
@@ -509,9 +530,6 @@ void ReadToTokenData(void)
 {
     assert(TokenDataPos < TOKEN_DATA_MAX);
     TokenData[TokenDataPos++] = CurrentChar;
-    if ((CurrentChar = *CurFileBuf++))
-        return;
-    --CurFileBuf;
     ReadChar();
 }
 
@@ -603,12 +621,8 @@ Restart:
     case '/':
         ReadChar();
         if (CurrentChar == '/') {
-            char Last = 0;
-            while (CurrentChar && (CurrentChar != '\n' || Last == '\\')) {
-                if (CurrentChar != '\r')
-                    Last = CurrentChar;
+            while (CurrentChar && CurrentChar != '\n')
                 ReadChar();
-            }
             goto Restart;
         } else if (CurrentChar == '*') {
             ReadChar();
@@ -626,17 +640,6 @@ Restart:
         assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = '/';
         goto Out;
-    case '\\':
-        CurTok.Type = CurrentChar;
-        ReadToTokenData();
-        if (CurrentChar == '\r') {
-            ReadChar();
-            assert(CurrentChar == '\n');
-        }
-        if (CurrentChar != '\n')
-            goto Out;
-        ReadChar();
-        goto Restart;
     case '"':
     case '\'':
         {
@@ -644,17 +647,8 @@ Restart:
             ReadToTokenData();
             CurTok.Type = End == '"' ? TOK_STRLIT : TOK_CHARLIT;
             while (CurrentChar != End) {
-                if (CurrentChar == '\\') {
+                if (CurrentChar == '\\')
                     ReadToTokenData();
-                    if (CurrentChar == '\r')
-                        ReadChar();
-                    if (CurrentChar == '\n') {
-                        // Line continues
-                        --TokenDataPos;
-                        ReadChar();
-                        continue;
-                    }
-                }
                 if (!CurrentChar || CurrentChar == '\n') {
                     CurTok.Type = TOK_INVALID_LIT; // To support this happening in in-active block
                     goto Out;
@@ -678,17 +672,9 @@ Restart:
 
     if ((unsigned char)CurrentChar <= ' ') {
         CurTok.Type = TOK_WHITESPACE;
-        ReadChar();
-        if (!CurrentChar)
-            return;
-        while ((unsigned char)CurrentChar <= ' ' && CurrentChar != '\n') {
-            if ((CurrentChar = *CurFileBuf++))
-                continue;
-            --CurFileBuf;
+        do {
             ReadChar();
-            if (!CurrentChar)
-                return;
-        }
+        } while (CurrentChar && (unsigned char)CurrentChar <= ' ' && CurrentChar != '\n');
         return;
     }
 
@@ -696,15 +682,8 @@ Restart:
         if ((unsigned)(CurrentChar - '0') < 10) {
             CurTok.Type = TOK_NUM;
             ReadToTokenData();
-            if (CurrentChar == 'x' || CurrentChar == 'X')
+            while (IsIdCh())
                 ReadToTokenData();
-            while (IsIdCh()) {
-                TokenData[TokenDataPos++] = CurrentChar;
-                if ((CurrentChar = *CurFileBuf++))
-                    continue;
-                --CurFileBuf;
-                ReadChar();
-            }
             goto Out;
         }
     } else if (IsIdCh()) {
@@ -712,11 +691,8 @@ Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
-            CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
-            if (!(CurrentChar = *CurFileBuf++)) {
-                --CurFileBuf;
-                ReadChar();
-            }
+            CurHash += (CurHash<<4)+CurrentChar;
+            ReadToTokenData();
         } while (IsIdCh());
         CurHash &= ID_HASH_MAX-1;
         goto Out;
@@ -1101,7 +1077,7 @@ void GetToken(void)
                 TokenDataPos = NextTokenDataPos;
                 if (CurTok.Type == TOK___LINE__) {
                     char T[9];
-                    sprintf(T, "%d", Line);
+                    sprintf(T, "%d", TokLine);
                     AddText(T);
                     CurTok.Type = TOK_NUM;
                 } else {
@@ -1553,7 +1529,7 @@ void HandleDirective(void)
         }
     } else if (Directive == TOK_ERROR) {
         if (CondActive()) {
-            printf("#error in %s:%d!\n", CurFile->Filename, Line);
+            printf("#error in %s:%d!\n", CurFile->Filename, TokLine);
             exit(1);
         }
     } else if (Directive == TOK_PRAGMA || Directive == TOK_LINE) {
-- 
2.43.0


From 68571e9c51ea2f0572b29d317fcd12ed816060a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 062/107] fix: scpp keeps adjacent tokens apart, reclaims token
 text and checks #include and file names

Operators are read whole, so that tokens that meet through expansion can be
separated; text is reclaimed after each line; an included file that doesn't end
in a newline no longer runs into the next line; the output never overwrites the input.
---
 scpp.c | 108 ++++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 87 insertions(+), 21 deletions(-)

diff --git a/scpp.c b/scpp.c
index a87f078..8a8d478 100644
--- a/scpp.c
+++ b/scpp.c
@@ -373,6 +373,7 @@ const char* CurFileBuf;
 
 char TokenData[TOKEN_DATA_MAX];
 int TokenDataPos;
+int PermTokenDataPos; // End of the data that's kept for ever (names, definitions)
 int NextTokenDataPos; // Bump this to avoid the current token being overwritten
 
 const char* IdText[ID_MAX];
@@ -424,6 +425,7 @@ struct ReplaceStackElem {
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
 int InDirective;
+int LineExpanded; // Has a macro been expanded in this line?
 
 enum {
     COND_TRUE,        // In active block
@@ -601,9 +603,14 @@ void PushReplacement(struct Macro* M, struct TokenList* TL)
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
 
+int CharIsId(char Ch)
+{
+    return (IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1;
+}
+
 int IsIdCh(void)
 {
-    return (IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1;
+    return CharIsId(CurrentChar);
 }
 
 void FileGetToken(void)
@@ -639,6 +646,7 @@ Restart:
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = '/';
+        TryExtendOp('=', TOK_CREATED_OP);
         goto Out;
     case '"':
     case '\'':
@@ -710,25 +718,34 @@ Identifier:
         TryExtendOp('=', TOK_NOTEQ);
         break;
     case '<':
-        if (!TryExtendOp('=', TOK_LTEQ))
-            TryExtendOp('<', TOK_SHL);
+        if (!TryExtendOp('=', TOK_LTEQ) && TryExtendOp('<', TOK_SHL))
+            TryExtendOp('=', TOK_CREATED_OP);
         break;
     case '>':
-        if (!TryExtendOp('=', TOK_GTEQ))
-            TryExtendOp('>', TOK_SHR);
+        if (!TryExtendOp('=', TOK_GTEQ) && TryExtendOp('>', TOK_SHR))
+            TryExtendOp('=', TOK_CREATED_OP);
         break;
     case '&':
-        TryExtendOp('&', TOK_ANDAND);
+        if (!TryExtendOp('&', TOK_ANDAND))
+            TryExtendOp('=', TOK_CREATED_OP);
         break;
     case '|':
-        TryExtendOp('|', TOK_OROR);
+        if (!TryExtendOp('|', TOK_OROR))
+            TryExtendOp('=', TOK_CREATED_OP);
         break;
-    case '*':
-    case '/':
-    case '%':
     case '+':
+        if (!TryExtendOp('+', TOK_CREATED_OP))
+            TryExtendOp('=', TOK_CREATED_OP);
+        break;
     case '-':
+        if (!TryExtendOp('-', TOK_CREATED_OP) && !TryExtendOp('>', TOK_CREATED_OP))
+            TryExtendOp('=', TOK_CREATED_OP);
+        break;
+    case '*':
+    case '%':
     case '^':
+        TryExtendOp('=', TOK_CREATED_OP);
+        break;
     case '(':
     case ')':
     case '?':
@@ -1052,6 +1069,7 @@ void ExpandMacro(struct Macro* M)
         FreeTokenList(Expanded[i]);
     }
     M->Hide = 1;
+    LineExpanded = 1;
     PushReplacement(M, Out);
 }
 
@@ -1211,6 +1229,7 @@ Add:
     }
     if (LastType == TOK_HASHHASH) Error("Invalid use of ##");
     *Last = 0;
+    PermTokenDataPos = NextTokenDataPos;
 }
 
 void SkipWS(void)
@@ -1472,23 +1491,27 @@ void HandleInclude(void)
     GetToken();
     SkipWS();
 
-    const char* Filename;
+    KeepText();
+    TokenDataPos = NextTokenDataPos;
+    const char* Filename = &TokenData[TokenDataPos];
     if (CurTok.Type == '<') {
-        TokenDataPos = NextTokenDataPos;
-        Filename = &TokenData[TokenDataPos];
         while (CurrentChar != '>') {
+            if (!CurrentChar || CurrentChar == '\n') Error("Invalid #include");
             ReadToTokenData();
         }
-        TokenData[TokenDataPos++] = 0;
-        NextTokenDataPos = TokenDataPos;
+        ReadChar();
     } else {
-        NextTokenDataPos = TokenDataPos;
-        Filename = CurTok.Text + 1;
-        TokenData[TokenDataPos-2] = 0; // Remove final quote
+        if (CurTok.Type != TOK_STRLIT) Error("Invalid #include");
+        AddText(CurTok.Text + 1);
+        --TokenDataPos; // Remove final quote
     }
-    RawGetToken();
+    AddTextChar(0);
+    KeepText();
+    PermTokenDataPos = NextTokenDataPos;
+    do {
+        RawGetToken();
+    } while (CurTok.Type != TOK_NEWLINE);
     CurFile->LastChar = CurrentChar;
-    CurTok.Type = TOK_NEWLINE;
     CurFile->BufPtr = (char*)CurFileBuf;
     assert((unsigned)(CurFile->BufPtr - CurFile->Buf) < sizeof(CurFile->Buf));
     if (Debug) printf("Entering '%s' (%d)\n", Filename, NumFiles);
@@ -1577,6 +1600,31 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+// Forget the text of tokens that are no longer needed
+void ReclaimText(void)
+{
+    if (!ReplaceNest && TokenQueueHead == TokenQueueTail)
+        NextTokenDataPos = TokenDataPos = PermTokenDataPos;
+}
+
+// Would the current token merge with the last one written?
+int NeedSpace(void)
+{
+    const char* End = OutFile->BufPtr;
+    const char C = *CurTok.Text;
+    char P;
+    if (End == OutFile->Buf) // Buffer was just written
+        End += sizeof(OutFile->Buf);
+    P = End[-1];
+    if (CharIsId(P))
+        return CharIsId(C);
+    if (C == P)
+        return C == '+' || C == '-' || C == '&' || C == '|' || C == '<' || C == '>' || C == '=' || C == '/' || C == '#';
+    if (C == '=')
+        return P == '+' || P == '-' || P == '*' || P == '/' || P == '%' || P == '&' || P == '|' || P == '^' || P == '<' || P == '>' || P == '!';
+    return (P == '-' && C == '>') || (P == '/' && C == '*');
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1589,7 +1637,7 @@ void PPMain(void)
     for (;;) {
         switch (CurTok.Type) {
         case '#':
-            if (!StartOfLine || ReplaceNest)
+            if (!StartOfLine || LineExpanded)
                 break;
             RawGetToken();
             HandleDirective();
@@ -1597,6 +1645,8 @@ void PPMain(void)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
             StartOfLine = 1;
+            LineExpanded = 0;
+            ReclaimText();
             Active = CondActive();
             if (Active) GetToken();
             else RawGetToken();
@@ -1613,6 +1663,7 @@ void PPMain(void)
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
             StartOfLine = 1;
+            WS |= WS_NEWLINE;
             GetToken();
             continue;
         }
@@ -1632,6 +1683,8 @@ void PPMain(void)
         case TOK_NEWLINE:
             WS |= WS_NEWLINE;
             StartOfLine = 1;
+            LineExpanded = 0;
+            ReclaimText();
             GetToken();
             continue;
         }
@@ -1643,6 +1696,8 @@ void PPMain(void)
             }
             WS = 0;
         }
+        else if (!StartOfLine && NeedSpace())
+            OutputStr(" ");
         StartOfLine = 0;
         OutputStr(CurTok.Text);
         GetToken();
@@ -1653,9 +1708,16 @@ void MakeOutputFilename(char* dest, const char* n)
 {
     char* LastDot;
     LastDot = 0;
+    char* End = dest + FNAME_MAX-3;
     while (*n) {
+        if (dest == End) {
+            printf("Filename too long\n");
+            exit(1);
+        }
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     if (!LastDot) LastDot = dest;
@@ -1675,6 +1737,10 @@ int main(int argc, char** argv)
         MakeOutputFilename(Temp, argv[1]);
         OutName = Temp;
     }
+    if (!strcmp(OutName, argv[1])) {
+        printf("Output would overwrite %s\n", argv[1]);
+        return 1;
+    }
     OutFile = OpenFile(OutName, 1);
 
     // Open input after output to have nice stack of files
-- 
2.43.0


From 80894e897a9285353d19e7ded46d94df5db12c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 063/107] fix: scpp: don't expand a macro passed as argument of
 a call in its own expansion

---
 scpp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scpp.c b/scpp.c
index 8a8d478..738c945 100644
--- a/scpp.c
+++ b/scpp.c
@@ -934,6 +934,12 @@ void CollectArgs(struct Macro* M, struct TokenList** Args)
             ArgL = AddToken(ArgL, &WSTok);
         }
         PendWS = 0;
+        if (T == TOK_RAW_ID) {
+            // Once seen inside its own expansion a name is never expanded
+            ReplaceId();
+            if (CurTok.Type < TOK_ID || Macros[CurTok.Type - TOK_ID].Hide != 1)
+                CurTok.Type = TOK_RAW_ID;
+        }
         ArgL = AddToken(ArgL, &CurTok);
         KeepText();
     }
-- 
2.43.0


From 46a26ca645b57c4d4304f6999739239f2df5b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 064/107] fix: scpp: a directive may end with the file

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 738c945..428d60e 100644
--- a/scpp.c
+++ b/scpp.c
@@ -667,7 +667,7 @@ Restart:
             goto Out;
         }
     case 0:
-        if (CurTok.Type == TOK_EOF) {
+        if (InDirective || CurTok.Type == TOK_EOF) {
             // Fake up a newline to break out of loops
             CurTok.Type = TOK_NEWLINE;
         } else {
-- 
2.43.0


From 4d59ec453a1d27f2b54b59f401dd84fd5791ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 065/107] fix: scpp: lines of an included file were off by one
 when an empty line followed the #include

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 428d60e..6f75d2d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1526,6 +1526,7 @@ void HandleInclude(void)
     CurFile->OldCond = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0;
     ReadChar();
 }
 
-- 
2.43.0


From 08de2635369abd84c2282913cc17bd76bca97d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 066/107] fix: scpp: directive after an included file that ends
 in a macro use was passed through

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 6f75d2d..af3e3c1 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1670,6 +1670,7 @@ void PPMain(void)
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
             StartOfLine = 1;
+            LineExpanded = 0;
             WS |= WS_NEWLINE;
             GetToken();
             continue;
-- 
2.43.0


From 5206520483f7bc21a5310211d4eb40b63892befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 067/107] fix: sas: report what is not supported with the line
 instead of aborting

---
 sas.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index 450f35f..401cf08 100644
--- a/sas.c
+++ b/sas.c
@@ -6,7 +6,6 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <string.h>
-#include <assert.h>
 
 #include <fcntl.h>
 #include <sys/stat.h>
@@ -456,14 +455,14 @@ void Fatal(const char* format, ...)
     exit(1);
 }
 
-#ifdef __SCC__
 void assert(int res)
 {
     if (!res) {
         Fatal("Assertion failed");
     }
 }
-#else
+
+#ifndef __SCC__
 #define Fatal(...) do { printf("%s:%d: ", __FILE__, __LINE__); Fatal(__VA_ARGS__); } while (0)
 #endif
 
-- 
2.43.0


From 9205596e219a0fefe0ebec6350c1ab48c1477152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 068/107] fix: sas: name the line of the statement at fault,
 not of the token read ahead

---
 sas.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 401cf08..af8a786 100644
--- a/sas.c
+++ b/sas.c
@@ -401,6 +401,7 @@ int InBufCnt;
 int InBufSize;
 
 int Line = 1;
+int ErrorLine = 1; // Line of the statement being assembled
 char CurrentChar;
 
 char IdBuffer[IDBUFFER_MAX];
@@ -412,6 +413,7 @@ int IdCount;
 struct Label Labels[ID_MAX-(TOK_USER_ID-TOK_ID)];
 
 int TokenType;
+int TokenLine;
 
 char OutputBuf[OUTPUT_MAX];
 int OutputBufPos;
@@ -445,7 +447,7 @@ int SizeOverride;
 
 void Fatal(const char* format, ...)
 {
-    printf("\nLine %d: Fatal error: ", Line);
+    printf("\nLine %d: Fatal error: ", ErrorLine);
     char msg[80];
     va_list args;
     va_start(args, format);
@@ -628,6 +630,7 @@ SkipSpaces:
     }
 
     TokenType = CurrentChar;
+    TokenLine = Line;
 
     if (!CurrentChar) {
         // EOF
@@ -678,7 +681,10 @@ SkipSpaces:
         ReadChar();
         while (CurrentChar != '\'') {
             assert(Len < (int)sizeof(StringBuf));
-            if (!CurrentChar) Fatal("Unexpected EOF in string literal");
+            if (!CurrentChar) {
+                ErrorLine = TokenLine;
+                Fatal("Unexpected EOF in string literal");
+            }
             StringBuf[Len++] = CurrentChar;
             ReadChar();
         }
@@ -710,6 +716,7 @@ SkipSpaces:
         }
         break;
     }
+    ErrorLine = TokenLine;
     Fatal("Unhandled char %c (%d)", TokenType, TokenType);
 }
 
@@ -1613,6 +1620,7 @@ int main(int argc, char** argv)
     ReadChar();
     GetToken();
     while (TokenType) {
+        ErrorLine = TokenLine;
         if (TokenType >= TOK_USER_ID) {
             struct Label* L = &Labels[TokenType - TOK_USER_ID];
             const int global = IdText(TokenType)[0] != '.';
-- 
2.43.0


From f29cec0faee2d5af8e0369e664a22737e41da89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 069/107] fix: sas: message buffers hold the longest string,
 and end of file has a name

---
 sas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index af8a786..aef4995 100644
--- a/sas.c
+++ b/sas.c
@@ -218,7 +218,7 @@ void sprintf(char* str, const char* format, ...)
 
 void printf(const char* format, ...)
 {
-    char msg[80];
+    char msg[200];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -448,7 +448,7 @@ int SizeOverride;
 void Fatal(const char* format, ...)
 {
     printf("\nLine %d: Fatal error: ", ErrorLine);
-    char msg[80];
+    char msg[160];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -724,6 +724,7 @@ char TokenTextBuf[32];
 const char* TokenText(void)
 {
     switch (TokenType) {
+    case TOK_EOF:    return "end of file";
     case TOK_NUMBER: sprintf(TokenTextBuf, "%d", TokenVal.Num); break;
     case TOK_STRING: return TokenVal.Str.Data;
     case TOK_LSH:    return "<<";
-- 
2.43.0


From a0a0c40795e878dc79320f1c4aa7021e568ce443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 070/107] fix: sas: a string ends on its line and fits its
 buffer

---
 sas.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index aef4995..22f24ed 100644
--- a/sas.c
+++ b/sas.c
@@ -680,10 +680,9 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
-            if (!CurrentChar) {
+            if (!CurrentChar || CurrentChar == '\n' || Len == (int)sizeof(StringBuf)-1) {
                 ErrorLine = TokenLine;
-                Fatal("Unexpected EOF in string literal");
+                Fatal("Unterminated or too long string literal");
             }
             StringBuf[Len++] = CurrentChar;
             ReadChar();
-- 
2.43.0


From 7c2b178bb6a8a72f6acb4ccd220aed596985bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 071/107] fix: sas: only white space is white space

---
 sas.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index 22f24ed..50b1a76 100644
--- a/sas.c
+++ b/sas.c
@@ -402,7 +402,7 @@ int InBufSize;
 
 int Line = 1;
 int ErrorLine = 1; // Line of the statement being assembled
-char CurrentChar;
+signed char CurrentChar;
 
 char IdBuffer[IDBUFFER_MAX];
 int IdOffset[ID_MAX];
@@ -548,12 +548,17 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
-        if (!InBufSize) {
+        if (InBufSize <= 0) {
+            InBufSize = InBufCnt;
             CurrentChar = 0;
             return;
         }
     }
     CurrentChar = InBuf[InBufCnt++];
+    if (!CurrentChar) {
+        ErrorLine = Line;
+        Fatal("NUL character");
+    }
     if (CurrentChar == '\n') ++Line;
 }
 
@@ -621,7 +626,7 @@ void TranslateIdToken(void)
 void GetToken(void)
 {
 SkipSpaces:
-    while (CurrentChar && CurrentChar <= ' ')
+    while (CurrentChar > 0 && CurrentChar <= ' ')
         ReadChar();
     if (CurrentChar == ';') {
         while (CurrentChar && CurrentChar != '\n')
-- 
2.43.0


From 7dfc30d4ade0d7e41169a5336cf11a285b0d5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 072/107] fix: sas: reject malformed numbers and numbers that
 do not fit a word

---
 sas.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/sas.c b/sas.c
index 50b1a76..246cbdc 100644
--- a/sas.c
+++ b/sas.c
@@ -567,6 +567,14 @@ int IsDigit(void)
     return CurrentChar >= '0' && CurrentChar <= '9';
 }
 
+int DigitValue(void)
+{
+    if (IsDigit()) return CurrentChar - '0';
+    if (CurrentChar >= 'A' && CurrentChar <= 'F') return CurrentChar - 'A' + 10;
+    if (CurrentChar >= 'a' && CurrentChar <= 'f') return CurrentChar - 'a' + 10;
+    return 16;
+}
+
 int IsAlpha(void)
 {
     return (CurrentChar >= 'A' && CurrentChar <= 'Z') || (CurrentChar >= 'a' && CurrentChar <= 'z');
@@ -642,27 +650,31 @@ SkipSpaces:
         return;
     } else if (IsDigit()) {
         int n = CurrentChar-'0';
+        int Bad = 0;
         ReadChar();
         if (!n) {
             if (CurrentChar == 'x' || CurrentChar == 'X') {
                 ReadChar();
-                for (;;) {
-                    if (IsDigit())
-                        n = n*16+CurrentChar-'0';
-                    else if (CurrentChar >= 'A' && CurrentChar <= 'F')
-                        n = n*16+CurrentChar-'A'+10;
-                    else if (CurrentChar >= 'a' && CurrentChar <= 'f')
-                        n = n*16+CurrentChar-'a'+10;
-                    else
-                        break;
+                Bad = DigitValue() > 15;
+                while (DigitValue() < 16) {
+                    if (n & 0xf000) Bad = 1;
+                    n = (n & 0xfff)*16 + DigitValue();
                     ReadChar();
                 }
             }
         }
         while (IsDigit()) {
+            if ((unsigned)n > 6553 || (n == 6553 && CurrentChar > '5')) {
+                Bad = 1;
+                n = 0;
+            }
             n = n*10 + CurrentChar-'0';
             ReadChar();
         }
+        if (Bad || IsIdChar()) {
+            ErrorLine = TokenLine;
+            Fatal("Invalid number");
+        }
         TokenType = TOK_NUMBER;
         TokenVal.Num = n;
         return;
-- 
2.43.0


From b4de71c9e052f67702a0964dc3946fa8679abb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 073/107] fix: sas: reject names and sources that do not fit
 the tables

---
 sas.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sas.c b/sas.c
index 246cbdc..ffcc8de 100644
--- a/sas.c
+++ b/sas.c
@@ -493,7 +493,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
-    assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdBufferIndex + l <= IDBUFFER_MAX && IdCount < ID_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
@@ -679,11 +679,14 @@ SkipSpaces:
         TokenVal.Num = n;
         return;
     } else if (IsIdChar()) {
-        char Token[17];
+        char Token[64];
         char* Tp = Token;
         do {
-            if (Tp < &Token[sizeof(Token)-1])
-                *Tp++ = CurrentChar;
+            if (Tp == &Token[sizeof(Token)-1]) {
+                ErrorLine = TokenLine;
+                Fatal("Identifier too long");
+            }
+            *Tp++ = CurrentChar;
             ReadChar();
         } while (IsDigit() || IsIdChar());
         *Tp++ = 0;
@@ -1067,7 +1070,7 @@ void HandleDirective(int Dir)
 
 void AddFixupHere(struct Label* L, char Type)
 {
-    assert(NextFixup);
+    assert(NextFixup != 0);
     struct Fixup* F = NextFixup;
     NextFixup = NextFixup->Next;
     F->Type   = Type;
-- 
2.43.0


From 75cd504a7203b86176c6f9009884d3c0d26b2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 074/107] fix: sas: encode segment overrides, which come first
 in the operand

---
 sas.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index ffcc8de..801eb51 100644
--- a/sas.c
+++ b/sas.c
@@ -910,6 +910,7 @@ int TranslateMemMod(int Start)
 void ParseOperand(struct Operand* Oper)
 {
     int neg = 0;
+    int First = 1;
     Oper->Disp  = 0;
     Oper->Fixup = 0;
     if (TokenType == TOK_NUMBER || TokenType == TOK_STRING || IsUnaryOp()) {
@@ -921,11 +922,12 @@ DoMem:
         Oper->Type  = OPTYPE_MEM;
         Oper->ModRM = -1;
         for (;;) {
-            if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
+            if (First && TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
+                First = 0;
                 continue;
             } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
@@ -952,6 +954,7 @@ DoMem:
                 continue;
             }
             neg = 0;
+            First = 0;
             if (!Accept(TOK_PLUS))
                 break;
         }
-- 
2.43.0


From 36e34f0024c52c9600d74d78b63656a95ac354c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 075/107] fix: sas: [bp+label] with a label defined later, and
 no negated registers or labels

---
 sas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 801eb51..56db0e5 100644
--- a/sas.c
+++ b/sas.c
@@ -930,6 +930,7 @@ DoMem:
                 First = 0;
                 continue;
             } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
+                assert(!neg);
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
                 GetToken();
             } else if (TokenType == TOK_NUMBER) {
@@ -939,7 +940,7 @@ DoMem:
                     Oper->Disp += TokenVal.Num;
                 GetToken();
             } else if (TokenType >= TOK_USER_ID) {
-                assert(!Oper->Fixup);
+                assert(!neg && !Oper->Fixup);
                 struct Label* L = ReferenceLabel();
                 assert(L->Type == LABEL_NORMAL);
                 if (L->Val == -1)
@@ -960,7 +961,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From 7cdcccba617a3ab268e02293e2e3bea2b5885d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 076/107] fix: sas: reject operands of different sizes,
 misplaced segment registers and shift counts

---
 sas.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/sas.c b/sas.c
index 56db0e5..5537451 100644
--- a/sas.c
+++ b/sas.c
@@ -1003,6 +1003,36 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+int OperandSize(struct Operand* Oper)
+{
+    if (Oper->Type == OPTYPE_REG) return Oper->Disp >= TOK_AX ? 2 : 1;
+    return Oper->Type == OPTYPE_MEM ? SizeOverride : 0;
+}
+
+void CheckSizes(struct Operand* op1, struct Operand* op2)
+{
+    const int s1 = OperandSize(op1);
+    const int s2 = OperandSize(op2);
+    if (s1 && s2 && s1 != s2)
+        Fatal("Operand size mismatch");
+}
+
+// Anything but a segment register
+void ParseGeneral(struct Operand* Oper)
+{
+    ParseOperand(Oper);
+    if (Oper->Type == OPTYPE_REG && Oper->Disp >= TOK_ES)
+        Fatal("Invalid use of segment register");
+}
+
+void Parse2General(struct Operand* op1, struct Operand* op2)
+{
+    ParseGeneral(op1);
+    Expect(TOK_COMMA);
+    ParseGeneral(op2);
+    CheckSizes(op1, op2);
+}
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -1145,8 +1175,10 @@ void HandleMOV(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    CheckSizes(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
+        assert(op1.Disp < TOK_ES || op2.Type == OPTYPE_MEM || (op2.Type == OPTYPE_REG && op2.Disp < TOK_ES));
         if (op2.Type == OPTYPE_REG) {
             int Inst;
             int ModRM = (op1.Disp&7) | (op2.Disp&7)<<3;
@@ -1191,7 +1223,7 @@ void HandleALU(int Base)
 {
     (void)Base;
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    Parse2General(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         const int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1231,13 +1263,17 @@ void HandleALU(int Base)
 void HandleROT(int r)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseGeneral(&op1);
+    Expect(TOK_COMMA);
+    ParseGeneral(&op2);
     assert(op1.Type == OPTYPE_REG);
     const int W = op1.Disp >= TOK_AX;
     int Inst = 0xD0 | W;
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && op2.Disp == 1 && !op2.Fixup);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
@@ -1260,8 +1296,9 @@ void HandleRel16(struct Operand* Op)
 void HandleCALL(void)
 {
     struct Operand op;
-    ParseOperand(&op);
+    ParseGeneral(&op);
     if (op.Type == OPTYPE_REG) {
+        assert(op.Disp >= TOK_AX);
         OutputByte(0xFF);
         OutputByte(0xC0 | 2<<3 | (op.Disp&7));
     } else {
@@ -1307,7 +1344,7 @@ void HandleIncDec(int Dec)
 {
     (void)Dec;
     struct Operand op;
-    ParseOperand(&op);
+    ParseGeneral(&op);
     if (op.Type == OPTYPE_REG) {
         if (op.Disp >= TOK_AX) {
             OutputByte(0x40 | Dec<<3 | (op.Disp&7));
@@ -1364,7 +1401,7 @@ void HandleINT(void)
 void HandleTEST(void)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    Parse2General(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         assert(op2.Type == OPTYPE_LIT);
         const int W = op1.Disp >= TOK_AX;
@@ -1388,7 +1425,7 @@ void HandleTEST(void)
 void HandleXCHG(void)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    Parse2General(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1408,7 +1445,7 @@ void HandleMulDiv(int r)
 {
     (void)r;
     struct Operand op;
-    ParseOperand(&op);
+    ParseGeneral(&op);
     assert(op.Type == OPTYPE_REG);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
@@ -1418,7 +1455,7 @@ void HandleNotNeg(int r)
 {
     (void)r;
     struct Operand op;
-    ParseOperand(&op);
+    ParseGeneral(&op);
     assert(op.Type == OPTYPE_REG);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
@@ -1428,7 +1465,7 @@ void HandleLEA(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
-    assert(op1.Type == OPTYPE_REG);
+    assert(op1.Type == OPTYPE_REG && op1.Disp >= TOK_AX && op1.Disp < TOK_ES);
     assert(op2.Type == OPTYPE_MEM);
     OutputMR(0x8D, &op2, &op1);
 }
-- 
2.43.0


From 2ee30d5ca1507b485be73132ffe294be55f678c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 077/107] fix: sas: reject values that do not fit a byte

---
 sas.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 5537451..db0b460 100644
--- a/sas.c
+++ b/sas.c
@@ -881,6 +881,12 @@ int IsShort(int V)
     return (V&0xffff) == ((signed char)V & 0xffff);
 }
 
+void CheckByte(int V)
+{
+    if ((V & 0xff00) && (V & 0xff80) != 0xff80)
+        Fatal("Value does not fit a byte");
+}
+
 int TranslateMemMod(int Start)
 {
     switch (TokenType) {
@@ -1038,9 +1044,10 @@ void HandleDx(int size)
     int n = 0; // Keep count of string output for alignment
     do {
         if (TokenType == TOK_NUMBER) {
-            if (size == 1)
+            if (size == 1) {
+                CheckByte(TokenVal.Num);
                 OutputByte(TokenVal.Num);
-            else
+            } else
                 OutputWord(TokenVal.Num);
             GetToken();
         } else if (TokenType == TOK_STRING) {
@@ -1116,6 +1123,7 @@ void AddFixupHere(struct Label* L, char Type)
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
+    CheckByte(Op->Disp);
     OutputByte(Op->Disp);
 }
 
-- 
2.43.0


From c93a72b751ff5f5a1df5c7821d88dfe5ef56cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 078/107] fix: sas: reject short jumps out of range

---
 sas.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/sas.c b/sas.c
index db0b460..8132fcd 100644
--- a/sas.c
+++ b/sas.c
@@ -370,7 +370,8 @@ enum {
 };
 
 enum {
-    FIXUP_REL8,
+    FIXUP_REL8,  // Not checked: out of range jumps are accepted here
+    FIXUP_SHORT,
     FIXUP_REL16,
     FIXUP_DISP16,
 };
@@ -378,6 +379,8 @@ enum {
 struct Fixup {
     char Type;
     int  Offset;
+    int  Address; // Of the fixup
+    int  Line;    // Of the reference
     struct Fixup* Next;
 };
 struct Fixup Fixups[FIXUP_MAX];
@@ -887,6 +890,14 @@ void CheckByte(int V)
         Fatal("Value does not fit a byte");
 }
 
+int Rel8(int Dest, int Address)
+{
+    Dest -= Address + 1;
+    if (!IsShort(Dest))
+        Fatal("Jump out of range");
+    return Dest;
+}
+
 int TranslateMemMod(int Start)
 {
     switch (TokenType) {
@@ -1116,6 +1127,8 @@ void AddFixupHere(struct Label* L, char Type)
     NextFixup = NextFixup->Next;
     F->Type   = Type;
     F->Offset = OutputBufPos;
+    F->Address = VirtAddress;
+    F->Line   = ErrorLine;
     F->Next   = L->Fixups;
     L->Fixups = F;
 }
@@ -1289,9 +1302,12 @@ void HandleROT(int r)
 
 void HandleRel8(struct Operand* Op)
 {
-    if (Op->Fixup)
-        AddFixupHere(Op->Fixup, FIXUP_REL8);
-    OutputByte(Op->Disp-(VirtAddress+1));
+    if (Op->Fixup) {
+        AddFixupHere(Op->Fixup, FIXUP_SHORT);
+        OutputByte(0);
+    } else {
+        OutputByte(Rel8(Op->Disp, VirtAddress));
+    }
 }
 
 void HandleRel16(struct Operand* Op)
@@ -1344,7 +1360,7 @@ void HandleJCC(int CC)
         AddFixupHere(op.Fixup, FIXUP_REL8);
         OutputByte(-(VirtAddress+1));
     } else {
-        OutputByte(op.Disp-(VirtAddress+1));
+        OutputByte(Rel8(op.Disp, VirtAddress));
     }
 }
 
@@ -1708,6 +1724,11 @@ int main(int argc, char** argv)
                             case FIXUP_REL8:
                                 OutputBuf[F->Offset] += VirtAddress;
                                 break;
+                            case FIXUP_SHORT:
+                                ErrorLine = F->Line;
+                                OutputBuf[F->Offset] = Rel8(VirtAddress, F->Address);
+                                ErrorLine = TokenLine;
+                                break;
                             case FIXUP_REL16:
                             case FIXUP_DISP16:
                                 {
-- 
2.43.0


From f9680af74f3cb6be095794a0ff83072037391e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 079/107] fix: sas: expressions are 16-bit words, with shift
 counts below 16

---
 sas.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sas.c b/sas.c
index 8132fcd..139301a 100644
--- a/sas.c
+++ b/sas.c
@@ -476,7 +476,7 @@ void OutputByte(int b)
     assert(!InBSS);
     assert(OutputBufPos < (int)sizeof(OutputBuf));
     OutputBuf[OutputBufPos++] = b;
-    ++VirtAddress;
+    VirtAddress = (short)(VirtAddress + 1);
 }
 
 void OutputWord(int w)
@@ -773,7 +773,7 @@ int NumFromString(void)
 int ParsePrimary(void)
 {
     if (TokenType == TOK_NUMBER) {
-        const int n = TokenVal.Num;
+        const int n = (short)TokenVal.Num;
         GetToken();
         return n;
     } else if (TokenType == TOK_STRING) {
@@ -796,7 +796,7 @@ int ParseUnary(void)
         int Op = TokenType;
         GetToken();
         int n = ParseUnary();
-        if (Op == TOK_MINUS) n = -n;
+        if (Op == TOK_MINUS) n = (short)-n;
         else if (Op == TOK_TILDE) n = ~n;
         return n;
     }
@@ -833,10 +833,15 @@ int ParseExpr(int LHS, int OuterPrecedence)
         case TOK_PLUS:  LHS += RHS; break;
         case TOK_MINUS: LHS -= RHS; break;
         case TOK_PIPE:  LHS |= RHS; break;
-        case TOK_LSH:   LHS <<= RHS; break;
+        case TOK_LSH:
+            if (RHS & 0xfff0)
+                Fatal("Invalid shift count");
+            LHS = (LHS & 0xffff) << RHS;
+            break;
         default:
             Fatal("TODO operator %c\n", Op);
         }
+        LHS = (short)LHS;
     }
     return LHS;
 }
@@ -1087,8 +1092,11 @@ void HandleDx(int size)
 
 void HandleResx(int size)
 {
+    const int n = ParseNumber();
     InBSS = 1;
-    VirtAddress += size * ParseNumber();
+    if (n < 0 || (size == 2 && (n & 0x4000)))
+        Fatal("Invalid reservation");
+    VirtAddress = (short)(VirtAddress + size * n);
 }
 
 void HandleDirective(int Dir)
-- 
2.43.0


From eb1c94914785070bc630ec7e8fdefcbd785ea12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 080/107] fix: sas: reject undefined and duplicate labels,
 resolve EQU names used before their definition

---
 sas.c | 96 +++++++++++++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/sas.c b/sas.c
index 139301a..a969559 100644
--- a/sas.c
+++ b/sas.c
@@ -390,6 +390,7 @@ enum {
     LABEL_NONE,
     LABEL_EQU,
     LABEL_NORMAL,
+    LABEL_FORWARD, // Referenced, but not yet defined
 };
 
 struct Label {
@@ -874,11 +875,11 @@ struct Label* ReferenceLabel(void)
     assert(TokenType >= TOK_USER_ID);
     struct Label* L = &Labels[TokenType - TOK_USER_ID];
     if (L->Type == LABEL_NONE) {
-        L->Type   = LABEL_NORMAL;
+        L->Type   = LABEL_FORWARD;
         L->Val    = -1;
         L->Fixups = 0;
     } else {
-        assert(L->Type == LABEL_NORMAL);
+        assert(L->Type == LABEL_NORMAL || L->Type == LABEL_FORWARD);
     }
     GetToken();
     return L;
@@ -964,8 +965,7 @@ DoMem:
             } else if (TokenType >= TOK_USER_ID) {
                 assert(!neg && !Oper->Fixup);
                 struct Label* L = ReferenceLabel();
-                assert(L->Type == LABEL_NORMAL);
-                if (L->Val == -1)
+                if (L->Type == LABEL_FORWARD)
                     Oper->Fixup = L;
                 else
                     Oper->Disp += L->Val;
@@ -1007,9 +1007,8 @@ DoMem:
         GetToken();
     } else if (TokenType >= TOK_USER_ID) {
         struct Label* L = ReferenceLabel();
-        assert(L->Type == LABEL_NORMAL);
         Oper->Type = OPTYPE_LIT;
-        if (L->Val == -1)
+        if (L->Type == LABEL_FORWARD)
             Oper->Fixup = L;
         else
             Oper->Disp  = L->Val;
@@ -1650,6 +1649,48 @@ void HandleInstruction(int Inst)
     Fatal("Instruction not implemented: %s\n", IdText(Inst));
 }
 
+void CheckDefined(int Index)
+{
+    if (Labels[Index].Type == LABEL_FORWARD) {
+        ErrorLine = Labels[Index].Fixups->Line;
+        Fatal("Undefined label %s", IdText(Index+TOK_USER_ID));
+    }
+}
+
+void DefineLabel(struct Label* L, int Val)
+{
+    if (L->Type == LABEL_FORWARD) {
+        struct Fixup* F = L->Fixups;
+        while (F) {
+            switch (F->Type) {
+            case FIXUP_REL8:
+                OutputBuf[F->Offset] += Val;
+                break;
+            case FIXUP_SHORT:
+                ErrorLine = F->Line;
+                OutputBuf[F->Offset] = Rel8(Val, F->Address);
+                break;
+            case FIXUP_REL16:
+            case FIXUP_DISP16:
+                {
+                    const int v = Val + ((OutputBuf[F->Offset]&0xff)|((OutputBuf[F->Offset+1]&0xff)<<8));
+                    OutputBuf[F->Offset] = v;
+                    OutputBuf[F->Offset+1] = v>>8;
+                }
+                break;
+            }
+            struct Fixup* Next = F->Next;
+            F->Next = NextFixup;
+            NextFixup = F;
+            F = Next;
+        }
+    } else if (L->Type != LABEL_NONE) {
+        Fatal("Duplicate label");
+    }
+    L->Type = LABEL_NORMAL;
+    L->Val  = Val;
+}
+
 void AddBuiltins(const char* S)
 {
     char buf[16];
@@ -1719,54 +1760,20 @@ int main(int argc, char** argv)
             const int global = IdText(TokenType)[0] != '.';
             GetToken();
             if (Accept(TOK_COLON)) {
-                if (L->Type == LABEL_NONE) {
-                    L->Type   = LABEL_NORMAL;
-                    L->Fixups = 0;
-                } else {
-                    assert(L->Val == -1);
-                    struct Fixup* F = L->Fixups;
-                    if (F) {
-                        struct Fixup* Last = F;
-                        while (F) {
-                            switch (F->Type) {
-                            case FIXUP_REL8:
-                                OutputBuf[F->Offset] += VirtAddress;
-                                break;
-                            case FIXUP_SHORT:
-                                ErrorLine = F->Line;
-                                OutputBuf[F->Offset] = Rel8(VirtAddress, F->Address);
-                                ErrorLine = TokenLine;
-                                break;
-                            case FIXUP_REL16:
-                            case FIXUP_DISP16:
-                                {
-                                    const int v = VirtAddress + ((OutputBuf[F->Offset]&0xff)|((OutputBuf[F->Offset+1]&0xff)<<8));
-                                    OutputBuf[F->Offset] = v;
-                                    OutputBuf[F->Offset+1] = v>>8;
-                                }
-                                break;
-                            }
-                            Last = F;
-                            F = F->Next;
-                        }
-                        Last->Next = NextFixup;
-                        NextFixup = L->Fixups;
-                    }
-                }
-                L->Val = VirtAddress;
+                DefineLabel(L, VirtAddress);
                 if (global) {
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
                 }
                 continue;
             } else if (Accept(TOK_EQU)) {
-                assert(L->Type == LABEL_NONE);
+                DefineLabel(L, ParseNumber());
                 L->Type = LABEL_EQU;
-                L->Val  = ParseNumber();
                 continue;
             }
             goto Error;
@@ -1785,6 +1792,9 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
+        CheckDefined(i);
+
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 544cc6a16129ad5d450c928ed25f237a7d3de49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 081/107] fix: sas: DW resolves labels defined later and pads
 each string; DB and DW take expressions

---
 sas.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sas.c b/sas.c
index a969559..9fb6bdf 100644
--- a/sas.c
+++ b/sas.c
@@ -1054,39 +1054,38 @@ void Parse2General(struct Operand* op1, struct Operand* op2)
     CheckSizes(op1, op2);
 }
 
+void AddFixupHere(struct Label* L, char Type);
+
 void HandleDx(int size)
 {
-    int n = 0; // Keep count of string output for alignment
     do {
-        if (TokenType == TOK_NUMBER) {
+        if (TokenType == TOK_NUMBER || IsUnaryOp()) {
+            const int n = ParseNumber();
             if (size == 1) {
-                CheckByte(TokenVal.Num);
-                OutputByte(TokenVal.Num);
+                CheckByte(n);
+                OutputByte(n);
             } else
-                OutputWord(TokenVal.Num);
-            GetToken();
+                OutputWord(n);
         } else if (TokenType == TOK_STRING) {
-            n += TokenVal.Str.Len;
             int i;
             for (i = 0; i < TokenVal.Str.Len; ++i)
                 OutputByte(TokenVal.Str.Data[i]);
+            if (size == 2 && (i&1))
+                OutputByte(0);
             GetToken();
         } else if (TokenType >= TOK_USER_ID) {
             assert(size == 2);
             struct Label* L = ReferenceLabel();
-            assert(L->Type == LABEL_NORMAL);
-            if (L->Val != -1) {
-                OutputWord(L->Val);
-            } else {
+            if (L->Type == LABEL_FORWARD) {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
+            } else {
+                OutputWord(L->Val);
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
         }
     } while (Accept(TOK_COMMA));
-    if (size == 2 && (n&1))
-        OutputByte(0);
 }
 
 void HandleResx(int size)
-- 
2.43.0


From 5c170d7b962aede1bdbaec16e2864b77d844d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 082/107] fix: sas: output names with dots in directories, and
 long names

---
 sas.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 9fb6bdf..99891d9 100644
--- a/sas.c
+++ b/sas.c
@@ -1709,8 +1709,11 @@ void MakeOutputFilename(char* dest, const char* n)
     char* LastDot;
     LastDot = 0;
     while (*n) {
+        assert(dest < StringBuf + sizeof(StringBuf) - 5);
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     strcpy(LastDot ? LastDot : dest, ".com");
@@ -1794,11 +1797,12 @@ int main(int argc, char** argv)
     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
         CheckDefined(i);
 
-    if (argv[2])
-       strcpy(StringBuf, argv[2]);
-    else
+    const char* OutName = argv[2];
+    if (!OutName) {
         MakeOutputFilename(StringBuf, argv[1]);
-    const int OutFile = open(StringBuf, CREATE_FLAGS, 0600);
+        OutName = StringBuf;
+    }
+    const int OutFile = open(OutName, CREATE_FLAGS, 0600);
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-- 
2.43.0


From d9b77cf68a478ccba6f098804f81ce9e937e9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 083/107] fix: sas: retire local names before reading the token
 after a global label

---
 sas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 99891d9..a879988 100644
--- a/sas.c
+++ b/sas.c
@@ -1761,7 +1761,7 @@ int main(int argc, char** argv)
             struct Label* L = &Labels[TokenType - TOK_USER_ID];
             const int global = IdText(TokenType)[0] != '.';
             GetToken();
-            if (Accept(TOK_COLON)) {
+            if (TokenType == TOK_COLON) {
                 DefineLabel(L, VirtAddress);
                 if (global) {
                     // Retire local labels
@@ -1772,6 +1772,7 @@ int main(int argc, char** argv)
                         }
                     }
                 }
+                GetToken();
                 continue;
             } else if (Accept(TOK_EQU)) {
                 DefineLabel(L, ParseNumber());
-- 
2.43.0


From 8791b8060002e392490a883288eeeedd76cfb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 084/107] fix: lib.h: strcmp orders characters more than 127
 apart correctly

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index c243f45..e1a65fd 100644
--- a/lib.h
+++ b/lib.h
@@ -280,7 +280,7 @@ int strcmp(const char* a, const char* b)
     _emit 0x75 _emit 0x04               // JNZ DONE
     _emit 0x20 _emit 0xE4               // AND AH, AH
     _emit 0x75 _emit 0xF4               // JNZ L
-    _emit 0x98                          // DONE: CBW
+    _emit 0x18 _emit 0xE4               // DONE: SBB AH, AH
 }
 
 int strlen(const char* s)
-- 
2.43.0


From 28fe6691e67e640436e3ab44624a778ff5f3094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 085/107] fix: lib.h: read and write return -1 when they fail

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index e1a65fd..3b73dbe 100644
--- a/lib.h
+++ b/lib.h
@@ -108,7 +108,7 @@ int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -116,7 +116,7 @@ int write(int fd, const char* buf, int count)
 {
     int ax = 0x4000;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
-- 
2.43.0


From 4904642139dd761f899e24a33b460133a5ad9f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 086/107] fix: lib.h: room for as many arguments as the command
 line can hold

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index 3b73dbe..3bd710f 100644
--- a/lib.h
+++ b/lib.h
@@ -120,7 +120,7 @@ int write(int fd, const char* buf, int count)
     return ax;
 }
 
-enum { _ARGV = 0x5C }; // Overwrite unopened FCBs
+char* _ARGV[65]; // The command line holds at most 63 arguments
 
 int ParseArgs()
 {
-- 
2.43.0


From c7e46bd9f39a21ea1912d2f708bf4462412f4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 087/107] fix: lib.h: characters above 127 don't separate
 arguments

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index 3bd710f..6403d3b 100644
--- a/lib.h
+++ b/lib.h
@@ -125,7 +125,7 @@ char* _ARGV[65]; // The command line holds at most 63 arguments
 int ParseArgs()
 {
     char** Args = _ARGV;
-    char* CmdLine = (char*)0x80;
+    unsigned char* CmdLine = (unsigned char*)0x80;
     int Len = *CmdLine++ & 0x7f;
     CmdLine[Len] = 0;
     Args[0] = "???";
@@ -135,7 +135,7 @@ int ParseArgs()
             ++CmdLine;
         if (!*CmdLine)
             break;
-        Args[NumArgs++] = CmdLine;
+        Args[NumArgs++] = (char*)CmdLine;
         while (*CmdLine && *CmdLine > ' ')
             ++CmdLine;
         if (!*CmdLine)
-- 
2.43.0


From ce9e6f14d3c92a7c97b4b696a2c972d379c55bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 088/107] fix: lib.h: vsprintf formats numbers as C does
 (-32768, zero fill with a sign, + before a width, hexadecimal without one)

---
 lib.h | 56 ++++++++++++++++++++++----------------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/lib.h b/lib.h
index 6403d3b..1f26eb1 100644
--- a/lib.h
+++ b/lib.h
@@ -172,10 +172,14 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             continue;
         }
         char fill = ' ';
+        char sign = 0;
         int w = 0;
     Restart:
         ch = *format++;
-        if (!w && ch == '0') {
+        if (ch == '+') {
+            sign = '+';
+            goto Restart;
+        } else if (!w && ch == '0') {
             fill = '0';
             goto Restart;
         } else if (ch >= '0' && ch <= '9') {
@@ -184,49 +188,33 @@ char* vsprintf(char* dest, const char* format, va_list vl)
         }
         if (ch == 's') {
             dest = CopyStr(dest, va_arg(vl, char*));
-        } else if(ch == 'c') {
+        } else if (ch == 'c') {
             *dest++ = (char)va_arg(vl, int);
-        } else if ((ch == '+' && *format == 'd') || ch == 'd') {
-            char* buf;
-            int n;
-            int s;
-            int always;
-            if (ch == '+') {
-                ++format;
-                always = 1;
-            } else {
-                always = 0;
-            }
-            n = va_arg(vl, int);
-            s = 0;
-            if (n < 0) {
-                s = 1;
+        } else if (ch == 'd' || ch == 'x' || ch == 'X') {
+            char* buf = TempBuf + sizeof(TempBuf);
+            unsigned n = va_arg(vl, int);
+            unsigned base = 10;
+            if (ch != 'd') {
+                base = 16;
+                sign = 0;
+            } else if ((int)n < 0) {
                 n = -n;
+                sign = '-';
             }
-            buf = TempBuf + sizeof(TempBuf);
             *--buf = 0;
             do {
-                *--buf = '0' + n % 10;
-                n/=10;
+                *--buf = '0' + n % base;
+                if (*buf > '9') *buf += ch - 81; // ch == 'x'? 'a'-('9'+1) : 'A'-('9'+1)
+                n /= base;
                 --w;
             } while (n);
-            if (s) {
-                *--buf = '-';
-                --w;
-            } else if (always) {
-                *--buf = '+';
+            if (sign) {
                 --w;
+                if (fill == '0') *dest++ = sign;
+                else *--buf = sign;
             }
             while (w-- > 0) *dest++ = fill;
-            dest  = CopyStr(dest, buf);
-        } else if (ch == 'x' || ch == 'X') {
-            const char* HexD = "0123456789ABCDEF";
-            int n = va_arg(vl, int);
-            int i = 3;
-            if (w) i = w-1;
-            for (; i >= 0; --i) {
-                *dest++ = HexD[(n>>i*4)&0xf];
-            }
+            dest = CopyStr(dest, buf);
         } else {
             *dest++ = ch;
         }
-- 
2.43.0


From d5f4ed2eea2d4abfd0258636ca2d2ba78b6e2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 089/107] fix: lib.h: %s and %c honour the field width

---
 lib.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib.h b/lib.h
index 1f26eb1..8fff307 100644
--- a/lib.h
+++ b/lib.h
@@ -155,6 +155,18 @@ void _start(void)
     exit(main(ParseArgs(), _ARGV));
 }
 
+int strlen(const char* s)
+{
+    _emit 0x8B _emit 0x4E _emit 0x04    // MOV  CX, [BP+4]
+    _emit 0x89 _emit 0xCE               // MOV  SI, CX
+    _emit 0xAC                          // L: LODSB
+    _emit 0x20 _emit 0xC0               // AND  AL, AL
+    _emit 0x75 _emit 0xFB               // JNZ  L
+    _emit 0x96                          // XCHG AX, SI
+    _emit 0x29 _emit 0xC8               // SUB  AX, CX
+    _emit 0x48                          // DEC  AX
+}
+
 char* CopyStr(char* dst, const char* src)
 {
     while (*src) *dst++ = *src++;
@@ -187,8 +199,12 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             goto Restart;
         }
         if (ch == 's') {
-            dest = CopyStr(dest, va_arg(vl, char*));
+            const char* str = va_arg(vl, char*);
+            w -= strlen(str);
+            while (w-- > 0) *dest++ = ' ';
+            dest = CopyStr(dest, str);
         } else if (ch == 'c') {
+            while (--w > 0) *dest++ = ' ';
             *dest++ = (char)va_arg(vl, int);
         } else if (ch == 'd' || ch == 'x' || ch == 'X') {
             char* buf = TempBuf + sizeof(TempBuf);
@@ -271,18 +287,6 @@ int strcmp(const char* a, const char* b)
     _emit 0x18 _emit 0xE4               // DONE: SBB AH, AH
 }
 
-int strlen(const char* s)
-{
-    _emit 0x8B _emit 0x4E _emit 0x04    // MOV  CX, [BP+4]
-    _emit 0x89 _emit 0xCE               // MOV  SI, CX
-    _emit 0xAC                          // L: LODSB
-    _emit 0x20 _emit 0xC0               // AND  AL, AL
-    _emit 0x75 _emit 0xFB               // JNZ  L
-    _emit 0x96                          // XCHG AX, SI
-    _emit 0x29 _emit 0xC8               // SUB  AX, CX
-    _emit 0x48                          // DEC  AX
-}
-
 int* GetBP(void)
 {
     _emit 0x8B _emit 0x46 _emit 0x00    // MOV AX, [BP]
-- 
2.43.0


From 1e2878252bfc0190b5d8ec2cdb300040a78de7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 090/107] fix: lib.h: printf output isn't limited to 255
 characters

---
 lib.h | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/lib.h b/lib.h
index 8fff307..403ee57 100644
--- a/lib.h
+++ b/lib.h
@@ -174,13 +174,30 @@ char* CopyStr(char* dst, const char* src)
     return dst;
 }
 
+// Add ch to the string being built at dest, or print it if dest is 0
+char* OutChar(char* dest, int ch)
+{
+    if (!dest) {
+        putchar(ch);
+        return 0;
+    }
+    *dest = ch;
+    return dest + 1;
+}
+
+char* OutStr(char* dest, const char* str)
+{
+    while (*str) dest = OutChar(dest, *str++);
+    return dest;
+}
+
 char* vsprintf(char* dest, const char* format, va_list vl)
 {
     char TempBuf[9];
     char ch;
     while ((ch = *format++)) {
         if (ch != '%') {
-            *dest++ = ch;
+            dest = OutChar(dest, ch);
             continue;
         }
         char fill = ' ';
@@ -201,11 +218,11 @@ char* vsprintf(char* dest, const char* format, va_list vl)
         if (ch == 's') {
             const char* str = va_arg(vl, char*);
             w -= strlen(str);
-            while (w-- > 0) *dest++ = ' ';
-            dest = CopyStr(dest, str);
+            while (w-- > 0) dest = OutChar(dest, ' ');
+            dest = OutStr(dest, str);
         } else if (ch == 'c') {
-            while (--w > 0) *dest++ = ' ';
-            *dest++ = (char)va_arg(vl, int);
+            while (--w > 0) dest = OutChar(dest, ' ');
+            dest = OutChar(dest, va_arg(vl, int));
         } else if (ch == 'd' || ch == 'x' || ch == 'X') {
             char* buf = TempBuf + sizeof(TempBuf);
             unsigned n = va_arg(vl, int);
@@ -226,16 +243,16 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             } while (n);
             if (sign) {
                 --w;
-                if (fill == '0') *dest++ = sign;
+                if (fill == '0') dest = OutChar(dest, sign);
                 else *--buf = sign;
             }
-            while (w-- > 0) *dest++ = fill;
-            dest = CopyStr(dest, buf);
+            while (w-- > 0) dest = OutChar(dest, fill);
+            dest = OutStr(dest, buf);
         } else {
-            *dest++ = ch;
+            dest = OutChar(dest, ch);
         }
     }
-    *dest = 0;
+    if (dest) *dest = 0;
     return dest;
 }
 
@@ -247,24 +264,17 @@ void sprintf(char* str, const char* format, ...)
     va_end(args);
 }
 
-void PutStr(const char* s)
-{
-    while (*s) putchar(*s++);
-}
-
-char msg[256]; // XXX
 void printf(const char* format, ...)
 {
     va_list args;
     va_start(args, format);
-    vsprintf(msg, format, args);
+    vsprintf(0, format, args);
     va_end(args);
-    PutStr(msg);
 }
 
 void puts(const char* s)
 {
-    PutStr(s);
+    OutStr(0, s);
     putchar('\n');
 }
 
-- 
2.43.0


From c968dbb78ca999e3e77de6be0a48b7450ac6829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 091/107] fix: scc: reject members and objects of incomplete
 struct types

---
 scc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index b549ab9..dd814c8 100644
--- a/scc.c
+++ b/scc.c
@@ -368,6 +368,7 @@ int IdHashTab[ID_HASHMAX];
 int IdCount;
 
 struct StructMember StructMembers[STRUCT_MEMBER_MAX];
+struct StructMember Incomplete; // Stands for the members of a struct that's being defined
 int StructMemCount;
 
 struct StructDecl StructDecls[STRUCT_MAX];
@@ -1528,9 +1529,11 @@ int SizeofType(int Type, int Extra)
         }
     case VT_STRUCT:
         {
+            if ((unsigned)Extra >= (unsigned)StructCount) Fail();
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
+            if (SM == &Incomplete) Fail();
             for (; SM; SM = SM->Next) {
                 const int MSize = SizeofType(SM->Type, SM->TypeExtra);
                 if (!IsUnion)
@@ -2855,7 +2858,9 @@ void ParseDeclSpecs(void)
                     const int SI = StructCount++;
                     struct StructDecl* SD = &StructDecls[SI];
                     SD->Id = id;
-                    struct StructMember** Last = &SD->Members;
+                    SD->Members = &Incomplete;
+                    struct StructMember* First;
+                    struct StructMember** Last = &First;
                     while (TokenType != '}') {
                         /// XXX Issue here - Save Base type before this?
                         ParseDeclSpecs();
@@ -2867,6 +2872,7 @@ void ParseDeclSpecs(void)
                             if (SM->Id < 0) Fail();
                             SM->Type      = CurrentType;
                             SM->TypeExtra = CurrentTypeExtra;
+                            SizeofCurrentType(); // Must be complete
                             *Last = SM;
                             Last = &SM->Next;
                             if (TokenType == ',') {
@@ -2881,6 +2887,7 @@ void ParseDeclSpecs(void)
                     }
                     GetToken();
                     *Last = 0;
+                    SD->Members = First;
                     CurrentTypeExtra = SI;
                 }
                 CurrentType = VT_STRUCT;
-- 
2.43.0


From f7a270bc156b1a765faa920bf25e50438012cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 092/107] fix: scc: long identifiers can't overflow the
 identifier buffer

---
 scc.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scc.c b/scc.c
index dd814c8..9418811 100644
--- a/scc.c
+++ b/scc.c
@@ -360,7 +360,7 @@ int TokenNumVal;
 unsigned char* TokenStrLit;
 char OperatorPrecedence;
 
-char IdBuffer[IDBUFFER_MAX];
+char IdBuffer[IDBUFFER_MAX+8]; // Room for the start of a line of the map file after the last identifier
 char* IdBufPtr;
 
 const char* IdText[ID_MAX];
@@ -718,6 +718,7 @@ void GetToken(void)
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
         while ((IsIdChar[(unsigned char)CurChar>>3]>>(CurChar&7)) & 1) {
+            if (pc-IdBuffer >= IDBUFFER_MAX) Fail();
             Hash += (Hash<<4)+(*pc++ = CurChar);
             if ((CurChar = *InBufPtr++))
                 continue;
@@ -1168,12 +1169,14 @@ void EmitGlobalLabel(struct VarDecl* vd)
     IsDeadCode = 0;
     DoFixups(vd->Ref, vd->Type & VT_FUN);
 
-    char* P = CvtHex(IdBufPtr, CodeAddress);
-    *P++ = ' ';
-    P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
-    *P++ = '\r';
-    *P++ = '\n';
-    write(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    *CvtHex(IdBufPtr, CodeAddress) = ' ';
+    write(MapFile, IdBufPtr, 5);
+    const char* Name = vd->Id == -2 ? StaticName : IdText[vd->Id];
+    const char* End = Name;
+    while (*End)
+        ++End;
+    write(MapFile, Name, (int)(End - Name));
+    write(MapFile, "\r\n", 2);
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
-- 
2.43.0


From a038ac7cc0307f83bafc0d3a0ed47ed12aceaa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 093/107] fix: scc: diagnostics can name identifiers of any
 length

---
 scc.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index 9418811..dc7e741 100644
--- a/scc.c
+++ b/scc.c
@@ -492,15 +492,20 @@ char* VSPrintf(char* dest, const char* format, va_list vl)
     return dest;
 }
 
+void PrintStr(const char* s)
+{
+    while (*s)
+        putchar(*s++);
+}
+
+// Only for short output, use PrintStr for strings of any length
 void Printf(const char* format, ...)
 {
     char LineBuf[80];
     va_list vl;
     va_start(vl, format);
     VSPrintf(LineBuf, format, vl);
-    char* s = LineBuf;
-    while (*s)
-        putchar(*s++);
+    PrintStr(LineBuf);
     va_end(vl);
 }
 
@@ -933,7 +938,10 @@ Slash:
 
 void PrintTokenType(int T)
 {
-    if (T >= TOK_KEYWORD) Printf("%s ", IdText[T-TOK_KEYWORD]);
+    if (T >= TOK_KEYWORD) {
+        PrintStr(IdText[T-TOK_KEYWORD]);
+        putchar(' ');
+    }
     else if (T > ' ' && T < 128) Printf("%c ", T);
     else Printf("%d ", T);
 }
@@ -3566,7 +3574,8 @@ int main(int argc, char** argv)
         if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
         if (CurrentType & VT_FUN) {
-            Printf("%s is undefined\n", IdText[vd->Id]);
+            PrintStr(IdText[vd->Id]);
+            Printf(" is undefined\n");
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-- 
2.43.0


From 55618dc6d40ae9ca1937cb8a9096e57019c35b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 094/107] fix: scc: a name can't be redeclared as a function or
 not a function

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index dc7e741..eed1ff1 100644
--- a/scc.c
+++ b/scc.c
@@ -1653,6 +1653,7 @@ struct VarDecl* AddVarDecl(int Id)
     // Check if definition/re-declaration in global scope
     struct VarDecl* Prev = VarLookup[Id];
     if (!IgnoreRedef && Prev) {
+        if ((Prev->Type ^ CurrentType) & VT_FUN) Fail();
         return Prev;
     }
 
-- 
2.43.0


From 14aacd4cd24c912bce4a01779db2e9d6974a2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 095/107] fix: scc: reject structs where a value is needed

---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index eed1ff1..c540d93 100644
--- a/scc.c
+++ b/scc.c
@@ -1583,6 +1583,8 @@ LoadAddrRet:
         if ((CurrentType & VT_FUNPTR) == VT_FUN)
             goto LoadAddrRet;
 
+        if (CurrentType == VT_STRUCT) Fail(); // Has no value that fits a register
+
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
         if (!loc)
             Output2Bytes(I_XCHG_AX|R_SI, I_LODSB|sz);
@@ -2179,7 +2181,8 @@ void ParseCastExpression(void)
             const int E = CurrentTypeExtra;
             if (T & VT_LOCMASK) Fail();
             ParseCastExpression();
-            GetVal(); // TODO: could optimize some constant expressions here
+            if (T != VT_VOID)
+                GetVal(); // TODO: could optimize some constant expressions here
             CurrentType      = T;
             CurrentTypeExtra = E;
             if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
@@ -2507,7 +2510,7 @@ void ParseExpr1(int OuterPrecedence)
             CurrentType &= ~VT_LVAL;
             if (Op != '=')
                 Op = RemoveAssign(Op);
-        } else {
+        } else if (Op != ',') {
             LvalToRval();
         }
 
-- 
2.43.0


From 97ab12a5a119e6833e95db22dbf92d26a03cf488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 096/107] fix: scc: leave the self-hosted compiler enough stack

---
 scc.c | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/scc.c b/scc.c
index c540d93..6cbc68c 100644
--- a/scc.c
+++ b/scc.c
@@ -295,11 +295,6 @@ enum {
     PREC_STOP = 100,
 };
 
-struct Label {
-    int Addr;
-    int Ref;
-};
-
 struct NamedLabel {
     int Id;
     int LabelId;
@@ -384,7 +379,7 @@ int IgnoreRedef;
 int Scopes[SCOPE_MAX]; // -> Next free VarDecl index (conversely one more than index of last defined variable/id)
 int ScopeCount = 1; // First scope is global
 
-struct Label Labels[LABEL_MAX];
+int Labels[LABEL_MAX]; // Negated address if defined, otherwise the latest reference (or 0)
 int LocalLabelCounter;
 
 struct NamedLabel NamedLabels[NAMED_LABEL_MAX];
@@ -1057,8 +1052,7 @@ int MakeLabel(void)
 {
     if (LocalLabelCounter == LABEL_MAX) Fail();
     const int l = LocalLabelCounter++;
-    Labels[l].Addr = 0;
-    Labels[l].Ref = 0;
+    Labels[l] = 0;
     return l;
 }
 
@@ -1153,19 +1147,18 @@ void FlushSpAdj(void);
 
 void EmitLocalLabel(int l)
 {
-    if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
+    if (l >= LocalLabelCounter || Labels[l] < 0) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
     LastZFInst = 0; // There may be other ways to get here
-    DoFixups(Labels[l].Ref, 1);
-    Labels[l].Addr = CodeAddress;
-    Labels[l].Ref = 0;
+    DoFixups(Labels[l], 1);
+    Labels[l] = -CodeAddress;
 }
 
 // Emit label used inside an expression (can't be reached if it hasn't been referenced from live code)
 void EmitExprLabel(int l)
 {
-    if (!IsDeadCode || Labels[l].Ref)
+    if (!IsDeadCode || Labels[l])
         EmitLocalLabel(l);
 }
 
@@ -1345,8 +1338,8 @@ void EmitDivAxConst(int Amm)
 int EmitLocalJump(int l)
 {
     if ((unsigned)l >= (unsigned)LocalLabelCounter) Fail();
-    int Addr = Labels[l].Addr;
-    if (Addr) {
+    int Addr = -Labels[l];
+    if (Addr > 0) {
         Addr -= CodeAddress+2;
         if (Addr == (signed char)Addr) {
             Output2Bytes(I_JMP_REL8, Addr);
@@ -1357,7 +1350,7 @@ int EmitLocalJump(int l)
         return 1;
     }
     Output1Byte(I_JMP_REL16);
-    AddFixup(&Labels[l].Ref);
+    AddFixup(&Labels[l]);
     return 0;
 }
 
@@ -1375,8 +1368,8 @@ void EmitJcc(int cc, int l)
     if (EmitChecks())
         return;
 
-    int a = Labels[l].Addr;
-    if (a) {
+    int a = -Labels[l];
+    if (a > 0) {
         a -= CodeAddress+2;
         if (a == (signed char)a) {
             Output2Bytes(0x70 | cc, a);
@@ -3449,7 +3442,7 @@ void ParseExternalDefition(void)
         Output2Bytes(I_POP|R_BP, I_RET);
 
         while (LocalLabelCounter) {
-            if (Labels[--LocalLabelCounter].Ref)
+            if (Labels[--LocalLabelCounter] > 0)
                 Fatal("Undefined label");
         }
         NamedLabelCount = 0;
-- 
2.43.0


From 10e39c5b57ea0cf19ef5fa09df417caca3f290ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 097/107] fix: scc: arrays, functions and structs can't be
 modified like numbers

---
 scc.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 6cbc68c..adc532f 100644
--- a/scc.c
+++ b/scc.c
@@ -1590,9 +1590,16 @@ LoadAddrRet:
     }
 }
 
+void CheckModifiable(void)
+{
+    if (!(CurrentType & VT_LVAL) || (CurrentType & VT_FUNPTR) == VT_FUN || (CurrentType & (VT_BASEMASK|VT_PTRMASK)) == VT_ARRAY)
+        Fatal("L-value required");
+}
+
 void DoIncDecOp(int Op, int Post)
 {
-    if (!(CurrentType & VT_LVAL)) Fail();
+    CheckModifiable();
+    if ((CurrentType & (VT_BASEMASK|VT_PTRMASK)) == VT_STRUCT) Fail();
     const int WordOp = ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR);
     const int Loc = CurrentType & VT_LOCMASK;
     int Size = 1;
@@ -2497,9 +2504,7 @@ void ParseExpr1(int OuterPrecedence)
         }
 
         if (Prec == PREC_ASSIGN) {
-            if (!(CurrentType & VT_LVAL)) {
-                Fatal("L-value required");
-            }
+            CheckModifiable();
             CurrentType &= ~VT_LVAL;
             if (Op != '=')
                 Op = RemoveAssign(Op);
-- 
2.43.0


From 0b174498530f099164f34d1db3fa3f7ea948b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 098/107] fix: scc: reject objects that don't fit in 64K

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index adc532f..da2a8c6 100644
--- a/scc.c
+++ b/scc.c
@@ -3581,7 +3581,9 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
+        const unsigned Prev = CodeAddress;
         CodeAddress += vd->Id < 0 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
+        if ((unsigned)(CodeAddress & 0xFFFF) < Prev) Fatal("Out of memory");
     }
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
-- 
2.43.0


From cb9fc00d68ee05c7b1aeb81205fe84ee58f2cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 099/107] fix: scc: reject programs whose code doesn't fit in
 the output buffer

---
 scc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index da2a8c6..a9664ca 100644
--- a/scc.c
+++ b/scc.c
@@ -416,7 +416,7 @@ int NextSwitchCase = -1; // Where to go if we haven't matched
 int NextSwitchStmt;      // Where to go if we've matched (-1 if already emitted)
 int SwitchDefault;       // Optional switch default label
 
-unsigned char Output[OUTPUT_MAX]; // Place this last to allow partial stack overflows!
+unsigned char Output[OUTPUT_MAX+128]; // Extra room for the code for one token. Place this last to allow partial stack overflows!
 
 ///////////////////////////////////////////////////////////////////////
 // Helper functions
@@ -670,6 +670,7 @@ void GetStringLiteral(void)
             if (ch == '\\') {
                 ch = Unescape();
             }
+            if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX) Fail();
             TokenStrLit[TokenNumVal++] = ch;
         }
         NextChar();
@@ -679,13 +680,13 @@ void GetStringLiteral(void)
         NextChar();
     }
     TokenStrLit[TokenNumVal++] = 0;
-    if (TokenStrLit+TokenNumVal-Output > OUTPUT_MAX) Fail();
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
 
 void GetToken(void)
 {
+    if (CodeAddress > CODESTART+OUTPUT_MAX) Fail();
     if (CurChar <= '/') {
         if (SkipWhitespace()) {
             TokenType = '/';
-- 
2.43.0


From 71090bcef8003599b0f5d2925948a1a3715b026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 100/107] fix: scc: a global object may be declared again

---
 scc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index a9664ca..4139924 100644
--- a/scc.c
+++ b/scc.c
@@ -338,7 +338,6 @@ struct Argument {
 };
 
 int CodeAddress = CODESTART;
-int BssSize;
 
 int MapFile;
 
@@ -1695,7 +1694,6 @@ void PopScope(void)
             // Its type goes out of scope, so keep just the size
             CurrentType = VT_LOCGLOB|VT_CHAR;
             CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
-            BssSize += CurrentTypeExtra;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3482,7 +3480,7 @@ void ParseExternalDefition(void)
                 Fail();
             }
         } else {
-            BssSize += SizeofCurrentType();
+            SizeofCurrentType(); // The size must be known
         }
         vd = NextDecl();
     }
@@ -3586,7 +3584,7 @@ int main(int argc, char** argv)
         CodeAddress += vd->Id < 0 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
         if ((unsigned)(CodeAddress & 0xFFFF) < Prev) Fatal("Out of memory");
     }
-    if (CodeAddress - SBSS->Offset != BssSize) Fail();
+    const int BssSize = CodeAddress - SBSS->Offset;
     EmitGlobalLabel(EBSS);
 
     close(MapFile);
-- 
2.43.0


From 6f17a52d8cce368eb0b64d1e98a311def809874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 101/107] fix: scc: the address of _start when it's the first
 function

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 4139924..e18d1b7 100644
--- a/scc.c
+++ b/scc.c
@@ -1166,9 +1166,9 @@ const char StaticName[] = "@static";
 void EmitGlobalLabel(struct VarDecl* vd)
 {
     if (vd->Offset) Fail();
-    vd->Offset = CodeAddress;
     IsDeadCode = 0;
     DoFixups(vd->Ref, vd->Type & VT_FUN);
+    vd->Offset = CodeAddress; // A jump to here may have been removed
 
     *CvtHex(IdBufPtr, CodeAddress) = ' ';
     write(MapFile, IdBufPtr, 5);
-- 
2.43.0


From a0a68de3309464f339bf224578a18718f9b8e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 102/107] fix: sas: the message about a memory operand is the
 same on DOS

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index a879988..1787715 100644
--- a/sas.c
+++ b/sas.c
@@ -926,7 +926,7 @@ int TranslateMemMod(int Start)
             return 5;
         break;
     }
-    Fatal("TODO %s in mem parsing orig=%02X\n", TokenText(), Start);
+    Fatal("TODO %s in mem parsing orig=%d\n", TokenText(), Start);
     return -1;
 }
 
-- 
2.43.0


From 4ce4ca7ae1d35cc6bcdbf1b40a015bfa7c8dff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 103/107] fix: sim86: transfers of 32K and failed closes on DOS

---
 lib.h   | 4 ++--
 sim86.c | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib.h b/lib.h
index 403ee57..06c7d9b 100644
--- a/lib.h
+++ b/lib.h
@@ -98,10 +98,10 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
diff --git a/sim86.c b/sim86.c
index 775df8b..92f89f6 100644
--- a/sim86.c
+++ b/sim86.c
@@ -687,17 +687,13 @@ void INT(void)
     } else if (func == 0x3E) {
         if (trace) printf("\nclose(%d)\n", reg[R_BX]);
         flags &= ~FC;
-#ifndef __SCC__
         if (close(reg[R_BX])) {
             flags |= FC;
             reg[R_AX] = 6; // Invalid handle
         }
-#else
-        close(reg[R_BX]);
-#endif
     } else if (func == 0x3F) {
         int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r < 0) {
+        if (r == -1) {
             flags |= FC;
             r = 6; // Invalid handle
         } else {
@@ -706,7 +702,7 @@ void INT(void)
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r < 0) {
+        if (r == -1) {
             flags |= FC;
             r = 6; // Invalid handle
         } else {
-- 
2.43.0


From 36551fe9ebb4c3b3deed8972527dd4065c7e192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 104/107] fix: sas: displacements are 16-bit words on every
 host

---
 sas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sas.c b/sas.c
index 1787715..2d944c9 100644
--- a/sas.c
+++ b/sas.c
@@ -982,6 +982,7 @@ DoMem:
                 break;
         }
         Expect(TOK_RBRACKET);
+        Oper->Disp &= 0xffff; // Where int has more than 16 bits
 
         if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
-- 
2.43.0


From 4b18d8c3e217a55c4e86bea9dc5b0352b5523991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 105/107] fix: scc: @ and ` aren't digits

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index e18d1b7..cd465f0 100644
--- a/scc.c
+++ b/scc.c
@@ -627,8 +627,8 @@ unsigned GetNum(unsigned Init, unsigned Base, int MaxLen)
 {
     unsigned d;
     while (MaxLen--) {
-        if ((d = CurChar - '0') > 9)
-            d = (CurChar & 0xdf) - ('A'-10);
+        if ((d = CurChar - '0') > 9 && (d = (CurChar & 0xdf) - ('A'-10)) < 10)
+            break;
         if (d >= Base)
             break;
         Init = Init*Base + d;
-- 
2.43.0


From 6eab4523e99b50a8ba5cd6538ecf3c7480725365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 106/107] fix: scc: a literal ends on its line, and '' isn't
 one

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index cd465f0..6d9ac29 100644
--- a/scc.c
+++ b/scc.c
@@ -661,7 +661,7 @@ void GetStringLiteral(void)
 
     for (;;) {
         while (CurChar != '"') {
-            if (!CurChar) {
+            if (!CurChar || CurChar == '\n') {
                 Fatal("Unterminated string literal");
             }
             char ch = CurChar;
@@ -907,6 +907,7 @@ Slash:
         break;
     case '\'':
         TokenNumVal = CurChar;
+        if (CurChar == '\'' || CurChar == '\n') Fail();
         NextChar();
         if (TokenNumVal == '\\') {
             TokenNumVal = Unescape();
-- 
2.43.0


From 5ab6e877ec46475afde0586798f53dc43a34bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 107/107] fix: scc: leave room for a few more names in the
 compiler itself

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 6d9ac29..adaa576 100644
--- a/scc.c
+++ b/scc.c
@@ -164,7 +164,7 @@ enum {
     INBUF_MAX = 512,
     SCOPE_MAX = 16,
     VARDECL_MAX = 380,
-    ID_MAX = 580,
+    ID_MAX = 592,
     ID_HASHMAX = 1024,      // Must be power of 2 and (some what) greater than ID_MAX
     IDBUFFER_MAX = 5000,
     LABEL_MAX = 320,
-- 
2.43.0

