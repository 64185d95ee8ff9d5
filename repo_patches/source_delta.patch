From 0fcd1041dbb4f2c455d53b3f8c5c67a01ba65f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 001/104] fix: don't reuse stale zero flag in conditions

ToBool skipped testing AX after multiplication, division, remainder,
shifts by CL, additions of 0 and at labels, where ZF doesn't reflect AX.
---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 9f267b3..0ea6621 100644
--- a/scc.c
+++ b/scc.c
@@ -1140,6 +1140,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0; // Flags are unknown when coming from elsewhere
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -2169,6 +2170,9 @@ int GetSimpleALU(int Op)
 
 void FinishOp(int Inst)
 {
+    // Only simple ALU operations leave ZF matching the result in AX
+    if (!IsDeadCode && (Inst & 0xff) < 0x40)
+        LastZFInst = CodeAddress;
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
@@ -2545,7 +2549,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2627,7 +2630,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From 993d897643a7a850f0f480d7fac27fa2dc701b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 002/104] fix: materialize comparison results in arms of ?:

The condition code of the last arm was used for both arms.
---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 0ea6621..2b46903 100644
--- a/scc.c
+++ b/scc.c
@@ -2319,7 +2319,7 @@ void ForceToReg(void)
         LvalToRval();
 
     const int Loc = CurrentType & VT_LOCMASK;
-    if (!Loc) return;
+    if (!Loc && CurrentType != VT_BOOL) return;
     if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
         EmitLoadAddr(R_AX, Loc, CurrentVal);
         CurrentType &= ~VT_LOCMASK;
-- 
2.43.0


From 7e48437d559ceedcc207af6875da0ce2d7b40fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 003/104] fix: multiplication by constant 0

No code was emitted, i.e. x * 0 == x.
---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 2b46903..19b54be 100644
--- a/scc.c
+++ b/scc.c
@@ -1274,7 +1274,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From b2ae81fddea7c94b49da89cf2cb4c6070347aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 004/104] fix: load constant operands of && and ||

x && 0 tested whatever was in AX.
---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 19b54be..fc184bb 100644
--- a/scc.c
+++ b/scc.c
@@ -1990,7 +1990,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From 18b80a5b5cf4addd9f075809e2cf5c95f96ca574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 005/104] fix: signed division by power of 2 constant

SAR rounds negative numbers the wrong way.
---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index fc184bb..e2b529a 100644
--- a/scc.c
+++ b/scc.c
@@ -2243,7 +2243,11 @@ void DoRhsConstBinOp(int Op)
     case '+': EmitAddRegConst(R_AX, CurrentVal); return;
     case '-': EmitAddRegConst(R_AX, -CurrentVal); return;
     case '*': EmitScaleAx(CurrentVal); return;
-    case '/': EmitDivAxConst(CurrentVal); return;
+    case '/':
+        if (!IsUnsignedOp)
+            break; // SAR rounds towards negative infinity
+        EmitDivAxConst(CurrentVal);
+        return;
     }
 
     int Inst = GetSimpleALU(Op);
-- 
2.43.0


From c55c0fb46f78edc76b8e4b4be7b75c10c7670a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 006/104] fix: subtraction of integer from pointer and negative
 pointer differences

p - n was treated as a pointer difference (unscaled operand, result divided
by the size of the pointee and of type int) and real pointer differences were
divided using unsigned arithmetic.
---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index e2b529a..24016a5 100644
--- a/scc.c
+++ b/scc.c
@@ -2569,10 +2569,12 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
         int LhsPointeeSize = 0;
+        int IsPtrDiff = 0;
         if (LhsType & VT_PTRMASK) {
             LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
+            IsPtrDiff = Op == '-' && (CurrentType & VT_PTRMASK);
             CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
         }
@@ -2600,7 +2602,7 @@ RhsConst:
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if ((Op == '+' || Op == '-') && LhsPointeeSize && !IsPtrDiff) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
@@ -2630,7 +2632,8 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
-        if (Op == '-' && LhsPointeeSize) {
+        if (IsPtrDiff) {
+            IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-- 
2.43.0


From 9be7b710c98b3459be812e414865db01cbd941e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 007/104] fix: operands of sizeof and of constant ?: disturbed
 code generation

The stack offset, pending push and register use were changed by expressions
for which no code is output.
---
 scc.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/scc.c b/scc.c
index 24016a5..6fd3a56 100644
--- a/scc.c
+++ b/scc.c
@@ -1987,6 +1987,27 @@ void ParsePostfixExpression(void)
 }
 
 void ParseCastExpression(void);
+void ParseUnaryExpression(void);
+
+// Parse without outputting code or disturbing the code generation state
+void ParseDead(int Unary)
+{
+    const int WasDead   = IsDeadCode;
+    const int OldPend   = Pending;
+    const int OldRegUse = RegUse;
+    const int OldOffset = LocalOffset;
+    Pending = RegUse = 0;
+    IsDeadCode = 1;
+    if (Unary)
+        ParseUnaryExpression();
+    else
+        ParseAssignmentExpression();
+    if (!IsDeadCode) Fail();
+    IsDeadCode  = WasDead;
+    Pending     = OldPend;
+    RegUse      = OldRegUse;
+    LocalOffset = OldOffset;
+}
 
 void ToBool(void)
 {
@@ -2080,22 +2101,17 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
-            IsDeadCode = 1;
             if (TokenType == '(') {
                 GetToken();
                 if (IsTypeStart()) {
                     ParseAbstractDecl();
-                    CurrentVal = SizeofCurrentType();
                 } else {
-                    ParseAssignmentExpression();
+                    ParseDead(0);
                 }
                 Expect(')');
             } else {
-                ParseUnaryExpression();
+                ParseDead(1);
             }
-            if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2340,11 +2356,7 @@ void ParseMaybeDead(int Live)
         const int OldType  = CurrentType;
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
-        const int WasDead  = IsDeadCode;
-        IsDeadCode = 1;
-        ParseAssignmentExpression();
-        if (!IsDeadCode) Fail();
-        IsDeadCode       = WasDead;
+        ParseDead(0);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
-- 
2.43.0


From 6d230fcc021535936534a2cac591b0f97d3ff5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 008/104] fix: stored operand lost around &&, || and ?:

When a pending left operand was moved from BX to the stack in only one of the
branches it was picked up from the wrong place afterwards.
---
 scc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scc.c b/scc.c
index 6fd3a56..ab8e992 100644
--- a/scc.c
+++ b/scc.c
@@ -1401,6 +1401,17 @@ void FlushPushAx(void)
     }
 }
 
+// Move stored value (if any) to the stack, so all sides of a branch agree on where it is
+void SpillStoredVal(void)
+{
+    FlushPushAx();
+    if (RegUse) {
+        RegUse = 0;
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+    }
+}
+
 int EmitChecks(void)
 {
     if (IsDeadCode)
@@ -2376,6 +2387,7 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
+    SpillStoredVal();
     DoCondHasExpr(FalseLabel, 1);
     ParseAssignmentExpression();
     ForceToReg();
@@ -2454,6 +2466,7 @@ void ParseExpr1(int OuterPrecedence)
         Temp = Op == TOK_OROR;
         if (Temp || Op == TOK_ANDAND) {
             LEnd = MakeLabel();
+            SpillStoredVal();
             if (CurrentType != VT_BOOL)
                 ToBool();
             EmitJcc(CurrentVal ^ !Temp, LEnd);
-- 
2.43.0


From d9e2c3d2f92e0e9431cf615ff4a832766f8dc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 009/104] fix: type of ?: when only one of the arms is unsigned

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index ab8e992..2ad3713 100644
--- a/scc.c
+++ b/scc.c
@@ -2401,13 +2401,16 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
+        const int RhsType = CurrentType;
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
+        if (RhsType == (VT_UNSIGNED|VT_INT))
+            CurrentType = RhsType;
         EmitLocalLabel(RealEnd);
     } else {
         EmitLocalLabel(EndLabel);
-- 
2.43.0


From faf5c49caa0d823e63672f3b408bba7ca4aab409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 010/104] fix: signedness of results of binary operators

The result had the type of the right operand (and a right shift was done
unsigned if the shift count was).
---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 2ad3713..d9dde84 100644
--- a/scc.c
+++ b/scc.c
@@ -2520,7 +2520,7 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || ((CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT) && Op != TOK_LSH && Op != TOK_RSH);
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2660,6 +2660,8 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
+        if ((CurrentType & ~VT_UNSIGNED) == VT_INT)
+            CurrentType = IsUnsignedOp ? VT_UNSIGNED|VT_INT : VT_INT;
         if (IsPtrDiff) {
             IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
-- 
2.43.0


From fddf3943adf15a73c420bc312c6cdf1895136a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 011/104] fix: use of global typedefs for locals, parameters
 and struct members

The typedef was itself allocated as a global object and its location was
passed on to everything declared with it.
---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index d9dde84..eb367a1 100644
--- a/scc.c
+++ b/scc.c
@@ -2830,7 +2830,7 @@ void ParseDeclSpecs(void)
             {
                 struct VarDecl* Typedef = LookupTypedef();
                 if (Typedef) {
-                    CurrentType      = Typedef->Type & ~VT_TYPEDEF;
+                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
@@ -3371,6 +3371,9 @@ void ParseExternalDefition(void)
     }
 
     while (vd) {
+        if (vd->Type & VT_TYPEDEF)
+            goto Next;
+
         vd->Type |= VT_LOCGLOB;
 
         if (TokenType == '=') {
@@ -3398,6 +3401,7 @@ void ParseExternalDefition(void)
         } else {
             BssSize += SizeofCurrentType();
         }
+    Next:
         vd = NextDecl();
     }
 
-- 
2.43.0


From 9f783c9fe17986cf740bb34aea26fb67ad9fe259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 012/104] fix: convert results of functions returning char

The value wasn't truncated to (unsigned) char. E.g. the self-compiled compiler
treated '\xff' as 255 and the host version as -1.
---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index eb367a1..53ffff3 100644
--- a/scc.c
+++ b/scc.c
@@ -1894,6 +1894,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType&VT_UNSIGNED);
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From 71d862280c847e876ff2c490c1d1a097a9228322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 013/104] fix: value and type of assignment expressions

(c = 300) had the value 300 and the type of the right operand even when c is
a char (or unsigned).
---
 scc.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/scc.c b/scc.c
index 53ffff3..9b4d12d 100644
--- a/scc.c
+++ b/scc.c
@@ -292,6 +292,7 @@ enum {
 enum {
     PREC_ASSIGN = 14,
     PREC_COMMA,
+    PREC_STMT, // Used for expression statements (where the final value isn't used)
     PREC_STOP = 100,
 };
 
@@ -2582,19 +2583,22 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-            } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
-                // Constant assignment
-                if (!LhsLoc) {
-                    GetVal();
-                    Output1Byte(I_STOSB-1+Size);
-                } else {
-                    EmitStoreConst(Size, LhsLoc, LhsVal);
-                }
+            } else if (CurrentType == (VT_INT|VT_LOCLIT) && LhsLoc && OuterPrecedence == PREC_STMT) {
+                // Constant assignment (where the value isn't used)
+                EmitStoreConst(Size, LhsLoc, LhsVal);
                 continue;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+            // The value of the expression is that of the object assigned to
+            CurrentType      = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
+            if (Size == 1) {
+                if (OuterPrecedence != PREC_STMT)
+                    EmitExtend(LhsType&VT_UNSIGNED);
+                CurrentType = VT_INT;
+            }
             continue;
         }
         int LhsPointeeSize = 0;
@@ -3306,7 +3310,7 @@ Skip:
             HandlePrimaryId();
             ParsePostfixExpression();
             if (OperatorPrecedence <= PREC_COMMA)
-                ParseExpr1(PREC_COMMA);
+                ParseExpr1(PREC_STMT);
         }
     } else {
         ParseExpr();
-- 
2.43.0


From 7b75f858b37ac2eeea23f42e7a1ff77f2a181dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 014/104] fix: programs with unused static local variables were
 rejected

They were counted as part of the BSS but never allocated.
---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 9b4d12d..aaa2bf5 100644
--- a/scc.c
+++ b/scc.c
@@ -1651,6 +1651,7 @@ void PopScope(void)
             CurrentType = vd->Type;
             CurrentTypeExtra = vd->TypeExtra;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
+            BssSize += SizeofType(CurrentType, CurrentTypeExtra);
         }
         VarLookup[vd->Id] = vd->Prev;
     }
@@ -3280,7 +3281,6 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-                BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
-- 
2.43.0


From 396c18066200b067e9170b0e26f895f38cfc0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 015/104] fix: calls through function pointers as right operand

The stored left operand was used as the function address.
---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index aaa2bf5..7c66765 100644
--- a/scc.c
+++ b/scc.c
@@ -1827,9 +1827,11 @@ void ParsePostfixExpression(void)
                     RetExtra = Func->TypeExtra;
                     break;
                 case 0:
+                    SpillStoredVal();
                     Output1Byte(I_XCHG_AX|R_SI);
                     // Fall through
                 default:
+                    SpillStoredVal(); // Function address must be just above the arguments
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
-- 
2.43.0


From 68e9ca1fe9b204716b4d714d863615d438c9cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 016/104] fix: unreachable expressions changed the stack offset

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 7c66765..30882ec 100644
--- a/scc.c
+++ b/scc.c
@@ -1802,8 +1802,10 @@ int GetStoredVal(int Reg)
 
     if (Reg < 0)
         Reg = R_CX;
-    Output1Byte(I_POP|Reg);
-    LocalOffset += 2;
+    if (!IsDeadCode) { // Nothing is stored in dead code
+        Output1Byte(I_POP|Reg);
+        LocalOffset += 2;
+    }
     return Reg;
 }
 
-- 
2.43.0


From f896650f8cb1d9ad102ae81e6866f4d299879c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 017/104] fix: unreachable &&, || and ?: changed the stack
 offset

Code generation was resumed in the middle of the unreachable expression.
---
 scc.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index 30882ec..bc234da 100644
--- a/scc.c
+++ b/scc.c
@@ -1147,6 +1147,13 @@ void EmitLocalLabel(int l)
     Labels[l].Ref = 0;
 }
 
+// For labels that can only be reached by jumps that have already been output
+void EmitForwardLabel(int l)
+{
+    if (!IsDeadCode || Labels[l].Ref)
+        EmitLocalLabel(l);
+}
+
 const char StaticName[] = "@static";
 void EmitGlobalLabel(struct VarDecl* vd)
 {
@@ -2401,7 +2408,7 @@ void HandleCondOp(void)
     const int LhsType = CurrentType;
     EmitJmp(EndLabel);
     Expect(':');
-    EmitLocalLabel(FalseLabel);
+    EmitForwardLabel(FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
     // Check if type unification is needed.
@@ -2413,14 +2420,14 @@ void HandleCondOp(void)
         LvalToRval();
         const int RhsType = CurrentType;
         EmitJmp(RealEnd);
-        EmitLocalLabel(EndLabel);
+        EmitForwardLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
         if (RhsType == (VT_UNSIGNED|VT_INT))
             CurrentType = RhsType;
-        EmitLocalLabel(RealEnd);
+        EmitForwardLabel(RealEnd);
     } else {
-        EmitLocalLabel(EndLabel);
+        EmitForwardLabel(EndLabel);
     }
 }
 
@@ -2518,11 +2525,11 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsVal != CurrentVal) {
                 Output2Bytes(0xB0, !Temp);
                 Output2Bytes(0x70|(CurrentVal^Temp), 2);
-                EmitLocalLabel(LEnd);
+                EmitForwardLabel(LEnd);
                 Output3Bytes(0xB0, Temp, 0x98);
                 CurrentType = VT_INT;
             } else {
-                EmitLocalLabel(LEnd);
+                EmitForwardLabel(LEnd);
             }
             continue;
         }
-- 
2.43.0


From d25bf798856b6153c6b2998e2b1b55545a9fcd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 018/104] fix: scale integers added to pointers by += and -=

---
 scc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index bc234da..0b8da89 100644
--- a/scc.c
+++ b/scc.c
@@ -1595,8 +1595,8 @@ void DoIncDecOp(int Op, int Post)
     Op = Op == TOK_MINUSMINUS;
 
     if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
-        Output1Byte(Size);
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
         return;
     }
     EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
@@ -2564,6 +2564,15 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
+                if (LhsType & VT_PTRMASK) {
+                    Prec = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (Temp) {
+                        CurrentVal *= Prec;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(Prec);
+                    }
+                }
                 if (Size == 2) {
                     int Inst = GetSimpleALU(Op);
                     if (Inst) {
@@ -2577,6 +2586,7 @@ void ParseExpr1(int OuterPrecedence)
                         if (!LhsLoc)
                             Output1Byte(I_XCHG_AX|R_DI);
                         CurrentType = LhsType | LhsLoc | VT_LVAL;
+                        CurrentTypeExtra = LhsTypeExtra;
                         CurrentVal = LhsVal;
                         continue;
                     }
-- 
2.43.0


From 94fb571b6cec0ff99283d806ec5ac6760bc6dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 019/104] fix: count line breaks that directly follow a token

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 0b8da89..7055c5c 100644
--- a/scc.c
+++ b/scc.c
@@ -558,6 +558,8 @@ int SkipWhitespace(void)
 {
     for (;;) {
         if (CurChar <= ' ') {
+            if (CurChar == '\n')
+                ++Line;
             while ((CurChar = *InBufPtr++) <= ' ') {
                 switch (CurChar) {
                 case ' ':  continue;
-- 
2.43.0


From c0f68eea3e13ed23e8416afebe9c271ff85497ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 020/104] fix: static arrays and structs in functions

---
 scc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 7055c5c..7c788df 100644
--- a/scc.c
+++ b/scc.c
@@ -1506,6 +1506,7 @@ int SizeofType(int Type, int Extra)
     if (Type & (VT_PTRMASK|VT_FUNPTR))
         return 2;
     switch (Type & VT_BASEMASK) {
+    case VT_BOOL: return Extra; // Static variable that has gone out of scope
     case VT_INT:  return 2;
     case VT_CHAR: return 1;
     case VT_ARRAY:
@@ -1656,11 +1657,10 @@ void PopScope(void)
         if (vd->Id < 0)
             continue;
         if (vd->Ref) {
-            // Move static variable for real to global scope
-            CurrentType = vd->Type;
-            CurrentTypeExtra = vd->TypeExtra;
+            // Move static variable for real to global scope (where only its size matters, its type might go out of scope)
+            BssSize += CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
+            CurrentType = VT_BOOL|VT_LOCGLOB;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
-            BssSize += SizeofType(CurrentType, CurrentTypeExtra);
         }
         VarLookup[vd->Id] = vd->Prev;
     }
-- 
2.43.0


From 31637afd646d38fe6c2425d73ca85b0a091950fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 021/104] fix: report programs that exceed the output limit

---
 scc.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/scc.c b/scc.c
index 7c788df..69b520d 100644
--- a/scc.c
+++ b/scc.c
@@ -667,6 +667,7 @@ void GetStringLiteral(void)
                 ch = Unescape();
             }
             TokenStrLit[TokenNumVal++] = ch;
+            if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX) Fail();
         }
         NextChar();
         SkipWhitespace();
@@ -675,7 +676,6 @@ void GetStringLiteral(void)
         NextChar();
     }
     TokenStrLit[TokenNumVal++] = 0;
-    if (TokenStrLit+TokenNumVal-Output > OUTPUT_MAX) Fail();
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
@@ -1001,40 +1001,39 @@ enum {
 
 int EmitChecks(void);
 
-void Output1Byte(int b0)
+// Get pointer to where the next n bytes of code should be stored
+unsigned char* OutputBytes(int n)
 {
     if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
+        if (EmitChecks()) n = 0;
     }
-    Output[CodeAddress++ - CODESTART] = b0;
+    unsigned char* o = &Output[CodeAddress - CODESTART];
+    if ((CodeAddress += n) > CODESTART+OUTPUT_MAX-3) Fail();
+    return o;
+}
+
+void Output1Byte(int b0)
+{
+    *OutputBytes(1) = b0;
 }
 
 void Output2Bytes(int b0, int b1)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
+    unsigned char* o = OutputBytes(2);
     o[0] = b0;
     o[1] = b1;
 }
 
 void OutputWord(int w)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
+    unsigned char* o = OutputBytes(2);
     o[0] = w;
     o[1] = w>>8;
 }
 
 void Output3Bytes(int b0, int b1, int b2)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 3) - (CODESTART+3)];
+    unsigned char* o = OutputBytes(3);
     o[0] = b0;
     o[1] = b1;
     o[2] = b2;
-- 
2.43.0


From 4ec7b830c00a371d6950a285ddf6700ea34521b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH 022/104] fix: report identifiers that do not fit in the
 identifier buffer

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 69b520d..8ee748b 100644
--- a/scc.c
+++ b/scc.c
@@ -714,6 +714,7 @@ void GetToken(void)
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
         while ((IsIdChar[(unsigned char)CurChar>>3]>>(CurChar&7)) & 1) {
+            if (pc-IdBuffer >= IDBUFFER_MAX-2) Fail();
             Hash += (Hash<<4)+(*pc++ = CurChar);
             if ((CurChar = *InBufPtr++))
                 continue;
@@ -728,7 +729,7 @@ void GetToken(void)
                 TokenType = IdHashTab[Hash] = IdCount++;
                 IdText[TokenType] = IdBufPtr;
                 IdBufPtr = pc;
-                if (IdBufPtr-IdBuffer > IDBUFFER_MAX) Fail();
+                if (IdBufPtr-IdBuffer > IDBUFFER_MAX-2) Fail();
                 break;
             }
             if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
-- 
2.43.0


From b22caa03f047bff32d76f62b7abf4cbe8478013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 023/104] fix: don't take a dot in a directory name as the
 start of the extension

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 8ee748b..f8ae966 100644
--- a/scc.c
+++ b/scc.c
@@ -3444,6 +3444,8 @@ void MakeOutputFilename(const char* n, const char* ext)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     CopyStr(LastDot ? LastDot : dest, ext);
-- 
2.43.0


From a1c04f7cb4c894f2853f36c7a213b65c579fd4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 024/104] fix: don't write map file lines past the identifier
 buffer

---
 scc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index f8ae966..5d352c4 100644
--- a/scc.c
+++ b/scc.c
@@ -1164,12 +1164,14 @@ void EmitGlobalLabel(struct VarDecl* vd)
     IsDeadCode = 0;
     DoFixups(vd->Ref, vd->Type & VT_FUN);
 
-    char* P = CvtHex(IdBufPtr, CodeAddress);
-    *P++ = ' ';
-    P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
-    *P++ = '\r';
-    *P++ = '\n';
-    write(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    char Addr[5];
+    *CvtHex(Addr, CodeAddress) = ' ';
+    write(MapFile, Addr, 5);
+    const char* Name = vd->Id == -2 ? StaticName : IdText[vd->Id];
+    const char* P = Name;
+    while (*P) ++P;
+    write(MapFile, Name, (int)(P - Name));
+    write(MapFile, "\r\n", 2);
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
-- 
2.43.0


From 62ea81740899671731610903fb4434beb75cdc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 025/104] fix: don't print long identifiers through the fixed
 size line buffer

---
 scc.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index 5d352c4..2a08294 100644
--- a/scc.c
+++ b/scc.c
@@ -492,15 +492,19 @@ char* VSPrintf(char* dest, const char* format, va_list vl)
     return dest;
 }
 
+void PutStr(const char* s)
+{
+    while (*s)
+        putchar(*s++);
+}
+
 void Printf(const char* format, ...)
 {
     char LineBuf[80];
     va_list vl;
     va_start(vl, format);
     VSPrintf(LineBuf, format, vl);
-    char* s = LineBuf;
-    while (*s)
-        putchar(*s++);
+    PutStr(LineBuf);
     va_end(vl);
 }
 
@@ -929,8 +933,10 @@ Slash:
 
 void PrintTokenType(int T)
 {
-    if (T >= TOK_KEYWORD) Printf("%s ", IdText[T-TOK_KEYWORD]);
-    else if (T > ' ' && T < 128) Printf("%c ", T);
+    if (T >= TOK_KEYWORD) {
+        PutStr(IdText[T-TOK_KEYWORD]);
+        putchar(' ');
+    } else if (T > ' ' && T < 128) Printf("%c ", T);
     else Printf("%d ", T);
 }
 
@@ -3527,7 +3533,8 @@ int main(int argc, char** argv)
         if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
         if (CurrentType & VT_FUN) {
-            Printf("%s is undefined\n", IdText[vd->Id]);
+            PutStr(IdText[vd->Id]);
+            Printf(" is undefined\n");
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-- 
2.43.0


From 88569f983f601cede1de0d2215075cf3f6044cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 026/104] fix: don't take a backquote as an identifier

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 2a08294..db4c502 100644
--- a/scc.c
+++ b/scc.c
@@ -713,7 +713,7 @@ void GetToken(void)
             TokenType = TOK_NUM;
             return;
         }
-    } else if ((TokenType & 0xDF) <= 'Z') {
+    } else if ((unsigned)((TokenType & 0xDF) - 'A') < 26) {
     Identifier: ;
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
-- 
2.43.0


From 565c0beeffdf2d635f735cb045f0824640012d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 027/104] fix: report too many globals at the start of a
 function

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index db4c502..686436a 100644
--- a/scc.c
+++ b/scc.c
@@ -3371,6 +3371,7 @@ void ParseExternalDefition(void)
         }
         int i;
         // Make room for "late globals"
+        if (Scopes[0] > VARDECL_MAX-GLOBAL_RESERVE) Fail();
         memset(&VarDecls[Scopes[0]], -1, sizeof(VarDecls[0])*GLOBAL_RESERVE);
         Scopes[0] += GLOBAL_RESERVE;
         PushScope();
-- 
2.43.0


From cd5c4a3b98bb640aeea500d71a4f6a901efb9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 028/104] fix: adding -32768 when self-compiled

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 686436a..d8ef31f 100644
--- a/scc.c
+++ b/scc.c
@@ -1265,11 +1265,11 @@ void EmitAddRegConst(int r, int Amm)
         Amm = -Amm;
         Op += I_SUB;
     }
-    if (Amm <= 2) {
+    if ((unsigned)Amm <= 2) { // unsigned because of -32768
         Output1Byte(Op = (Op&15)|I_INC);
         if (--Amm)
             Output1Byte(Op);
-    } else if (Amm < 128) {
+    } else if ((unsigned)Amm < 128) {
         Output3Bytes(I_ALU_RM16_IMM8, MODRM_REG|Op, Amm);
     } else {
         if (!r)
-- 
2.43.0


From 59f3865573d7348ca4953f1e205d335fb0d6a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 029/104] fix: reject unnamed parameters in function
 definitions

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index d8ef31f..4d971bf 100644
--- a/scc.c
+++ b/scc.c
@@ -1626,7 +1626,7 @@ struct VarDecl* AddVarDeclScope(int Scope, int Id)
 
 struct VarDecl* AddVarDecl(int Id)
 {
-    if (Scopes[ScopeCount-1] >= VARDECL_MAX) Fail();
+    if (Id < 0 || Scopes[ScopeCount-1] >= VARDECL_MAX) Fail();
 
     // Check if definition/re-declaration in global scope
     struct VarDecl* Prev = VarLookup[Id];
-- 
2.43.0


From dcaad6e5fc87342d5b9fabafc8ff15c904a97ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 030/104] fix: reject objects and members of incomplete struct
 types

---
 scc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scc.c b/scc.c
index 4d971bf..819d4e6 100644
--- a/scc.c
+++ b/scc.c
@@ -320,6 +320,7 @@ enum {
 struct StructDecl {
     int Id; // OR'ed with IS_UNION_FLAG if union, id is ID_MAX for unnamed structs/unions
     struct StructMember* Members;
+    int Complete;
 };
 
 struct ArrayDecl {
@@ -1525,6 +1526,7 @@ int SizeofType(int Type, int Extra)
         }
     case VT_STRUCT:
         {
+            if ((unsigned)Extra >= (unsigned)StructCount || !StructDecls[Extra].Complete) Fail();
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
@@ -2844,6 +2846,7 @@ void ParseDeclSpecs(void)
                             if (SM->Id < 0) Fail();
                             SM->Type      = CurrentType;
                             SM->TypeExtra = CurrentTypeExtra;
+                            SizeofCurrentType(); // Check that the type is complete
                             *Last = SM;
                             Last = &SM->Next;
                             if (TokenType == ',') {
@@ -2858,6 +2861,7 @@ void ParseDeclSpecs(void)
                     }
                     GetToken();
                     *Last = 0;
+                    SD->Complete = 1;
                     CurrentTypeExtra = SI;
                 }
                 CurrentType = VT_STRUCT;
-- 
2.43.0


From 1599e8a2a8dcea89752783629b99380a7937aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 031/104] fix: don't compare past the end of known identifiers

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 819d4e6..76c6439 100644
--- a/scc.c
+++ b/scc.c
@@ -60,7 +60,7 @@ void memset(void* ptr, int val, int size)
     _emit 0xF3 _emit 0xAA            // REP STOSB
 }
 
-int memcmp(void* l, void* r, int size)
+int strncmp(char* l, char* r, int size) // Only used to check for equality
 {
     _emit 0x31 _emit 0xC0            // XOR AX, AX
     _emit 0x8B _emit 0x7E _emit 0x04 // MOV DI,[BP+0x4]
@@ -737,7 +737,7 @@ void GetToken(void)
                 if (IdBufPtr-IdBuffer > IDBUFFER_MAX-2) Fail();
                 break;
             }
-            if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
+            if (strncmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
                 ++Hash;
                 continue;
             }
-- 
2.43.0


From aeaf669377b76fc1f10e48c382a1e3d4ba8bd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 032/104] fix: don't copy stale bytes over a branch to the next
 instruction

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 76c6439..57129eb 100644
--- a/scc.c
+++ b/scc.c
@@ -1094,7 +1094,7 @@ void DoFixups(int r, int relative)
                 c[-2] = f+3;
                 // If the next instruction is a known jump / return, copy it in
                 c[1]  = I_XCHG_AX;
-                switch (c[2]) {
+                switch (f ? c[2] : 0) { // (If anything has been output after it)
                 case I_JMP_REL8:
                     if (((signed char *)c)[3] > 0x7f-3)
                         break;
@@ -1102,6 +1102,8 @@ void DoFixups(int r, int relative)
                     c[0] = c[3]+3;
                     continue;
                 case I_POP|R_BP:
+                    if (c[3] != I_RET)
+                        break;
                     c[-1] = I_POP|R_BP;
                     c[0]  = I_RET;
                     continue;
-- 
2.43.0


From deff5bb85aef4fb44cc4074733787c6a92236b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 033/104] fix: a typedef name after a type specifier is an
 ordinary identifier

---
 scc.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index 57129eb..151c549 100644
--- a/scc.c
+++ b/scc.c
@@ -2742,7 +2742,7 @@ void ParseDeclSpecs(void)
 {
     int Flags = 0;
     // Could check if legal type, but we want to keep the code small...
-    CurrentType = VT_INT;
+    CurrentType = -1; // No type specifier seen yet (after one a typedef name is just an identifier)
     for (;;) {
         switch (TokenType) {
         case TOK_VOID:
@@ -2872,10 +2872,13 @@ void ParseDeclSpecs(void)
         default:
             {
                 struct VarDecl* Typedef = LookupTypedef();
-                if (Typedef) {
-                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
-                    CurrentTypeExtra = Typedef->TypeExtra;
-                    break;
+                if (CurrentType < 0) {
+                    CurrentType = VT_INT;
+                    if (Typedef) {
+                        CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
+                        CurrentTypeExtra = Typedef->TypeExtra;
+                        break;
+                    }
                 }
                 CurrentType |= Flags;
                 return;
-- 
2.43.0


From 92567a536ae4ddcbbcbd6fac1f0eb65b94b73537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 034/104] fix: don't crash on division by constant zero

---
 scc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 151c549..e63648f 100644
--- a/scc.c
+++ b/scc.c
@@ -2324,8 +2324,12 @@ int DoConstBinOp(int Op, int L, int R)
     case '+':     return L + R;
     case '-':     return L - R;
     case '*':     return L * R;
-    case '/':     return L / R;
-    case '%':     return L % R;
+    case '/':
+        if (!R) break;
+        return L / R;
+    case '%':
+        if (!R) break;
+        return L % R;
     case '&':     return L & R;
     case '^':     return L ^ R;
     case '|':     return L | R;
-- 
2.43.0


From 1b9ebb7ef936db88b37a285e02c40fbdd5f3cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 035/104] fix: loop for a constant true do-while condition

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index e63648f..235a503 100644
--- a/scc.c
+++ b/scc.c
@@ -2358,7 +2358,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From 9724ab932b69744a2a80013803b44aa8705ad9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 036/104] fix: don't take '@' and backquote as digits

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 235a503..77ab3d2 100644
--- a/scc.c
+++ b/scc.c
@@ -629,8 +629,8 @@ unsigned GetNum(unsigned Init, unsigned Base, int MaxLen)
 {
     unsigned d;
     while (MaxLen--) {
-        if ((d = CurChar - '0') > 9)
-            d = (CurChar & 0xdf) - ('A'-10);
+        if ((d = CurChar - '0') > 9 && (d = (CurChar & 0xdf) - ('A'-10)) < 10)
+            break; // '@' or '`'
         if (d >= Base)
             break;
         Init = Init*Base + d;
-- 
2.43.0


From 2dea4434335ca9afc664bf96b9202fdc32b6f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:09 +0000
Subject: [PATCH 037/104] fix: sas: encode all segment overrides

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 450f35f..051edd5 100644
--- a/sas.c
+++ b/sas.c
@@ -897,7 +897,7 @@ DoMem:
         for (;;) {
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0


From 3660b9583ec38f2b57ad740f7fca7a0f9c7c8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 038/104] fix: sas: encode bp based operands with a forward
 label

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 051edd5..fac32be 100644
--- a/sas.c
+++ b/sas.c
@@ -931,7 +931,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From 775c864c2e961f35df60a1e6b1c9a4e1a12ec8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 039/104] fix: sas: resolve forward labels in DW

---
 sas.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index fac32be..b955041 100644
--- a/sas.c
+++ b/sas.c
@@ -973,6 +973,8 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+void AddFixupHere(struct Label* L, char Type);
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -996,8 +998,8 @@ void HandleDx(int size)
             if (L->Val != -1) {
                 OutputWord(L->Val);
             } else {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
-- 
2.43.0


From aaea7fe1f5b8f670999b26e411754595376e9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:35 +0000
Subject: [PATCH 040/104] fix: sas: pad each string in DW to a whole word

---
 sas.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index b955041..47f41b3 100644
--- a/sas.c
+++ b/sas.c
@@ -977,7 +977,6 @@ void AddFixupHere(struct Label* L, char Type);
 
 void HandleDx(int size)
 {
-    int n = 0; // Keep count of string output for alignment
     do {
         if (TokenType == TOK_NUMBER) {
             if (size == 1)
@@ -986,10 +985,11 @@ void HandleDx(int size)
                 OutputWord(TokenVal.Num);
             GetToken();
         } else if (TokenType == TOK_STRING) {
-            n += TokenVal.Str.Len;
             int i;
             for (i = 0; i < TokenVal.Str.Len; ++i)
                 OutputByte(TokenVal.Str.Data[i]);
+            if (size == 2 && (TokenVal.Str.Len & 1))
+                OutputByte(0);
             GetToken();
         } else if (TokenType >= TOK_USER_ID) {
             assert(size == 2);
@@ -1005,8 +1005,6 @@ void HandleDx(int size)
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
         }
     } while (Accept(TOK_COMMA));
-    if (size == 2 && (n&1))
-        OutputByte(0);
 }
 
 void HandleResx(int size)
-- 
2.43.0


From 510ccd476aff0d96e47886b45f23052b85454be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:37 +0000
Subject: [PATCH 041/104] fix: sas: diagnose short jumps that are out of range

---
 sas.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sas.c b/sas.c
index 47f41b3..2ea948b 100644
--- a/sas.c
+++ b/sas.c
@@ -379,6 +379,7 @@ enum {
 struct Fixup {
     char Type;
     int  Offset;
+    int  Address; // Address of the reference
     struct Fixup* Next;
 };
 struct Fixup Fixups[FIXUP_MAX];
@@ -1049,6 +1050,7 @@ void AddFixupHere(struct Label* L, char Type)
     NextFixup = NextFixup->Next;
     F->Type   = Type;
     F->Offset = OutputBufPos;
+    F->Address = VirtAddress;
     F->Next   = L->Fixups;
     L->Fixups = F;
 }
@@ -1217,6 +1219,8 @@ void HandleRel8(struct Operand* Op)
 {
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
+    else if (!IsShort(Op->Disp-(VirtAddress+1)))
+        Fatal("Short jump out of range");
     OutputByte(Op->Disp-(VirtAddress+1));
 }
 
@@ -1265,12 +1269,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
@@ -1615,8 +1614,9 @@ int main(int argc, char** argv)
     GetToken();
     while (TokenType) {
         if (TokenType >= TOK_USER_ID) {
-            struct Label* L = &Labels[TokenType - TOK_USER_ID];
-            const int global = IdText(TokenType)[0] != '.';
+            const int Id = TokenType;
+            struct Label* L = &Labels[Id - TOK_USER_ID];
+            const int global = IdText(Id)[0] != '.';
             GetToken();
             if (Accept(TOK_COLON)) {
                 if (L->Type == LABEL_NONE) {
@@ -1630,6 +1630,8 @@ int main(int argc, char** argv)
                         while (F) {
                             switch (F->Type) {
                             case FIXUP_REL8:
+                                if (!IsShort(VirtAddress-(F->Address+1)))
+                                    printf("Line %d: Warning: %s is too far away for a short jump\n", Line, IdText(Id));
                                 OutputBuf[F->Offset] += VirtAddress;
                                 break;
                             case FIXUP_REL16:
-- 
2.43.0


From 7d345bd47ec7c10a4a647d26087d7addd114d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 042/104] fix: sas: report undefined labels, handle long and
 dotted output paths

---
 sas.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 2ea948b..003721c 100644
--- a/sas.c
+++ b/sas.c
@@ -1550,6 +1550,13 @@ void HandleInstruction(int Inst)
     Fatal("Instruction not implemented: %s\n", IdText(Inst));
 }
 
+void CheckDefined(int Id)
+{
+    const struct Label* L = &Labels[Id - TOK_USER_ID];
+    if (L->Type == LABEL_NORMAL && L->Val == -1)
+        Fatal("Undefined label %s", IdText(Id));
+}
+
 void AddBuiltins(const char* S)
 {
     char buf[16];
@@ -1655,6 +1662,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i+TOK_USER_ID);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1682,11 +1690,17 @@ int main(int argc, char** argv)
         }
     }
 
-    if (argv[2])
-       strcpy(StringBuf, argv[2]);
-    else
+    for (i = TOK_USER_ID; i < IdCount+TOK_ID; ++i)
+        CheckDefined(i);
+
+    const char* OutName = argv[2];
+    if (!OutName) {
+        if (strlen(argv[1]) > sizeof(StringBuf)-5)
+            Fatal("File name too long");
         MakeOutputFilename(StringBuf, argv[1]);
-    const int OutFile = open(StringBuf, CREATE_FLAGS, 0600);
+        OutName = StringBuf;
+    }
+    const int OutFile = open(OutName, CREATE_FLAGS, 0600);
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-- 
2.43.0


From 6aecedc10b250ea861a0693e38ae63a16e3a4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 043/104] fix: sas: don't take a dot in a directory name as the
 start of the extension

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 003721c..d571138 100644
--- a/sas.c
+++ b/sas.c
@@ -1578,6 +1578,8 @@ void MakeOutputFilename(char* dest, const char* n)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0; // Only look in the last path component
         *dest++ = *n++;
     }
     strcpy(LastDot ? LastDot : dest, ".com");
-- 
2.43.0


From 4ca342b6565ff73706f8d067b0e5965236ed2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 044/104] fix: sas: check for too many identifiers

---
 sas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sas.c b/sas.c
index d571138..c5fdd7f 100644
--- a/sas.c
+++ b/sas.c
@@ -493,6 +493,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
+    assert(IdCount < ID_MAX);
     assert(IdBufferIndex + l <= IDBUFFER_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
-- 
2.43.0


From e0dc7d529f7add0569099c98d52a670614353a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 045/104] fix: sas: handle read errors

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index c5fdd7f..79a556c 100644
--- a/sas.c
+++ b/sas.c
@@ -549,6 +549,8 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
+        if (InBufSize < 0)
+            Fatal("Error reading input file");
         if (!InBufSize) {
             CurrentChar = 0;
             return;
-- 
2.43.0


From 81f2dc1bba486d05d6a3ec2abd95b746a240a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 046/104] fix: sas: don't write past the string buffer

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 79a556c..35dc996 100644
--- a/sas.c
+++ b/sas.c
@@ -682,7 +682,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
-- 
2.43.0


From 900e952d08fc2d1621fa59c5da3d55e3018a5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 047/104] fix: sas: don't print long strings through the fixed
 size message buffer

---
 sas.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 35dc996..0aae483 100644
--- a/sas.c
+++ b/sas.c
@@ -723,7 +723,11 @@ const char* TokenText(void)
 {
     switch (TokenType) {
     case TOK_NUMBER: sprintf(TokenTextBuf, "%d", TokenVal.Num); break;
-    case TOK_STRING: return TokenVal.Str.Data;
+    case TOK_STRING:
+        // Limit the length, messages have to fit in small buffers
+        memcpy(TokenTextBuf, TokenVal.Str.Data, sizeof(TokenTextBuf)-1);
+        TokenTextBuf[sizeof(TokenTextBuf)-1] = 0;
+        break;
     case TOK_LSH:    return "<<";
     default:
         if (TokenType >= ' ' && TokenType < 127) {
-- 
2.43.0


From c5ce32c7695ca9c9a320ae9695244474122ebde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 048/104] fix: sas: reject subtracted registers and labels in
 memory operands

---
 sas.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 0aae483..38b33e1 100644
--- a/sas.c
+++ b/sas.c
@@ -909,7 +909,7 @@ DoMem:
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-            } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
+            } else if (!neg && (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI)) {
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
                 GetToken();
             } else if (TokenType == TOK_NUMBER) {
@@ -918,7 +918,7 @@ DoMem:
                 else
                     Oper->Disp += TokenVal.Num;
                 GetToken();
-            } else if (TokenType >= TOK_USER_ID) {
+            } else if (!neg && TokenType >= TOK_USER_ID) {
                 assert(!Oper->Fixup);
                 struct Label* L = ReferenceLabel();
                 assert(L->Type == LABEL_NORMAL);
-- 
2.43.0


From 756626adbcf2bc6662921b3cbece63d842157bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 049/104] fix: sas: check operand sizes and kinds

---
 sas.c | 61 +++++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/sas.c b/sas.c
index 38b33e1..79caafd 100644
--- a/sas.c
+++ b/sas.c
@@ -983,6 +983,34 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
 
 void AddFixupHere(struct Label* L, char Type);
 
+// Check that Op is a general purpose register that agrees with the operand size seen so far.
+// Returns 1 for word sized registers.
+int RegSize(struct Operand* Op)
+{
+    if (Op->Type != OPTYPE_REG || Op->Disp >= TOK_ES)
+        Fatal("Expected general purpose register");
+    const int W = Op->Disp >= TOK_AX;
+    if (SizeOverride && SizeOverride != W+1)
+        Fatal("Operand size mismatch");
+    SizeOverride = W+1;
+    return W;
+}
+
+int WordReg(struct Operand* Op)
+{
+    if (!RegSize(Op))
+        Fatal("Expected word register");
+    return Op->Disp&7;
+}
+
+// Like Parse2Operands, but segment registers are not allowed
+void ParseGeneralOperands(struct Operand* op1, struct Operand* op2)
+{
+    Parse2Operands(op1, op2);
+    if (op1->Type == OPTYPE_REG) RegSize(op1);
+    if (op2->Type == OPTYPE_REG) RegSize(op2);
+}
+
 void HandleDx(int size)
 {
     do {
@@ -1124,6 +1152,16 @@ void HandleMOV(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
+    // A segment register can only be combined with a word register or memory
+    const int Seg1 = op1.Type == OPTYPE_REG && op1.Disp >= TOK_ES;
+    const int Seg2 = op2.Type == OPTYPE_REG && op2.Disp >= TOK_ES;
+    if (Seg1 || Seg2) {
+        if (SizeOverride == 1 || (Seg1 && op2.Type == OPTYPE_LIT))
+            Fatal("Invalid operands for segment register");
+        SizeOverride = 2;
+    }
+    if (op1.Type == OPTYPE_REG && !Seg1) RegSize(&op1);
+    if (op2.Type == OPTYPE_REG && (Seg1 || !Seg2)) RegSize(&op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1170,7 +1208,7 @@ void HandleALU(int Base)
 {
     (void)Base;
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseGeneralOperands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         const int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1211,12 +1249,13 @@ void HandleROT(int r)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
-    assert(op1.Type == OPTYPE_REG);
-    const int W = op1.Disp >= TOK_AX;
+    const int W = RegSize(&op1);
     int Inst = 0xD0 | W;
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && !op2.Fixup && op2.Disp == 1);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
@@ -1244,7 +1283,7 @@ void HandleCALL(void)
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
         OutputByte(0xFF);
-        OutputByte(0xC0 | 2<<3 | (op.Disp&7));
+        OutputByte(0xC0 | 2<<3 | WordReg(&op));
     } else {
         assert(op.Type == OPTYPE_LIT);
         OutputByte(0xE8);
@@ -1285,7 +1324,7 @@ void HandleIncDec(int Dec)
     struct Operand op;
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
-        if (op.Disp >= TOK_AX) {
+        if (RegSize(&op)) {
             OutputByte(0x40 | Dec<<3 | (op.Disp&7));
         } else {
             OutputByte(0xFE);
@@ -1340,7 +1379,7 @@ void HandleINT(void)
 void HandleTEST(void)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseGeneralOperands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         assert(op2.Type == OPTYPE_LIT);
         const int W = op1.Disp >= TOK_AX;
@@ -1364,7 +1403,7 @@ void HandleTEST(void)
 void HandleXCHG(void)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseGeneralOperands(&op1, &op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1385,8 +1424,7 @@ void HandleMulDiv(int r)
     (void)r;
     struct Operand op;
     ParseOperand(&op);
-    assert(op.Type == OPTYPE_REG);
-    OutputByte(0xF6 | (op.Disp >= TOK_AX));
+    OutputByte(0xF6 | RegSize(&op));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
 
@@ -1395,8 +1433,7 @@ void HandleNotNeg(int r)
     (void)r;
     struct Operand op;
     ParseOperand(&op);
-    assert(op.Type == OPTYPE_REG);
-    OutputByte(0xF6 | (op.Disp >= TOK_AX));
+    OutputByte(0xF6 | RegSize(&op));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
 }
 
@@ -1404,7 +1441,7 @@ void HandleLEA(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
-    assert(op1.Type == OPTYPE_REG);
+    WordReg(&op1);
     assert(op2.Type == OPTYPE_MEM);
     OutputMR(0x8D, &op2, &op1);
 }
-- 
2.43.0


From c3e9b897bb3f6f64e3b86849584734c989c91dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 050/104] fix: sim86: zero flag of byte operations

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 0589925..a95a705 100644
--- a/sim86.c
+++ b/sim86.c
@@ -374,7 +374,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask | (mask-1))))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From e5656d0f88da0369ed0e23408605b477095a292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 051/104] fix: sim86: set flags for INC and DEC

---
 sim86.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index a95a705..76f48ba 100644
--- a/sim86.c
+++ b/sim86.c
@@ -517,23 +517,24 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+// INC/DEC don't modify carry
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int c = flags & FC;
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | c;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
-- 
2.43.0


From f5f3a27e7362f8000ef65d558ffd5dbe014afd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 052/104] fix: sim86: set flags for NEG

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 76f48ba..db13901 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1140,7 +1140,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From 8f14b5af85fc9c71420386efc70a89b7ea16ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 053/104] fix: sim86: shift 16 bit values and set all flags

---
 sim86.c | 97 ++++++++++++++++++++++++---------------------------------
 1 file changed, 40 insertions(+), 57 deletions(-)

diff --git a/sim86.c b/sim86.c
index db13901..2c67d1e 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,8 +93,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SEXT(x) ((int)(x))
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SEXT(x) ((short)(x))
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -537,6 +539,42 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
+// Shift R/M16
+void Shift(unsigned count, const char* counttext)
+{
+    ModRM();
+    const unsigned v = TRIM(ReadRM());
+    if (count > 17) count = 17; // Higher counts give the same result
+    unsigned res = v, c = 0;
+    switch (modrm>>3&7) {
+    case 4:
+        if (verbose) sprintf(insttext, "SHL %s, %s", rmtext, counttext);
+        res = v << count;
+        if (count) c = (v << (count-1)) & 0x8000;
+        break;
+    case 5:
+        if (verbose) sprintf(insttext, "SHR %s, %s", rmtext, counttext);
+        res = v >> count;
+        if (count) c = (v >> (count-1)) & 1;
+        break;
+    case 7:
+        if (verbose) sprintf(insttext, "SAR %s, %s", rmtext, counttext);
+        res = SEXT(v) >> count;
+        if (count) c = (SEXT(v) >> (count-1)) & 1;
+        break;
+    default:
+        Fatal("TODO: Shift/%d", modrm>>3&7);
+    }
+    WriteRM(res);
+    if (count) {
+        flags = 0;
+        if (c) flags |= FC;
+        if (!TRIM(res)) flags |= FZ;
+        if (res & 0x8000) flags |= FS;
+        if ((res ^ v) & 0x8000) flags |= FO;
+    }
+}
+
 void ReadAsciiz(char* dest, int sr, int off)
 {
     int ch;
@@ -1051,65 +1089,10 @@ int main(int argc, char** argv)
                 INT();
                 break;
             case 0xD1:
-                {
-                    ModRM();
-                    const unsigned v = ReadRM();
-                    unsigned res, c;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, 1
-                        if (verbose) sprintf(insttext, "SHL %s, 1", rmtext);
-                        res = v << 1;
-                        c = v & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, 1
-                        if (verbose) sprintf(insttext, "SHR %s, 1", rmtext);
-                        res = v>>1;
-                        c = v&1;
-                        break;
-                    case 7: // SAR R/M16, 1
-                        if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
-                        c = v&1;
-                        break;
-                    default:
-                        Fatal("TODO: D1/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                Shift(1, "1");
                 break;
             case 0xD3:
-                {
-                    ModRM();
-                    const unsigned v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
-                    unsigned res, c=0;
-                    switch (modrm>>3&7) {
-                    case 4: // SHL R/M16, CL
-                        if (verbose) sprintf(insttext, "SHL %s, CL", rmtext);
-                        res = v << a;
-                        if (a) c = (v << (a-1)) & 0x8000;
-                        break;
-                    case 5: // SHR R/M16, CL
-                        if (verbose) sprintf(insttext, "SHR %s, CL", rmtext);
-                        res = v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    case 7: // SAR R/M16, CL
-                        if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
-                        break;
-                    default:
-                        Fatal("TODO: D3/%d", modrm>>3&7);
-                    }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
-                }
+                Shift(reg[R_CX]&0xff, "CL");
                 break;
             case 0xE8:
                 {
-- 
2.43.0


From 167d9727a0e16ef51ac6ec89fbc1502b798640fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 054/104] fix: sim86: divide 16 bit values

---
 sim86.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 2c67d1e..0f70faa 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1137,19 +1137,23 @@ int main(int argc, char** argv)
                     case 6: // DIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "DIV %s", rmtext);
-                            const unsigned int d = ReadRM();
-                            assert(reg[R_DX] == 0);
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const unsigned d = TRIM(ReadRM());
+                            const unsigned n = TRIM(reg[R_AX]);
+                            assert(TRIM(reg[R_DX]) == 0);
+                            if (!d) Fatal("Divide error");
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SEXT(ReadRM());
+                            const int n = SEXT(reg[R_AX]);
+                            assert(SEXT(reg[R_DX]) == (n < 0 ? -1 : 0));
+                            if (!d || (d == -1 && n == -n && n)) Fatal("Divide error");
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     default:
-- 
2.43.0


From aaac7e05ff0d97696187bd36668914819627be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 055/104] fix: sim86: string instructions

---
 sim86.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0f70faa..84b4c0a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -298,6 +298,12 @@ void WriteReg(int r, unsigned val)
     }
 }
 
+// Segment for operands that default to DS
+int DataSeg(void)
+{
+    return seg == -1 ? SR_DS : seg;
+}
+
 int ReadRM(void)
 {
     assert(modrm != -1);
@@ -969,8 +975,8 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
-                    while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                    while (TRIM(reg[R_CX])) {
+                        Write8(SR_ES, reg[R_DI], Read8(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -981,8 +987,8 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
-                    while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                    while (TRIM(reg[R_CX])) {
+                        Write16(SR_ES, reg[R_DI], Read16(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -993,12 +999,14 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                    dsize = 0;
+                    int equal = 1;
+                    while (equal && TRIM(reg[R_CX])) {
+                        DoOp(OP_CMP, Read8(DataSeg(), reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        equal = flags & FZ;
                     }
                 }
                 break;
@@ -1007,8 +1015,8 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSB");
-                        iter = reg[R_CX];
-                        reg[R_CX] -= iter;
+                        iter = TRIM(reg[R_CX]);
+                        reg[R_CX] = 0;
                     } else {
                         if (verbose) sprintf(insttext, "STOSB");
                     }
@@ -1023,8 +1031,8 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSW");
-                        iter = reg[R_CX];
-                        reg[R_CX] -= iter;
+                        iter = TRIM(reg[R_CX]);
+                        reg[R_CX] = 0;
                     } else {
                         if (verbose) sprintf(insttext, "STOSW");
                     }
@@ -1040,7 +1048,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
@@ -1048,7 +1056,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
@@ -1056,11 +1064,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
-                        DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
+                    dsize = 0;
+                    int equal = 0;
+                    while (!equal && TRIM(reg[R_CX])) {
+                        DoOp(OP_CMP, reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        equal = flags & FZ;
                     }
                 }
                 break;
-- 
2.43.0


From ccc28cfc12b5ef9b9fff5b0430b56f7140ad7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 056/104] fix: sim86: segment overrides of MOV AL/AX,[disp16]

---
 sim86.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 84b4c0a..2b2427a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -958,15 +958,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(DataSeg(), Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(DataSeg(), Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(DataSeg(), Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(DataSeg(), Off);
                         }
                     }
                 }
-- 
2.43.0


From 16af3e8db96746fec1437bc0cceaf8836ac4d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 057/104] fix: sim86: reject invalid forms of CALL and LEA

---
 sim86.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 2b2427a..939b524 100644
--- a/sim86.c
+++ b/sim86.c
@@ -926,6 +926,7 @@ int main(int argc, char** argv)
             case 0x8D:
                 {
                     ModRM();
+                    assert(modrm>>6 != 3);
                     if (verbose) sprintf(insttext, "LEA %s, %s", RegName(modrm>>3&7), rmtext);
                     reg[modrm>>3&7] = addr;
                 }
@@ -1186,8 +1187,10 @@ int main(int argc, char** argv)
                         break;
                     case 2:
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
+                        assert(dsize);
+                        const int dest = ReadRM();
                         DoPush(ip);
-                        ip = ReadRM();
+                        ip = dest;
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From a14702bbb0118cb5d69b27ce129c141ba3ba6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 058/104] fix: sim86: room for long memory operands in traces

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 939b524..8ffec8b 100644
--- a/sim86.c
+++ b/sim86.c
@@ -60,7 +60,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[24];
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From dd01a3ea669dfed9ce4c2e3cf11fc491001c9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 059/104] fix: sim86: file reads and writes

---
 sim86.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sim86.c b/sim86.c
index 8ffec8b..2e6f34a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -48,7 +48,7 @@ int sreg[4];
 int ip;
 int flags;
 #ifndef __SCC__
-char mem[1024*1024];
+char mem[1024*1024+65536]; // Room for transfers that start just below the end
 enum { DEFAULT_SEGMENT = 0x2000 };
 #else
 int memseg;
@@ -432,7 +432,7 @@ int ReadToMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return read(fd, mem+MAKEADDR(SR_DS, off), size);
+    return read(fd, mem+MAKEADDR(SR_DS, off), TRIM(size));
 #endif
 }
 
@@ -446,7 +446,8 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return write(fd, mem+MAKEADDR(SR_DS, off), size);
+    fflush(stdout); // Keep console output in order
+    return write(fd, mem+MAKEADDR(SR_DS, off), TRIM(size));
 #endif
 }
 
@@ -701,18 +702,18 @@ void INT(void)
         flags &= ~FC;
     } else if (func == 0x3F) {
         int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
-            r = 0;
+            r = 6; // Invalid handle
         } else {
             flags &= ~FC;
         }
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
-            r = 0;
+            r = 6; // Invalid handle
         } else {
             flags &= ~FC;
         }
-- 
2.43.0


From e68f92fc87a79f9d2571aa801e9de948bc4a1507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 060/104] fix: sim86: report overflow of IDIV

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 2e6f34a..5326a9d 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1163,7 +1163,7 @@ int main(int argc, char** argv)
                             const int d = SEXT(ReadRM());
                             const int n = SEXT(reg[R_AX]);
                             assert(SEXT(reg[R_DX]) == (n < 0 ? -1 : 0));
-                            if (!d || (d == -1 && n == -n && n)) Fatal("Divide error");
+                            if (!d || (d == -1 && TRIM(n) == 0x8000)) Fatal("Divide error");
                             reg[R_DX] = n % d;
                             reg[R_AX] = n / d;
                         }
-- 
2.43.0


From eaa968fced6a11e3b9aedb7b462f60743b6d601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 061/104] fix: sim86: check the length of file names

---
 sim86.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 5326a9d..c101fb3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -41,6 +41,7 @@ enum {
 
 enum {
     LOAD_OFFSET     = 0x100,
+    FNAME_MAX       = 128,
 };
 
 int reg[8];
@@ -585,15 +586,18 @@ void Shift(unsigned count, const char* counttext)
 void ReadAsciiz(char* dest, int sr, int off)
 {
     int ch;
+    int l = 0;
     do {
+        if (l++ == FNAME_MAX)
+            Fatal("File name too long");
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
-    } while (ch); 
+    } while (ch);
 }
 
 void HandleOpen(int oflags)
 {
-    char fname[64];
+    char fname[FNAME_MAX];
     ReadAsciiz(fname, SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
-- 
2.43.0


From b501283c0bf3f4bbb893d4e7051a8de3bda4376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 062/104] fix: sim86: command line

---
 sim86.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index c101fb3..0c3b454 100644
--- a/sim86.c
+++ b/sim86.c
@@ -791,11 +791,13 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
+        if (p + (int)strlen(s) > 125)
+            Fatal("Command line too long");
+        Write8(SR_DS, 0x81+(p++), ' ');
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 3518112a476e764403e427269beaf9f032346e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 063/104] fix: sim86: report programs that cannot be read

---
 sim86.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0c3b454..730e2dc 100644
--- a/sim86.c
+++ b/sim86.c
@@ -458,10 +458,13 @@ void ReadFile(const char* Filename)
     if (fd < 0) {
         Fatal("Error opening %s", Filename);
     }
+    const int size = ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
+    if (size < 0) {
+        Fatal("Error reading %s", Filename);
+    }
 #ifdef PROFILING
-    file_size =
+    file_size = size;
 #endif
-    ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
     close(fd);
 }
 
-- 
2.43.0


From 5dd16795264fd24e569129ba5c5cf25811188766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 064/104] fix: sim86: don't translate line ends in the DOS
 build

---
 sim86.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sim86.c b/sim86.c
index 730e2dc..502e0a2 100644
--- a/sim86.c
+++ b/sim86.c
@@ -698,7 +698,11 @@ void INT(void)
         if (verbose)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
+#ifdef __SCC__
+            raw_putchar(c);
+#else
             putchar(c);
+#endif
     } else if (func == 0x3C) {
         HandleOpen(O_WRONLY | O_CREAT | O_TRUNC);
     } else if (func == 0x3D) {
-- 
2.43.0


From d1d4d6caf55ff3100f85dc824ad6eb60ad3cd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 065/104] fix: sim86: profiling doesn't change the program's
 output

---
 sim86.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sim86.c b/sim86.c
index 502e0a2..7d5a862 100644
--- a/sim86.c
+++ b/sim86.c
@@ -77,6 +77,7 @@ char* addrtext[65536];
 int stack_low = 0xffff;
 int file_size;
 int do_profile;
+int remove_verbose; // verbose is only set to get insttext
 
 struct StackFrame {
     int bp;
@@ -90,6 +91,9 @@ struct Stack {
 
 struct Stack max_stack;
 
+#define TRACING (verbose && !remove_verbose)
+#else
+#define TRACING verbose
 #endif
 
 #ifdef __SCC__
@@ -603,7 +607,7 @@ void HandleOpen(int oflags)
     char fname[FNAME_MAX];
     ReadAsciiz(fname, SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
-    if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+    if (TRACING) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
         flags |= FC;
         fd = 2; // File not found
@@ -615,7 +619,7 @@ void HandleOpen(int oflags)
 
 void DoExit(int ec)
 {
-    if (verbose) {
+    if (TRACING) {
         if (ec)
             printf("\nExiting with error code %d\n", ec);
         else
@@ -695,7 +699,7 @@ void INT(void)
     const int func = reg[R_AX]>>8&0xff;
     if (func == 0x02) {
         int c = reg[R_DX]&0xff;
-        if (verbose)
+        if (TRACING)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
 #ifdef __SCC__
@@ -708,7 +712,7 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
+        if (TRACING) printf("\nclose(%d)\n", reg[R_BX]);
         close(reg[R_BX]);
         flags &= ~FC;
     } else if (func == 0x3F) {
@@ -814,7 +818,7 @@ int main(int argc, char** argv)
     for (;;) {
 #ifdef PROFILING
         const int orig_ip = TRIM(ip);
-        int remove_verbose = 0;
+        remove_verbose = 0;
         if (do_profile) {
             cycles = 0;
             reg[R_SP]=TRIM(reg[R_SP]);
-- 
2.43.0


From ddee252617ac24fb513a681f44385e900b5ef080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 066/104] fix: sim86: word operations with a segment override

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 7d5a862..acb1fb6 100644
--- a/sim86.c
+++ b/sim86.c
@@ -840,12 +840,12 @@ int main(int argc, char** argv)
 
         modrm = -1;
         addr = 0;
-        dsize = 1;
         seg = -1;
 
         int rep = 0;
 
     Restart: ;
+        dsize = 1;
         const int inst = ReadIByte();
 
         if (inst < 0x40) {
-- 
2.43.0


From ec37ab943ddabf3f4ce04bc417791501d2828c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 067/104] fix: sim86: only use 16 bits of file handles

---
 sim86.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index acb1fb6..3c93ec3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -712,11 +712,11 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (TRACING) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
+        if (TRACING) printf("\nclose(%d)\n", TRIM(reg[R_BX]));
+        close(TRIM(reg[R_BX]));
         flags &= ~FC;
     } else if (func == 0x3F) {
-        int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = ReadToMem(TRIM(reg[R_BX]), reg[R_DX], reg[R_CX]);
         if (r < 0) {
             flags |= FC;
             r = 6; // Invalid handle
@@ -725,7 +725,7 @@ void INT(void)
         }
         reg[R_AX] = r;
     } else if (func == 0x40) {
-        int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], reg[R_CX]);
         if (r < 0) {
             flags |= FC;
             r = 6; // Invalid handle
-- 
2.43.0


From d66136ed20d05276cafba50aa2c6365670b5694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 068/104] fix: sim86: long program names

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 3c93ec3..7b79272 100644
--- a/sim86.c
+++ b/sim86.c
@@ -460,11 +460,11 @@ void ReadFile(const char* Filename)
 {
     const int fd = open(Filename, O_BINARY | O_RDONLY);
     if (fd < 0) {
-        Fatal("Error opening %s", Filename);
+        Fatal("Error opening file");
     }
     const int size = ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
     if (size < 0) {
-        Fatal("Error reading %s", Filename);
+        Fatal("Error reading file");
     }
 #ifdef PROFILING
     file_size = size;
-- 
2.43.0


From 8bba16e4e86331af013de2a1b50f6b938074a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 069/104] fix: sim86: limits when profiling

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 7b79272..8f89b8f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -636,13 +636,13 @@ void DoExit(int ec)
         };
         int num_entries = 1;
         char fname[256];
-        strcpy(fname, filename);
+        snprintf(fname, sizeof(fname)-4, "%s", filename); // Room for extension
         char* d = strrchr(fname, '.');
         if (d) {
             strcpy(d, ".map");
             FILE* fp = fopen(fname, "rt");
             if (fp) {
-                while (fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
+                while (num_entries < (int)(sizeof(entries)/sizeof(*entries)) && fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
                     ++num_entries;
                 }
                 fclose(fp);
-- 
2.43.0


From acde87412d07ea808181ee0d662b4683a8d96943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 070/104] fix: sim86: STOS repeats with either repeat prefix

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 8f89b8f..f1821d7 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1032,7 +1032,7 @@ int main(int argc, char** argv)
             case 0xAA:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSB");
                         iter = TRIM(reg[R_CX]);
                         reg[R_CX] = 0;
@@ -1048,7 +1048,7 @@ int main(int argc, char** argv)
             case 0xAB:
                 {
                     int iter = 1;
-                    if (rep == 0xF3) {
+                    if (rep) {
                         if (verbose) sprintf(insttext, "REP STOSW");
                         iter = TRIM(reg[R_CX]);
                         reg[R_CX] = 0;
-- 
2.43.0


From 2825af23cb8769321abf49e5fe3a9a3d8b894ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 071/104] fix: sim86: accept programs larger than 32767 bytes
 in the DOS build

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index f1821d7..fe043fd 100644
--- a/sim86.c
+++ b/sim86.c
@@ -463,7 +463,7 @@ void ReadFile(const char* Filename)
         Fatal("Error opening file");
     }
     const int size = ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
-    if (size < 0) {
+    if (size == -1) { // Not negative: More than 32767 bytes with 16-bit ints
         Fatal("Error reading file");
     }
 #ifdef PROFILING
-- 
2.43.0


From 391b4b46112c81b2884b762e13f30cc8d62d0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 072/104] fix: lib.h: allow characters above 127 in arguments

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index c243f45..477b20c 100644
--- a/lib.h
+++ b/lib.h
@@ -131,12 +131,12 @@ int ParseArgs()
     Args[0] = "???";
     int NumArgs = 1;
     for (;;) {
-        while (*CmdLine && *CmdLine <= ' ')
+        while (*CmdLine && (*CmdLine & 0xff) <= ' ')
             ++CmdLine;
         if (!*CmdLine)
             break;
         Args[NumArgs++] = CmdLine;
-        while (*CmdLine && *CmdLine > ' ')
+        while ((*CmdLine & 0xff) > ' ')
             ++CmdLine;
         if (!*CmdLine)
             break;
-- 
2.43.0


From 9fea36c84bec7502b251dc8244f50416ca594dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 073/104] fix: lib.h: room for all arguments

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index 477b20c..f732464 100644
--- a/lib.h
+++ b/lib.h
@@ -120,7 +120,7 @@ int write(int fd, const char* buf, int count)
     return ax;
 }
 
-enum { _ARGV = 0x5C }; // Overwrite unopened FCBs
+char* _ARGV[66]; // The command tail has room for 64 arguments
 
 int ParseArgs()
 {
-- 
2.43.0


From d2d03903e9f8bb8d2325a7f139d22a50bab784bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 074/104] fix: sim86: reads and writes of more than 32767 bytes
 in the DOS build

---
 sim86.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index fe043fd..a9286a1 100644
--- a/sim86.c
+++ b/sim86.c
@@ -99,9 +99,11 @@ struct Stack max_stack;
 #ifdef __SCC__
 #define TRIM(x) x
 #define SEXT(x) ((int)(x))
+#define IOERR(x) 0 // read/write return 0 on error (and counts can be negative)
 #else
 #define TRIM(x) ((x)&0xffff)
 #define SEXT(x) ((short)(x))
+#define IOERR(x) ((x)<0)
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -463,7 +465,7 @@ void ReadFile(const char* Filename)
         Fatal("Error opening file");
     }
     const int size = ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
-    if (size == -1) { // Not negative: More than 32767 bytes with 16-bit ints
+    if (IOERR(size)) {
         Fatal("Error reading file");
     }
 #ifdef PROFILING
@@ -717,7 +719,7 @@ void INT(void)
         flags &= ~FC;
     } else if (func == 0x3F) {
         int r = ReadToMem(TRIM(reg[R_BX]), reg[R_DX], reg[R_CX]);
-        if (r < 0) {
+        if (IOERR(r)) {
             flags |= FC;
             r = 6; // Invalid handle
         } else {
@@ -726,7 +728,7 @@ void INT(void)
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], reg[R_CX]);
-        if (r < 0) {
+        if (IOERR(r)) {
             flags |= FC;
             r = 6; // Invalid handle
         } else {
-- 
2.43.0


From dbfdb16b9d595531a6d4f8e7301c3ef33ce8fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 075/104] fix: scpp: splice lines anywhere, comments as white
 space, keep NUL/non-ASCII/unknown characters, # only at line start

---
 scpp.c | 121 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 69 insertions(+), 52 deletions(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..b5127a2 100644
--- a/scpp.c
+++ b/scpp.c
@@ -356,6 +356,7 @@ struct File {
     int FD;
     char* BufPtr;
     int BufSize;
+    int Held; // Characters held back at the end of the last read (start of a possible line continuation)
     int OldLine;
     char LastChar;
     char Buf[FILE_BUF_SIZE];
@@ -454,21 +455,57 @@ void CloseFile(void)
     close(Files[NumFiles].FD);
 }
 
+// Read next part of the current file and mark line continuations
+void FillBuf(void)
+{
+    struct File* F = CurFile;
+    char* B = F->Buf;
+    int Size = 0;
+    while (!Size) {
+        Size = F->Held;
+        if (Size) B[0] = '\\';
+        if (Size > 1) B[1] = '\r';
+        F->Held = 0;
+        const int Count = read(F->FD, B+Size, sizeof(F->Buf)-1-Size);
+        if (Count <= 0)
+            break;
+        Size += Count;
+        if (B[Size-1] == '\\')
+            F->Held = 1;
+        else if (B[Size-1] == '\r' && Size > 1 && B[Size-2] == '\\')
+            F->Held = 2;
+        Size -= F->Held;
+    }
+    B[Size] = 0;
+    F->BufSize = Size;
+    char* End = B + Size;
+    for (; B != End; ++B) {
+        if (*B == '\\') {
+            if (B[1] == '\n' || (B[1] == '\r' && B[2] == '\n')) *B = 0;
+        } else if (!*B) {
+            *B = ' ';
+        }
+    }
+}
+
 void ReadChar(void)
 {
     if (CurrentChar == '\n') ++Line;
-    if ((CurrentChar = *CurFileBuf++))
-        return;
-
-    CurFileBuf = CurFile->Buf;
-    CurFile->BufSize = read(CurFile->FD, CurFile->Buf, sizeof(CurFile->Buf)-1);
-    if (CurFile->BufSize <= 0) {
-        CurFile->BufSize = 0;
-        CurrentChar = 0;
-    } else {
-        CurrentChar = *CurFileBuf++;
+    for (;;) {
+        if ((CurrentChar = *CurFileBuf++))
+            return;
+        if (CurFileBuf > CurFile->Buf + CurFile->BufSize) {
+            CurFileBuf = CurFile->Buf;
+            FillBuf();
+            if (!CurFile->BufSize)
+                return;
+        } else {
+            // Line continuation (the backslash has been replaced with a NUL)
+            if (*CurFileBuf == '\r') ++CurFileBuf;
+            ++CurFileBuf;
+            ++Line;
+        }
     }
-    CurFile->Buf[CurFile->BufSize] = 0;
 }
 
 void ReadToTokenData(void)
@@ -644,28 +681,19 @@ Restart:
         } else if (CurrentChar == '*') {
             ReadChar();
             int star = 0;
-            while (CurrentChar && (!star || CurrentChar != '/')) {
+            while (!star || CurrentChar != '/') {
+                assert(CurrentChar); // Unterminated comment
                 star = CurrentChar == '*';
                 ReadChar();
             }
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE;
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = '/';
         goto Out;
-    case '\\':
-        CurTok.Type = CurrentChar;
-        ReadToTokenData();
-        if (CurrentChar == '\r') {
-            ReadChar();
-            assert(CurrentChar == '\n');
-        }
-        if (CurrentChar != '\n')
-            goto Out;
-        ReadChar();
-        goto Restart;
     case '"':
     case '\'':
         {
@@ -699,12 +727,12 @@ Restart:
         goto Identifier;
     }
 
-    if (CurrentChar <= ' ') {
+    if ((unsigned char)CurrentChar <= ' ') {
         CurTok.Type = TOK_WHITESPACE;
         ReadChar();
         if (!CurrentChar)
             return;
-        while (CurrentChar <= ' ' && CurrentChar != '\n') {
+        while ((unsigned char)CurrentChar <= ' ' && CurrentChar != '\n') {
             if ((CurrentChar = *CurFileBuf++))
                 continue;
             --CurFileBuf;
@@ -722,6 +750,7 @@ Restart:
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
             while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
+                assert(TokenDataPos < TOKEN_DATA_MAX);
                 TokenData[TokenDataPos++] = CurrentChar;
                 if ((CurrentChar = *CurFileBuf++))
                     continue;
@@ -730,11 +759,12 @@ Restart:
             }
             goto Out;
         }
-    } else if ((CurrentChar&0xDF) <= 'Z') {
+    } else if ((CurrentChar&0xDF) >= 'A' && (CurrentChar&0xDF) <= 'Z') {
 Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
+            assert(TokenDataPos < TOKEN_DATA_MAX);
             CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
             if (!(CurrentChar = *CurFileBuf++)) {
                 --CurFileBuf;
@@ -768,28 +798,9 @@ Identifier:
     case '|':
         TryExtendOp('|', TOK_OROR);
         break;
-    case '*':
-    case '/':
-    case '%':
-    case '+':
-    case '-':
-    case '^':
-    case '(':
-    case ')':
-    case '?':
-    case ':':
-    case ',':
-    case ';':
-    case '{':
-    case '}':
-    case '[':
-    case ']':
-    case '.':
-    case '~':
-        break;
     default:
-        printf("Unknown token type %c (%02X)\n", CurTok.Type, CurTok.Type);
-        assert(0);
+        if (CurTok.Type < ' ')
+            CurTok.Type = TOK_CREATED_OP; // Not ASCII
     }
 Out:
     assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -1498,9 +1509,11 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
-            StartOfLine = 1;
             Active = CondActive();
+            if (Active)
+                GetToken();
+            else
+                RawGetToken();
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
@@ -1518,13 +1531,16 @@ void PPMain(void)
         }
 
         if (!Active) {
-            GetToken();
+            if (CurTok.Type != TOK_WHITESPACE)
+                StartOfLine = CurTok.Type == TOK_NEWLINE;
+            RawGetToken();
             continue;
         }
 
         switch (CurTok.Type) {
         case TOK_WHITESPACE:
-            WS |= WS_NORMAL;
+            if (!StartOfLine)
+                WS |= WS_NORMAL;
             GetToken();
             continue;
         case TOK_NEWLINE:
@@ -1533,6 +1549,7 @@ void PPMain(void)
             GetToken();
             continue;
         }
+        StartOfLine = 0;
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
-- 
2.43.0


From 5cbe2fbae4b9f8ab3da3508b347777087c32c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 076/104] fix: scpp: conditional expressions follow C
 (operators, associativity, unevaluated operands), skipped groups are not
 evaluated, unbalanced conditionals are rejected

---
 scpp.c | 172 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 116 insertions(+), 56 deletions(-)

diff --git a/scpp.c b/scpp.c
index b5127a2..fb2fc1b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -327,6 +327,8 @@ enum {
     TOK_NOTEQ,
     TOK_ANDAND,
     TOK_OROR,
+    TOK_LSH,
+    TOK_RSH,
 
     TOK_RAW_ID   = 256, // Hasn't been looked up
     // Keywords
@@ -425,6 +427,7 @@ enum {
     COND_TRUE,        // In active block
     COND_FALSE,       // In inactive block
     COND_DONE,        // Done, waiting for #endif
+    COND_ELSE = 4,    // Flag: #else has been seen
 };
 char CondState[COND_MAX];
 int CondCount;
@@ -787,10 +790,10 @@ Identifier:
         TryExtendOp('=', TOK_NOTEQ);
         break;
     case '<':
-        TryExtendOp('=', TOK_LTEQ);
+        if (!TryExtendOp('=', TOK_LTEQ)) TryExtendOp('<', TOK_LSH);
         break;
     case '>':
-        TryExtendOp('=', TOK_GTEQ);
+        if (!TryExtendOp('=', TOK_GTEQ)) TryExtendOp('>', TOK_RSH);
         break;
     case '&':
         TryExtendOp('&', TOK_ANDAND);
@@ -1212,6 +1215,8 @@ int IsDefined(int Tok)
 
 int EvalExpr(void);
 
+int Unevaluated; // Non-zero inside an operand whose value isn't used
+
 int EvalUnary(void)
 {
     int n = 0;
@@ -1229,19 +1234,42 @@ int EvalUnary(void)
         }
         int ch;
         while ((ch = *s++)) {
-            n *= base;
             if (ch >= '0' && ch <= '9')
-                n += ch - '0';
-            else {
-                n += (ch & 0xdf) - ('A' - 10);
+                ch -= '0';
+            else if ((ch & 0xdf) >= 'A')
+                ch = (ch & 0xdf) - ('A' - 10);
+            if (ch >= base) {
+                // Only U and L suffixes allowed
+                --s;
+                while ((*s & 0xdf) == 'U' || (*s & 0xdf) == 'L') ++s;
+                assert(!*s);
+                break;
             }
+            n = n * base + ch;
         }
         GetToken();
         return n;
-    } else if (CurTok.Type == TOK_RAW_ID) {
+    } else if (CurTok.Type == TOK_CHARLIT) {
+        const char* c = CurTok.Text;
+        n = *c++;
+        if (n == '\\') {
+            n = *c++;
+            switch (n) {
+            case 'n': n = '\n'; break;
+            case 'r': n = '\r'; break;
+            case 't': n = '\t'; break;
+            case '0': n = 0; break;
+            case '\\': case '\'': case '"': break;
+            default: assert(0);
+            }
+        } else {
+            assert(n);
+        }
+        assert(!*c);
         GetToken();
-        return 0;
-    } else if (Accept(TOK_DEFINED)) {
+        return n;
+    } else if (CurTok.Type == TOK_DEFINED) {
+        RawGetToken();
         RawSkipWS();
         int Par = 0;
         if (CurTok.Type == '(') {
@@ -1252,19 +1280,27 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
-        if (Par) Expect(')');
+        if (Par) {
+            SkipWS();
+            Expect(')');
+        }
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
+    } else if (Accept('-')) {
+        return -EvalUnary();
+    } else if (Accept('+')) {
+        return EvalUnary();
+    } else if (Accept('~')) {
+        return ~EvalUnary();
     } else if (Accept('(')) {
         n = EvalExpr();
         Expect(')');
         return n;
     }
 
-    if (CurTok.Type >= TOK_USER_ID) {
-        // Undefined macro - evaluate as zero
-        assert(Macros[CurTok.Type - TOK_USER_ID].Hide == 2);
+    if (CurTok.Type >= TOK_RAW_ID) {
+        // Not a macro - evaluate as zero
         GetToken();
         return 0;
     }
@@ -1281,6 +1317,7 @@ int OperatorPrecedence(int Op)
     switch (Op) {
     case '*': case '/': case '%': return 3;
     case '+': case '-': return 4;
+    case TOK_LSH: case TOK_RSH: return 5;
     case '<': case '>': case TOK_LTEQ: case TOK_GTEQ: return 6;
     case TOK_EQEQ: case TOK_NOTEQ: return 7;
     case '&': return 8;
@@ -1298,30 +1335,39 @@ int EvalExpr1(int LHS, int OuterPrec)
     for (;;) {
         SkipWS();
         const int Op = CurTok.Type;
-        if (Op <= ' ' || Op >= TOK_ID)
-            break;
         const int Prec = OperatorPrecedence(Op);
         if (Prec > OuterPrec)
             break;
         GetToken();
+        // Operands that aren't evaluated can't fail
+        const int OldUneval = Unevaluated;
         if (Op == '?') {
-            const int L = EvalExpr1(EvalUnary(), 14);
+            Unevaluated = OldUneval || !LHS;
+            const int L = EvalExpr1(EvalUnary(), 13);
             Expect(':');
-            const int R = EvalExpr1(EvalUnary(), 14);
+            Unevaluated = OldUneval || LHS;
+            const int R = EvalExpr1(EvalUnary(), 13);
+            Unevaluated = OldUneval;
             LHS = LHS ? L : R;
             continue;
         }
+        if (Op == TOK_ANDAND)
+            Unevaluated = OldUneval || !LHS;
+        else if (Op == TOK_OROR)
+            Unevaluated = OldUneval || LHS;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
-            const int LookAheadOp = CurTok.Type;
-            if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
-                break;
-            const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            const int LookAheadPrec = OperatorPrecedence(CurTok.Type);
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        Unevaluated = OldUneval;
+        if ((Op == '/' || Op == '%') && !RHS) {
+            assert(Unevaluated); // Division by zero
+            continue;
+        }
         switch (Op) {
         case '*': LHS *= RHS; break;
         case '/': LHS /= RHS; break;
@@ -1329,7 +1375,9 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
+        case TOK_LSH: LHS <<= RHS; break;
+        case TOK_RSH: LHS >>= RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
@@ -1352,9 +1400,18 @@ int EvalExpr(void)
     return EvalExpr1(EvalUnary(), 15);
 }
 
+// Evaluate expression in #if/#elif (skipping the directive name)
+int EvalCond(void)
+{
+    GetToken();
+    const int n = EvalExpr();
+    assert(CurTok.Type == TOK_NEWLINE || CurTok.Type == TOK_EOF);
+    return n;
+}
+
 int CondActive(void)
 {
-    return !CondCount || CondState[CondCount-1] == COND_TRUE;
+    return !CondCount || (CondState[CondCount-1] & ~COND_ELSE) == COND_TRUE;
 }
 
 void NewCond(int Active)
@@ -1403,12 +1460,14 @@ void HandleInclude(void)
 void HandleDirective(void)
 {
     RawSkipWS();
+    if (CurTok.Type == TOK_EOF)
+        RawGetToken();
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
-    ReplaceId();
+    if (CurTok.Type == TOK_RAW_ID)
+        ReplaceId();
     const int Directive = CurTok.Type;
-    assert(Directive < TOK_USER_ID);
 
     if (Debug) printf("Processing directive %s (CondActive=%d)\n", IdText[Directive-TOK_ID], CondActive());
 
@@ -1429,10 +1488,14 @@ void HandleDirective(void)
             GetToken();
         }
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
-        RawGetToken();
-        RawSkipWS();
-        ReplaceId();
-        NewCond((int)(Directive == TOK_IFNDEF) ^ IsDefined(CurTok.Type));
+        if (CondActive()) {
+            RawGetToken();
+            RawSkipWS();
+            ReplaceId();
+            NewCond((int)(Directive == TOK_IFNDEF) ^ IsDefined(CurTok.Type));
+        } else {
+            NewCond(0);
+        }
         RawGetToken();
     } else if (Directive == TOK_ERROR) {
         if (CondActive()) {
@@ -1441,36 +1504,32 @@ void HandleDirective(void)
         }
     } else if (Directive == TOK_PRAGMA || Directive == TOK_LINE) {
         // Ignore
-    } else if (Directive == TOK_RAW_ID) {
+    } else if (Directive == TOK_IF) {
+        NewCond(CondActive() && EvalCond());
+    } else if (Directive == TOK_ELIF) {
+        assert(CondCount);
+        char* S = &CondState[CondCount-1];
+        assert(!(*S & COND_ELSE));
+        if (*S == COND_TRUE)
+            *S = COND_DONE;
+        else if (*S == COND_FALSE && EvalCond())
+            *S = COND_TRUE;
+    } else if (Directive == TOK_ELSE) {
+        assert(CondCount);
+        char* S = &CondState[CondCount-1];
+        assert(!(*S & COND_ELSE));
+        if (*S == COND_FALSE)
+            *S = COND_TRUE | COND_ELSE;
+        else
+            *S = COND_DONE | COND_ELSE;
+    } else if (Directive == TOK_ENDIF) {
+        assert(CondCount);
+        --CondCount;
+    } else {
         if (CondActive()) {
             printf("Invalid directive '%s'\n", CurTok.Text);
             assert(0);
         }
-    } else {
-        GetToken();
-
-        char* S = CondCount ? &CondState[CondCount-1] : 0;
-        if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
-        } else if (Directive == TOK_ELIF) {
-            assert(S);
-            if (*S == COND_TRUE)
-                *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
-                *S = COND_TRUE;
-        } else if (Directive == TOK_ELSE) {
-            assert(S);
-            if (*S == COND_TRUE)
-                *S = COND_DONE;
-            else if (*S == COND_FALSE)
-                *S = COND_TRUE;
-        } else if (Directive == TOK_ENDIF) {
-            assert(CondCount);
-            --CondCount;
-        } else {
-            assert(Directive >= TOK_ID && Directive < TOK_ID+ID_MAX);
-            printf("TODO: Handle directive '%s'\n", IdText[Directive-TOK_ID]);
-        }
     }
     while (CurTok.Type != TOK_NEWLINE) {
         RawGetToken();
@@ -1521,6 +1580,7 @@ void PPMain(void)
             CloseFile();
             CurFile = &Files[NumFiles-1];
             if (NumFiles == 1) {
+                assert(!CondCount); // Missing #endif
                 return;
             }
             CurrentChar = CurFile->LastChar;
-- 
2.43.0


From fac9145de3a3c5716d99aac2374e6f57ace2ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 077/104] fix: scpp: expand macro arguments before
 substitution, quote literals when stringizing, handle empty arguments of ##,
 keep tokens apart

---
 scpp.c | 791 ++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 469 insertions(+), 322 deletions(-)

diff --git a/scpp.c b/scpp.c
index fb2fc1b..65f279d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -287,11 +287,12 @@ enum {
     ID_MAX          = 32,
     ID_HASH_MAX     = 128,  // Must be power of 2 and larger than ID_MAX
     TOKEN_DATA_MAX  = 2048,
-    MAX_NEST        = 10,   // Maximum nesting of replacments
+    MAX_NEST        = 20,   // Maximum nesting of replacments
     COND_MAX        = 16,
-    TOKEN_LIST_MAX  = 128,
+    TOKEN_LIST_MAX  = 384,
     TOKEN_QUEUE_MAX = 16,
     ARGUMENT_MAX    = 32,
+    ARG_LIST_MAX    = 32,   // Maximum number of arguments in (nested) invocations
     FILES_MAX       = 4,
     FILE_BUF_SIZE   = 512,
     FNAME_MAX       = 64,
@@ -312,12 +313,14 @@ enum {
     TOK_EOF,
     TOK_WHITESPACE,
     TOK_NEWLINE,
+    TOK_EMPTY, // Nothing (marks where tokens from different places meet)
     TOK_NUM,
     TOK_CHARLIT,
     TOK_STRLIT,
     TOK_INVALID_LIT, // Unterminated string literal
 
-    TOK_ARG, // Text points to arguments
+    TOK_ARG, // Text points to argument
+    TOK_STRINGIFY, // Text points to argument
 
     TOK_CREATED_OP = 128,
     TOK_HASHHASH,
@@ -373,6 +376,7 @@ const char* CurFileBuf;
 char TokenData[TOKEN_DATA_MAX];
 int TokenDataPos;
 int NextTokenDataPos; // Bump this to avoid the current token being overwritten
+int SavedTokenDataPos; // End of the part that is never released
 
 const char* IdText[ID_MAX];
 unsigned IdHash[ID_HASH_MAX];
@@ -403,7 +407,6 @@ struct TokenList* NextFreeTokenList;
 struct Argument {
     int Id;
     struct Argument* Next;
-    struct TokenList* Replacement;
 };
 struct Argument Argument[ARGUMENT_MAX];
 int ArgumentCount;
@@ -413,16 +416,21 @@ struct Macro {
     struct TokenList* Replacement;
     char Hide; // 0=Not hidden, 1=Hidden while being expanded, 2=Undefined
 };
-enum { MACRO_MAX = ID_MAX-(TOK_USER_ID-TOK_ID) };
-struct Macro Macros[MACRO_MAX];
+struct Macro Macros[ID_MAX];
 
 struct ReplaceStackElem {
-    struct Macro* M;
+    struct Macro* M; // 0 if this is an argument being expanded (TOK_EOF is returned at the end of it)
+    struct TokenList* List;
     struct TokenList* TL;
-    int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
 
+// Arguments of the invocations currently being processed
+struct TokenList* ArgLists[ARG_LIST_MAX];
+int ArgListCount;
+int Expanding;
+int InDirective;
+
 enum {
     COND_TRUE,        // In active block
     COND_FALSE,       // In inactive block
@@ -560,98 +568,42 @@ struct TokenList* SkipWsNL(struct TokenList* TL)
 {
     while (TL) {
         const int T = TL->Tok.Type;
-        if (T != TOK_WHITESPACE && T != TOK_NEWLINE)
+        if (T != TOK_WHITESPACE && T != TOK_NEWLINE && T != TOK_EMPTY)
             break;
         TL = TL->Next;
     }
     return TL;
 }
 
-void FreeArgs(struct Argument* Args)
-{
-    if (Args == (struct Argument*)1)
-        return;
-    while (Args) {
-        FreeTokenList(Args->Replacement);
-        Args->Replacement = 0;
-        Args = Args->Next;
-    }
-}
-
 void TokenQueuePush(struct Token* Tok)
 {
     assert(TokenQueueTail - TokenQueueHead < TOKEN_QUEUE_MAX);
     TokenQueue[TokenQueueTail++ % TOKEN_QUEUE_MAX] = *Tok;
 }
 
-struct Token* SimpleExpand(struct Token* Tok)
-{
-    while (Tok->Type == TOK_ARG) {
-        const struct Argument* A = (const struct Argument*)Tok->Text;
-        if (!A->Replacement)
-            return 0;
-        assert(!A->Replacement->Next);
-        Tok = &A->Replacement->Tok;
-    }
-    return Tok;
-}
-
 void PrintToken(const struct Token* T);
 
-void PasteAppend(struct Token* Tok)
-{
-    CurTok = *SimpleExpand(&CurTok);
-    Tok = SimpleExpand(Tok);
-    if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
-    const char* T2 = Tok ? Tok->Text : "";
-    const int l1 = (int)strlen(CurTok.Text);
-    const int l2 = (int)strlen(T2) + 1;
-    assert(TokenDataPos+l1+l2 < TOKEN_DATA_MAX);
-    memcpy(&TokenData[TokenDataPos], CurTok.Text, l1);
-    memcpy(&TokenData[TokenDataPos+l1], T2, l2);
-    CurTok.Text = &TokenData[TokenDataPos];
-    TokenDataPos+=l1+l2;
-    if (CurTok.Type > ' ' && CurTok.Type < TOK_RAW_ID) {
-        CurTok.Type = TOK_CREATED_OP;
-    }
-    if (Debug) { printf(" --> "); PrintToken(&CurTok); printf("\n"); }
-}
-
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
 
 void RawGetToken(void)
 {
     while (ReplaceNest) {
         struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
-        assert(!RS->M || RS->M->Hide == 1);
         if (RS->TL) {
             CurTok = RS->TL->Tok;
             RS->TL = RS->TL->Next;
-
-            // Look for paste operation
-            struct TokenList* TL = SkipWsNL(RS->TL);
-            while (TL && TL->Tok.Type == TOK_HASHHASH) {
-                TL = SkipWsNL(TL->Next);
-                assert(TL);
-                PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
-            }
-
             CurHash = ID_HASH_MAX;
             if (Debug) { printf("Returning from replacement list: ");PrintToken(&CurTok);printf("\n"); }
             return;
         }
-        if (RS->M) {
-            RS->M->Hide = 0;
-            FreeArgs(RS->M->Arguments);
-        }
         --ReplaceNest;
-        if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
-        if (RS->Stop) {
+        if (Debug) printf("Popped replacement list\n");
+        if (!RS->M) {
             CurTok.Type = TOK_EOF;
             return;
         }
+        RS->M->Hide = 0;
+        FreeTokenList(RS->List);
     }
 
     if (TokenQueueHead != TokenQueueTail) {
@@ -660,6 +612,9 @@ void RawGetToken(void)
         return;
     }
 
+    if (!Expanding)
+        NextTokenDataPos = SavedTokenDataPos;
+
 Restart:
     TokenDataPos = NextTokenDataPos;
     CurTok.Text = TokenData + TokenDataPos;
@@ -817,6 +772,7 @@ const char* TokenTypeText(int Type)
     case TOK_EOF:        return "EOF";
     case TOK_WHITESPACE: return "WS";
     case TOK_NEWLINE:    return "NL";
+    case TOK_EMPTY:      return "EMPTY";
     case TOK_NUM:        return "NUM";
     case TOK_CHARLIT:    return "CHARLIT";
     case TOK_STRLIT:     return "STRLIT";
@@ -830,9 +786,9 @@ const char* TokenTypeText(int Type)
 void PrintToken(const struct Token* T)
 {
     printf("%s ", TokenTypeText(T->Type));
-    if (T->Type == TOK_ARG)
+    if (T->Type == TOK_ARG || T->Type == TOK_STRINGIFY)
         printf("for %s ", IdText[((struct Argument*)T->Text)->Id - TOK_ID]);
-    else if (T->Type != TOK_EOF && T->Type != TOK_WHITESPACE && T->Type != TOK_NEWLINE)
+    else if (T->Type != TOK_EOF && T->Type != TOK_WHITESPACE && T->Type != TOK_NEWLINE && T->Type != TOK_EMPTY)
         printf("'%s' ", T->Text);
 }
 
@@ -847,6 +803,7 @@ int AddId(const char* Text)
     while (IdHash[H &= ID_HASH_MAX-1] < ID_MAX)
         ++H;
     IdHash[H] = Id;
+    Macros[Id].Hide = 2;
     return Id;
 }
 
@@ -876,316 +833,454 @@ void ReplaceId(void)
 
 void RawSkipWS(void)
 {
-    while (CurTok.Type == TOK_WHITESPACE)
+    while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_EMPTY)
         RawGetToken();
 }
 
-void Stringify(struct TokenList* TL);
+void PushReplacement(struct Macro* M, struct TokenList* List)
+{
+    assert(ReplaceNest < MAX_NEST);
+    struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest++];
+    RS->M    = M;
+    RS->List = List;
+    RS->TL   = List;
+}
 
-void PushHandleArg(struct Argument* A)
+// Returns non-zero if the next token (which is left unread) is a left parenthesis
+int NextIsLParen(void)
 {
-    if (Debug) {
-        printf("Handling arg %s\n", IdText[A->Id-TOK_ID]);
+    struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest];
+    while (RS != ReplaceStack) {
+        --RS;
+        const struct TokenList* TL = SkipWsNL(RS->TL);
+        if (TL)
+            return TL->Tok.Type == '(';
+        if (!RS->M)
+            return 0; // The argument ends here
     }
-    assert(ReplaceNest < MAX_NEST);
-    ReplaceStack[ReplaceNest].M  = 0;
-    ReplaceStack[ReplaceNest].TL = A->Replacement;
-    ReplaceStack[ReplaceNest].Stop = 0;
-    ++ReplaceNest;
-}
-
-struct Argument* GetArg(int Id)
-{
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
-            }
-        }
+
+    struct Token WS;
+    WS.Type = TOK_EMPTY;
+    ++Expanding;
+    for (;;) {
+        RawGetToken();
+        if (CurTok.Type != TOK_WHITESPACE && CurTok.Type != TOK_EMPTY
+            && (CurTok.Type != TOK_NEWLINE || InDirective))
+            break;
+        if (WS.Type != TOK_NEWLINE && CurTok.Type != TOK_EMPTY)
+            WS.Type = CurTok.Type;
     }
-    return 0;
+    --Expanding;
+    if (WS.Type != TOK_EMPTY)
+        TokenQueuePush(&WS);
+    TokenQueuePush(&CurTok);
+    return CurTok.Type == '(';
 }
 
-void GetToken(void)
+void AddTokenData(int Ch)
 {
-    for (;;) {
+    assert(TokenDataPos < TOKEN_DATA_MAX);
+    TokenData[TokenDataPos++] = Ch;
+}
+
+void AddTokenDataStr(const char* S)
+{
+    while (*S) AddTokenData(*S++);
+}
+
+struct TokenList** AddSpace(struct TokenList** L, int Type)
+{
+    struct Token T;
+    T.Type = Type;
+    T.Text = "";
+    return AddToken(L, &T);
+}
+
+void CollectArgs(struct Argument* A)
+{
+    do {
         RawGetToken();
+    } while (CurTok.Type != '(');
 
-        switch (CurTok.Type) {
-        case TOK_RAW_ID:
-            break;
-        case '#':
-            if (!ReplaceNest)
-                return;
-            if (Debug) printf("Stringify!\n");
+    if (A == (struct Argument*)1) {
+        do {
             RawGetToken();
-            RawSkipWS();
-            assert(CurTok.Type == TOK_ARG);
-            Stringify(((struct Argument*)CurTok.Text)->Replacement);
-            return;
-        case TOK_ARG:
-            PushHandleArg((struct Argument*)CurTok.Text);
-            continue;
-        default:
-            return;
+        } while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_EMPTY || (CurTok.Type == TOK_NEWLINE && !InDirective));
+        assert(CurTok.Type == ')');
+        return;
+    }
+
+    while (A) {
+        assert(ArgListCount < ARG_LIST_MAX);
+        struct TokenList** L = &ArgLists[ArgListCount++];
+        *L = 0;
+        int Nest = 0;
+        int PendWS = -1; // -1=At start, otherwise type of pending whitespace
+        for (;;) {
+            RawGetToken();
+            assert(CurTok.Type); // Unterminated argument list
+            if (CurTok.Type <= TOK_EMPTY) {
+                assert(CurTok.Type != TOK_NEWLINE || !InDirective);
+                if (PendWS == 0 || (PendWS > 0 && CurTok.Type != TOK_EMPTY))
+                    PendWS = CurTok.Type;
+                continue;
+            }
+            if (CurTok.Type == '(') {
+                ++Nest;
+            } else if (CurTok.Type == ')') {
+                if (!Nest--) break;
+            } else if (CurTok.Type == ',') {
+                if (!Nest) break;
+            } else if (CurTok.Type == '#' || CurTok.Type == TOK_HASHHASH) {
+                CurTok.Type = TOK_CREATED_OP; // Not an operator here
+            }
+            assert(CurTok.Type != TOK_INVALID_LIT);
+            if (PendWS > 0)
+                L = AddSpace(L, PendWS == TOK_NEWLINE ? TOK_WHITESPACE : PendWS);
+            PendWS = 0;
+            L = AddToken(L, &CurTok);
+            assert(TokenDataPos >= NextTokenDataPos);
+            NextTokenDataPos = TokenDataPos; // Preserve the token data
         }
+        A = A->Next;
+        assert(CurTok.Type == (A ? ',' : ')'));
+    }
+}
 
-        ReplaceId();
-        if (CurTok.Type < TOK_USER_ID) {
-            if (CurTok.Type > TOK_DEFINED) {
-                if (Debug) printf("Special token! %s\n", CurTok.Text);
-                if (CurTok.Type == TOK___LINE__) {
-                    char* T = &TokenData[NextTokenDataPos];
-                    sprintf(T, "%d", Line);
-                    NextTokenDataPos += (int)strlen(T) + 1;
-                    CurTok.Text = T;
-                    CurTok.Type = TOK_NUM;
-                } else if (CurTok.Type == TOK___FILE__) {
-                    CurTok.Text = CurFile->Filename;
-                    CurTok.Type = TOK_STRLIT;
-                } else {
-                    CurTok.Text = "1";
-                    CurTok.Type = TOK_NUM;
-                }
+// Turn the tokens in TL into a string literal
+void Stringify(struct Token* Tok, const struct TokenList* TL)
+{
+    Tok->Type = TOK_STRLIT;
+    Tok->Text = &TokenData[TokenDataPos];
+    for (; TL; TL = TL->Next) {
+        const int T = TL->Tok.Type;
+        if (T <= TOK_EMPTY) {
+            if (T != TOK_EMPTY)
+                AddTokenData(' ');
+            continue;
+        }
+        const char* S = TL->Tok.Text;
+        if (T == TOK_STRLIT || T == TOK_CHARLIT) {
+            const char* Quote = T == TOK_STRLIT ? "\\\"" : "'";
+            AddTokenDataStr(Quote);
+            while (*S) {
+                if (*S == '"' || *S == '\\')
+                    AddTokenData('\\');
+                AddTokenData(*S++);
             }
-            return;
+            AddTokenDataStr(Quote);
+        } else {
+            AddTokenDataStr(S);
         }
-        const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
+    }
+    AddTokenData(0);
+    NextTokenDataPos = TokenDataPos;
+}
+
+void PasteTokens(struct Token* L, struct Token* R)
+{
+    if (Debug) { printf("Paste "); PrintToken(R); printf(" to "); PrintToken(L); printf("\n"); }
+    if (R->Type == TOK_EMPTY)
+        return;
+    if (L->Type == TOK_EMPTY) {
+        *L = *R;
+        return;
+    }
+    assert(L->Type != TOK_STRLIT && L->Type != TOK_CHARLIT && R->Type != TOK_STRLIT && R->Type != TOK_CHARLIT);
+    const char* Text = &TokenData[TokenDataPos];
+    AddTokenDataStr(L->Text);
+    AddTokenDataStr(R->Text);
+    AddTokenData(0);
+    NextTokenDataPos = TokenDataPos;
+    L->Text = Text;
+    if (L->Type >= TOK_RAW_ID)
+        L->Type = TOK_RAW_ID;
+    else if (L->Type != TOK_NUM)
+        L->Type = TOK_CREATED_OP;
+}
+
+void GetToken(void);
+
+// Add the completely macro replaced argument
+struct TokenList** AddExpanded(struct TokenList** L, struct TokenList* Arg)
+{
+    PushReplacement(0, Arg);
+    for (;;) {
+        GetToken();
+        if (CurTok.Type == TOK_EOF)
+            return L;
+        L = AddToken(L, &CurTok);
+    }
+}
+
+void ExpandMacro(struct Macro* M)
+{
+    const int ArgBase = ArgListCount;
+    ++Expanding;
+    if (M->Arguments)
+        CollectArgs(M->Arguments);
+
+    struct TokenList* Result;
+    struct TokenList** L = AddSpace(&Result, TOK_EMPTY);
+    struct TokenList* Last = Result;
+    struct TokenList* TL = M->Replacement;
+    int Paste = 0;
+    while (TL) {
+        struct Token Tok;
+        Tok = TL->Tok;
+        TL = TL->Next;
+        if (Tok.Type == TOK_HASHHASH) {
+            Paste = 1;
             continue;
         }
-        struct Macro* M = &Macros[Id - TOK_USER_ID];
-        if (M->Hide)
-            return;
-        if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
-        if (M->Arguments) {
-            RawGetToken();
-            int WS = CurTok.Type;
-            RawSkipWS();
-            if (CurTok.Type != '(') {
-                // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
-                    struct Token WSToken;
-                    WSToken.Type = WS;
-                    TokenQueuePush(&WSToken);
-                }
-                TokenQueuePush(&CurTok);
-                CurTok.Type = Id;
-                CurTok.Text = IdText[Id - TOK_ID];
-                return;
+        struct TokenList* Arg = 0;
+        int IsArg = 0;
+        if (Tok.Type == TOK_ARG || Tok.Type == TOK_STRINGIFY) {
+            struct TokenList** AL = &ArgLists[ArgBase];
+            struct Argument* A = M->Arguments;
+            while ((char*)A != Tok.Text) {
+                A = A->Next;
+                ++AL;
             }
-            RawGetToken();
-            RawSkipWS();
-            if (CurTok.Type != ')') {
-                assert(M->Arguments != (struct Argument*)1);
-                A = M->Arguments;
-                while (A) {
-                    struct TokenList** ArgL = &A->Replacement;
-                    int Nest = 0;
-                    int PendWS = -1;
-                    for (;; RawGetToken()) {
-                        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-                            if (PendWS == 0) PendWS = 1;
-                            continue;
-                        }
-                        if (CurTok.Type == '(')
-                            ++Nest;
-                        else if (CurTok.Type == ')' && !Nest--)
-                            break;
-                        else if (!CurTok.Type || (!Nest && CurTok.Type == ','))
-                            break;
-                        if (PendWS == 1) {
-                            struct Token WSTok;
-                            WSTok.Type = TOK_WHITESPACE;
-                            ArgL = AddToken(ArgL, &WSTok);
-                        }
-                        PendWS = 0;
-                        ArgL = AddToken(ArgL, &CurTok);
-                        assert(TokenDataPos >= NextTokenDataPos);
-                        NextTokenDataPos = TokenDataPos; // Preserve the token data
-                    }
-                    *ArgL = 0;
-                    A = A->Next;
-                    if (CurTok.Type != ',')
-                        break;
-                    RawGetToken();
+            Arg = *AL;
+            if (Tok.Type == TOK_STRINGIFY) {
+                Stringify(&Tok, Arg);
+                Arg = 0;
+            } else {
+                IsArg = 1;
+                if (!Paste)
+                    L = AddSpace(L, TOK_EMPTY);
+                if (!Paste && !(TL && TL->Tok.Type == TOK_HASHHASH)) {
+                    L = AddSpace(AddExpanded(L, Arg), TOK_EMPTY);
+                    continue;
+                }
+                if (Arg) {
+                    Tok = Arg->Tok;
+                    Arg = Arg->Next;
+                } else {
+                    Tok.Type = TOK_EMPTY;
+                    Tok.Text = "";
                 }
-                assert(!A && CurTok.Type == ')');
             }
         }
-        if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
-        if (M->Replacement) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = M;
-            ReplaceStack[ReplaceNest].TL = M->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            M->Hide = 1;
-            ++ReplaceNest;
-        } else {
-            FreeArgs(M->Arguments);
+        for (;;) {
+            if (Paste) {
+                PasteTokens(&Last->Tok, &Tok);
+                Paste = 0;
+            } else {
+                struct TokenList** Pos = L;
+                L = AddToken(L, &Tok);
+                Last = *Pos;
+            }
+            if (!Arg)
+                break;
+            Tok = Arg->Tok;
+            Arg = Arg->Next;
         }
+        if (IsArg && !(TL && TL->Tok.Type == TOK_HASHHASH))
+            L = AddSpace(L, TOK_EMPTY);
     }
-}
+    AddSpace(L, TOK_EMPTY);
 
-char StrBuf[256]; // HACK HACK
+    while (ArgListCount != ArgBase)
+        FreeTokenList(ArgLists[--ArgListCount]);
+    PushReplacement(M, Result);
+    M->Hide = 1;
+    --Expanding;
+}
 
-void Stringify(struct TokenList* TL)
+void GetToken(void)
 {
-    int StrPos = 0;
-    int PendWS = 0;
-    int FromS = 0;
-    while (TL || FromS) {
-        if (!FromS) {
-            CurTok = TL->Tok;
-            TL = TL->Next;
-        } else {
-            GetToken();
-            if (CurTok.Type == TOK_EOF) {
-                --FromS;
-                if (Debug) printf("Hit stop: FromS=%d\n", FromS);
-                continue;
+    for (;;) {
+        RawGetToken();
+        if (CurTok.Type != TOK_RAW_ID)
+            return;
+
+        ReplaceId();
+        const int Id = CurTok.Type;
+        if (Id == TOK_RAW_ID)
+            return;
+        if (Id > TOK_DEFINED && Id < TOK_USER_ID) {
+            if (Debug) printf("Special token! %s\n", CurTok.Text);
+            if (Id == TOK___LINE__) {
+                char* T = &TokenData[NextTokenDataPos];
+                assert(NextTokenDataPos < TOKEN_DATA_MAX - 12);
+                sprintf(T, "%d", Line);
+                NextTokenDataPos += (int)strlen(T) + 1;
+                TokenDataPos = NextTokenDataPos;
+                CurTok.Text = T;
+                CurTok.Type = TOK_NUM;
+            } else if (Id == TOK___FILE__) {
+                CurTok.Text = CurFile->Filename;
+                CurTok.Type = TOK_STRLIT;
+            } else {
+                CurTok.Text = "1";
+                CurTok.Type = TOK_NUM;
             }
+            return;
         }
-        if (CurTok.Type == TOK_ARG) {
-            ++FromS;
-            if (Debug) printf("Switching to arg list FromS=%d\n", FromS);
-            PushHandleArg((struct Argument*)CurTok.Text);
-            ReplaceStack[ReplaceNest-1].Stop = 1;
-            continue;
+        struct Macro* M = &Macros[Id - TOK_ID];
+        if (M->Hide)
+            return;
+        if (M->Arguments && !NextIsLParen()) {
+            CurTok.Type = TOK_RAW_ID;
+            CurTok.Text = IdText[Id - TOK_ID];
+            return;
         }
+        if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
+        ExpandMacro(M);
+    }
+}
 
-        if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
-        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-            PendWS = 1;
-        } else {
-            if (PendWS) {
-                assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
-                PendWS = 0;
-            }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+int SameMacro(const struct Macro* M1, const struct Macro* M2)
+{
+    const struct Argument* A1 = M1->Arguments;
+    const struct Argument* A2 = M2->Arguments;
+    while (A1 != A2) {
+        if (!A1 || !A2 || A1 == (struct Argument*)1 || A2 == (struct Argument*)1 || A1->Id != A2->Id)
+            return 0;
+        A1 = A1->Next;
+        A2 = A2->Next;
+    }
+    const struct TokenList* T1 = M1->Replacement;
+    const struct TokenList* T2 = M2->Replacement;
+    for (; T1; T1 = T1->Next) {
+        const int Type = T1->Tok.Type;
+        if (!T2 || Type != T2->Tok.Type)
+            return 0;
+        if (Type == TOK_ARG || Type == TOK_STRINGIFY) {
+            if (((struct Argument*)T1->Tok.Text)->Id != ((struct Argument*)T2->Tok.Text)->Id)
+                return 0;
+        } else if (strcmp(T1->Tok.Text, T2->Tok.Text)) {
+            return 0;
         }
+        T2 = T2->Next;
     }
-    assert(StrPos < (int)sizeof(StrBuf));
-    StrBuf[StrPos] = 0;
+    return !T2;
+}
 
-    CurTok.Type = TOK_STRLIT;
-    CurTok.Text = StrBuf;
+// Never release the token data used so far
+void SaveTokenData(void)
+{
+    NextTokenDataPos = TokenDataPos;
+    SavedTokenDataPos = TokenDataPos;
+}
+
+// Current token must be an identifier, returns its ID (creating it if necessary)
+int GetId(void)
+{
+    if (CurTok.Type == TOK_RAW_ID)
+        ReplaceId();
+    if (CurTok.Type == TOK_RAW_ID) {
+        CurTok.Type = AddId(CurTok.Text) + TOK_ID;
+        SaveTokenData();
+    }
+    assert(CurTok.Type >= TOK_ID);
+    return CurTok.Type;
 }
 
 void HandleDefine(void)
 {
     RawGetToken();
     RawSkipWS();
-    assert(CurTok.Type == TOK_RAW_ID);
-    ReplaceId();
-    int Id = CurTok.Type;
-    struct Macro* M;
-    if (Id >= TOK_USER_ID) {
-        M = &Macros[Id-TOK_USER_ID];
-        if (!M->Hide) {
-            // Macro redifition (must match previous definition)
-            return;
-        }
-        // Macro was previously #undef'ed
-        M->Hide = 0;
-    } else {
-        Id = AddId(CurTok.Text) + TOK_ID;
-        NextTokenDataPos = TokenDataPos;
-        assert(Id - TOK_USER_ID < MACRO_MAX);
-        M = &Macros[Id-TOK_USER_ID];
-    }
+    const int Id = GetId();
+    assert(Id < TOK_DEFINED || Id >= TOK_USER_ID);
+    struct Macro* M = &Macros[Id-TOK_ID];
     if (Debug) printf("Defining macro %s\n", IdText[Id-TOK_ID]);
+    struct Macro New;
+    struct Argument* A;
+    New.Arguments = 0;
+    New.Replacement = 0;
+    New.Hide = 0;
+    const int OldArgumentCount = ArgumentCount;
     RawGetToken();
-    struct Argument** LastArg;
     if (CurTok.Type == '(') { // Function-like macros
-        LastArg = &M->Arguments;
+        struct Argument** LastArg = &New.Arguments;
         RawGetToken();
         RawSkipWS();
-        while (CurTok.Type != ')') {
-            RawSkipWS();
-            assert(CurTok.Type == TOK_RAW_ID);
-            ReplaceId();
-            if (CurTok.Type == TOK_RAW_ID) {
-                CurTok.Type = AddId(CurTok.Text) + TOK_ID;
-                NextTokenDataPos = TokenDataPos;
-                assert(CurTok.Type - TOK_USER_ID < MACRO_MAX);
-                Macros[CurTok.Type-TOK_USER_ID].Hide = 2; // Prented the Id refers to an undefined macro
-            }
-            assert(ArgumentCount < ARGUMENT_MAX);
-            Argument[ArgumentCount].Id = CurTok.Type;
-            *LastArg = &Argument[ArgumentCount];
-            LastArg = &Argument[ArgumentCount].Next;
-            ++ArgumentCount;
-            RawGetToken();
-            RawSkipWS();
-            if (CurTok.Type != ',') {
-                break;
+        if (CurTok.Type != ')') {
+            for (;;) {
+                RawSkipWS();
+                const int ArgId = GetId();
+                for (A = New.Arguments; A; A = A->Next)
+                    assert(A->Id != ArgId);
+                assert(ArgumentCount < ARGUMENT_MAX);
+                A = &Argument[ArgumentCount++];
+                A->Id = ArgId;
+                A->Next = 0;
+                *LastArg = A;
+                LastArg = &A->Next;
+                RawGetToken();
+                RawSkipWS();
+                if (CurTok.Type != ',')
+                    break;
+                RawGetToken();
             }
-            RawGetToken();
+            assert(CurTok.Type == ')');
+        } else {
+            New.Arguments = (struct Argument*)1;
         }
-        *LastArg = 0;
-        assert(CurTok.Type == ')');
         RawGetToken();
-        if (!M->Arguments) M->Arguments = (struct Argument*)1;
     }
     RawSkipWS();
-    struct TokenList** Last = &M->Replacement;
+    struct TokenList** Last = &New.Replacement;
     int PendWS = -1;
+    int Type = TOK_EOF;
     for (; CurTok.Type != TOK_NEWLINE; RawGetToken()) {
         if (CurTok.Type == TOK_WHITESPACE) {
             if (PendWS == 0) PendWS = 1;
             continue;
         }
-        if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
+        if (CurTok.Type == TOK_EOF)
+            continue;
+        Type = CurTok.Type;
+        assert(Type != TOK_INVALID_LIT);
+        if (Type == '#') {
+            if (New.Arguments) {
+                RawGetToken();
+                RawSkipWS();
+            } else {
+                Type = TOK_CREATED_OP;
+            }
+        }
+        if (New.Arguments && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
-                struct Argument* A = M->Arguments;
-                while (A) {
-                    if (A->Id == CurTok.Type) {
-                        CurTok.Type = TOK_ARG;
-                        CurTok.Text = (char*)A;
-                        goto Add;
-                    }
-                    A = A->Next;
-                }
+            A = New.Arguments;
+            if (A == (struct Argument*)1)
+                A = 0;
+            while (A && A->Id != CurTok.Type)
+                A = A->Next;
+            if (A) {
+                Type = Type == '#' ? TOK_STRINGIFY : TOK_ARG;
+                CurTok.Text = (char*)A;
             }
-            CurTok.Type = TOK_RAW_ID;
         }
-Add:
-        if (PendWS == 1) {
-            struct Token WS;
-            WS.Type = TOK_WHITESPACE;
-            Last = AddToken(Last, &WS);
+        assert(Type != '#'); // # must be followed by an argument
+        if (Type == TOK_HASHHASH) {
+            assert(New.Replacement);
+            PendWS = 0;
         }
-        PendWS = 0;
+        if (PendWS == 1)
+            Last = AddSpace(Last, TOK_WHITESPACE);
+        PendWS = Type == TOK_HASHHASH ? -1 : 0;
+        CurTok.Type = Type;
         Last = AddToken(Last, &CurTok);
-        NextTokenDataPos = TokenDataPos; // Preserve the token data
+        SaveTokenData(); // Preserve the token data
+    }
+    assert(Type != TOK_HASHHASH);
+    if (M->Hide == 2) {
+        *M = New;
+    } else {
+        // Redefinition must match previous definition
+        assert(SameMacro(M, &New));
+        FreeTokenList(New.Replacement);
+        ArgumentCount = OldArgumentCount;
     }
-    *Last = 0;
 }
 
 void SkipWS(void)
 {
-    while (CurTok.Type == TOK_WHITESPACE)
+    while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_EMPTY)
         GetToken();
 }
 
@@ -1210,7 +1305,7 @@ void Expect(int T)
 
 int IsDefined(int Tok)
 {
-    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_USER_ID && !Macros[Tok - TOK_USER_ID].Hide);
+    return (Tok > TOK_DEFINED && Tok < TOK_USER_ID) || (Tok >= TOK_ID && Macros[Tok - TOK_ID].Hide != 2);
 }
 
 int EvalExpr(void);
@@ -1277,7 +1372,9 @@ int EvalUnary(void)
             RawGetToken();
             RawSkipWS();
         }
-        ReplaceId();
+        if (CurTok.Type == TOK_RAW_ID)
+            ReplaceId();
+        assert(CurTok.Type >= TOK_RAW_ID);
         n = IsDefined(CurTok.Type);
         GetToken();
         if (Par) {
@@ -1439,9 +1536,9 @@ void HandleInclude(void)
             ReadToTokenData();
         }
         TokenData[TokenDataPos++] = 0;
-        NextTokenDataPos = TokenDataPos;
+        SaveTokenData();
     } else {
-        NextTokenDataPos = TokenDataPos;
+        SaveTokenData();
         Filename = CurTok.Text;
     }
     RawGetToken();
@@ -1465,6 +1562,7 @@ void HandleDirective(void)
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
+    InDirective = 1;
     if (CurTok.Type == TOK_RAW_ID)
         ReplaceId();
     const int Directive = CurTok.Type;
@@ -1480,12 +1578,16 @@ void HandleDirective(void)
             RawGetToken();
             RawSkipWS();
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
+            if (CurTok.Type != TOK_RAW_ID) {
+                assert(CurTok.Type < TOK_DEFINED || CurTok.Type >= TOK_USER_ID);
                 // HACK: Just hide #undef'ed macros
-                Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
-                FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                struct Macro* M = &Macros[CurTok.Type - TOK_ID];
+                if (M->Hide != 2) {
+                    M->Hide = 2;
+                    FreeTokenList(M->Replacement);
+                }
             }
-            GetToken();
+            RawGetToken();
         }
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
         if (CondActive()) {
@@ -1534,6 +1636,7 @@ void HandleDirective(void)
     while (CurTok.Type != TOK_NEWLINE) {
         RawGetToken();
     }
+    InDirective = 0;
 }
 
 void OutputStr(const char* Str)
@@ -1549,6 +1652,38 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+// Returns non-zero if characters C1 and C2 could end up as part of the same token
+int CharsJoin(int C1, int C2)
+{
+    const int Id1 = (IsIdChar[(unsigned char)C1>>3]>>(C1&7)) & 1;
+    const int Id2 = (IsIdChar[(unsigned char)C2>>3]>>(C2&7)) & 1;
+    if (C1 == '.' || C2 == '.')
+        return C1 == C2 || Id1 || Id2;
+    if (Id1)
+        return Id2 || (((C1 & 0xdf) == 'E' || (C1 & 0xdf) == 'P') && (C2 == '+' || C2 == '-'));
+    switch (C1) {
+    case '-':
+        return C2 == '=' || C2 == '-' || C2 == '>';
+    case '/':
+        return C2 == '=' || C2 == '/' || C2 == '*';
+    case '+':
+    case '&':
+    case '|':
+    case '<':
+    case '>':
+    case '=':
+        return C2 == '=' || C2 == C1;
+    case '*':
+    case '%':
+    case '^':
+    case '!':
+        return C2 == '=';
+    case '#':
+        return C2 == '#';
+    }
+    return 0;
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1556,6 +1691,8 @@ void PPMain(void)
 
     enum {WS_NONE,WS_NORMAL,WS_NEWLINE};
     int WS = WS_NONE;
+    int Join = 0; // Non-zero if the next token mustn't be joined with the previous one
+    int LastChar = 0;
     int StartOfLine = 1;
     int Active = 1;
     for (;;) {
@@ -1608,6 +1745,10 @@ void PPMain(void)
             StartOfLine = 1;
             GetToken();
             continue;
+        case TOK_EMPTY:
+            Join = 1;
+            GetToken();
+            continue;
         }
         StartOfLine = 0;
         if (WS) {
@@ -1617,7 +1758,10 @@ void PPMain(void)
                 OutputStr(" ");
             }
             WS = 0;
+        } else if (Join && CurTok.Type != TOK_STRLIT && CurTok.Type != TOK_CHARLIT && CharsJoin(LastChar, *CurTok.Text)) {
+            OutputStr(" ");
         }
+        Join = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
@@ -1626,10 +1770,13 @@ void PPMain(void)
                 OutputStr(S);
                 OutputStr(CurTok.Text);
                 OutputStr(S);
+                LastChar = *S;
             }
             break;
         default:
+            assert(CurTok.Type != TOK_INVALID_LIT); // Unterminated literal
             OutputStr(CurTok.Text);
+            LastChar = CurTok.Text[strlen(CurTok.Text)-1];
         }
         GetToken();
     }
-- 
2.43.0


From 45ae8c3fe7903e3507511602fc4f590713f6f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 078/104] fix: scpp: reject malformed #include, keep lines and
 conditionals of included files apart

---
 scpp.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/scpp.c b/scpp.c
index 65f279d..7ccc354 100644
--- a/scpp.c
+++ b/scpp.c
@@ -363,6 +363,7 @@ struct File {
     int BufSize;
     int Held; // Characters held back at the end of the last read (start of a possible line continuation)
     int OldLine;
+    int CondBase; // Number of open conditionals at the start of the file
     char LastChar;
     char Buf[FILE_BUF_SIZE];
 };
@@ -1533,15 +1534,20 @@ void HandleInclude(void)
         TokenDataPos = NextTokenDataPos;
         Filename = &TokenData[TokenDataPos];
         while (CurrentChar != '>') {
+            assert(CurrentChar && CurrentChar != '\n'); // Unterminated name
             ReadToTokenData();
         }
-        TokenData[TokenDataPos++] = 0;
-        SaveTokenData();
+        ReadChar();
+        AddTokenData(0);
     } else {
-        SaveTokenData();
+        assert(CurTok.Type == TOK_STRLIT);
         Filename = CurTok.Text;
     }
-    RawGetToken();
+    SaveTokenData();
+    do {
+        GetToken();
+    } while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_EMPTY);
+    assert(CurTok.Type == TOK_NEWLINE || CurTok.Type == TOK_EOF);
     CurFile->LastChar = CurrentChar;
     CurTok.Type = TOK_NEWLINE;
     CurFile->BufPtr = (char*)CurFileBuf;
@@ -1549,6 +1555,7 @@ void HandleInclude(void)
     if (Debug) printf("Entering '%s' (%d)\n", Filename, NumFiles);
     CurFile = OpenFile(Filename, 0);
     CurFile->OldLine = Line;
+    CurFile->CondBase = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
     ReadChar();
@@ -1609,7 +1616,7 @@ void HandleDirective(void)
     } else if (Directive == TOK_IF) {
         NewCond(CondActive() && EvalCond());
     } else if (Directive == TOK_ELIF) {
-        assert(CondCount);
+        assert(CondCount > CurFile->CondBase);
         char* S = &CondState[CondCount-1];
         assert(!(*S & COND_ELSE));
         if (*S == COND_TRUE)
@@ -1617,7 +1624,7 @@ void HandleDirective(void)
         else if (*S == COND_FALSE && EvalCond())
             *S = COND_TRUE;
     } else if (Directive == TOK_ELSE) {
-        assert(CondCount);
+        assert(CondCount > CurFile->CondBase);
         char* S = &CondState[CondCount-1];
         assert(!(*S & COND_ELSE));
         if (*S == COND_FALSE)
@@ -1625,7 +1632,7 @@ void HandleDirective(void)
         else
             *S = COND_DONE | COND_ELSE;
     } else if (Directive == TOK_ENDIF) {
-        assert(CondCount);
+        assert(CondCount > CurFile->CondBase);
         --CondCount;
     } else {
         if (CondActive()) {
@@ -1713,16 +1720,20 @@ void PPMain(void)
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
+            assert(CondCount == CurFile->CondBase); // Missing #endif
             Line = CurFile->OldLine;
             CloseFile();
             CurFile = &Files[NumFiles-1];
             if (NumFiles == 1) {
-                assert(!CondCount); // Missing #endif
                 return;
             }
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
-            StartOfLine = 1;
+            if (!StartOfLine) {
+                // Last line wasn't terminated
+                WS |= WS_NEWLINE;
+                StartOfLine = 1;
+            }
             GetToken();
             continue;
         }
-- 
2.43.0


From ac8329e97e99de3c348bb86e011c0dafcc0a6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 079/104] fix: scpp: report write errors, check the length of
 and find the extension of the input name correctly

---
 scpp.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 7ccc354..a71a63f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -295,7 +295,7 @@ enum {
     ARG_LIST_MAX    = 32,   // Maximum number of arguments in (nested) invocations
     FILES_MAX       = 4,
     FILE_BUF_SIZE   = 512,
-    FNAME_MAX       = 64,
+    FNAME_MAX       = 128,
 };
 
 #if 0 // Uncomment to test with real/larger files
@@ -1646,6 +1646,15 @@ void HandleDirective(void)
     InDirective = 0;
 }
 
+void WriteOutput(int Size)
+{
+    const int Count = write(OutFile->FD, OutFile->Buf, Size);
+    if (Count != Size) {
+        printf("Error writing %s\n", OutFile->Filename);
+        exit(1);
+    }
+}
+
 void OutputStr(const char* Str)
 {
     char* Buf = OutFile->BufPtr;
@@ -1653,7 +1662,7 @@ void OutputStr(const char* Str)
     while ((*Buf = *Str++)) {
         if (++Buf != End)
             continue;
-        write(OutFile->FD, OutFile->Buf, sizeof(OutFile->Buf));
+        WriteOutput(sizeof(OutFile->Buf));
         Buf = OutFile->Buf;
     }
     OutFile->BufPtr = Buf;
@@ -1797,9 +1806,12 @@ void MakeOutputFilename(char* dest, const char* n)
 {
     char* LastDot;
     LastDot = 0;
+    assert(strlen(n) < FNAME_MAX-2);
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        else if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     if (!LastDot) LastDot = dest;
@@ -1852,7 +1864,8 @@ int main(int argc, char** argv)
 
     PPMain();
 
-    write(OutFile->FD, OutFile->Buf, OutFile->BufPtr - OutFile->Buf);
+    if (OutFile->BufPtr != OutFile->Buf)
+        WriteOutput(OutFile->BufPtr - OutFile->Buf);
     CloseFile();
     assert(NumFiles == 0);
 
-- 
2.43.0


From 749615a612365eb86b3a23a4ff4395ae53c26cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 080/104] fix: scpp: __LINE__ in a file included before an
 empty line

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index a71a63f..f0c540c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1558,6 +1558,7 @@ void HandleInclude(void)
     CurFile->CondBase = CondCount;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0; // Belongs to the including file
     ReadChar();
 }
 
-- 
2.43.0


From ac2651641d20f3b56c85d84ee7840565c96e8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 081/104] fix: scpp: keep the name of a function-like macro
 that ends a replacement apart from the next token

---
 scpp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index f0c540c..5152ce4 100644
--- a/scpp.c
+++ b/scpp.c
@@ -872,8 +872,7 @@ int NextIsLParen(void)
             WS.Type = CurTok.Type;
     }
     --Expanding;
-    if (WS.Type != TOK_EMPTY)
-        TokenQueuePush(&WS);
+    TokenQueuePush(&WS);
     TokenQueuePush(&CurTok);
     return CurTok.Type == '(';
 }
-- 
2.43.0


From 9a88e7d1997439e1d1e5d661e243920760ab1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 082/104] fix: scpp: # after a macro that expands to nothing
 doesn't start a directive

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 5152ce4..6e677d6 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1767,6 +1767,7 @@ void PPMain(void)
             continue;
         case TOK_EMPTY:
             Join = 1;
+            StartOfLine = 0;
             GetToken();
             continue;
         }
-- 
2.43.0


From 75f881e0456f0b50c5b75bf66e41c26dc9797c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:21 +0000
Subject: [PATCH 083/104] fix: lib.h: sign of strcmp for characters that differ
 by more than 127

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index f732464..e1bff10 100644
--- a/lib.h
+++ b/lib.h
@@ -280,7 +280,7 @@ int strcmp(const char* a, const char* b)
     _emit 0x75 _emit 0x04               // JNZ DONE
     _emit 0x20 _emit 0xE4               // AND AH, AH
     _emit 0x75 _emit 0xF4               // JNZ L
-    _emit 0x98                          // DONE: CBW
+    _emit 0x1A _emit 0xE4               // DONE: SBB AH, AH
 }
 
 int strlen(const char* s)
-- 
2.43.0


From 8461ded45734e9f968930d9653b05612742d04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 084/104] fix: lib.h: follow C for field widths, zero padding
 of negative numbers, -32768 and hexadecimal numbers

---
 lib.h | 77 ++++++++++++++++++++++++++++-------------------------------
 1 file changed, 37 insertions(+), 40 deletions(-)

diff --git a/lib.h b/lib.h
index e1bff10..a59463d 100644
--- a/lib.h
+++ b/lib.h
@@ -172,6 +172,7 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             continue;
         }
         char fill = ' ';
+        char sign = 0;
         int w = 0;
     Restart:
         ch = *format++;
@@ -181,55 +182,51 @@ char* vsprintf(char* dest, const char* format, va_list vl)
         } else if (ch >= '0' && ch <= '9') {
             w = w*10 + ch - '0';
             goto Restart;
+        } else if (!w && ch == '+') {
+            sign = '+';
+            goto Restart;
         }
+        char* buf = TempBuf + sizeof(TempBuf);
+        *--buf = 0;
         if (ch == 's') {
-            dest = CopyStr(dest, va_arg(vl, char*));
-        } else if(ch == 'c') {
-            *dest++ = (char)va_arg(vl, int);
-        } else if ((ch == '+' && *format == 'd') || ch == 'd') {
-            char* buf;
-            int n;
-            int s;
-            int always;
-            if (ch == '+') {
-                ++format;
-                always = 1;
+            buf = va_arg(vl, char*);
+        } else if (ch == 'd' || ch == 'x' || ch == 'X') {
+            const char* HexD = "0123456789abcdef";
+            unsigned base = 16;
+            unsigned n = va_arg(vl, int);
+            if (ch == 'd') {
+                base = 10;
+                if (n > 32767) {
+                    sign = '-';
+                    n = -n;
+                }
             } else {
-                always = 0;
-            }
-            n = va_arg(vl, int);
-            s = 0;
-            if (n < 0) {
-                s = 1;
-                n = -n;
+                sign = 0;
+                if (ch == 'X') HexD = "0123456789ABCDEF";
             }
-            buf = TempBuf + sizeof(TempBuf);
-            *--buf = 0;
             do {
-                *--buf = '0' + n % 10;
-                n/=10;
-                --w;
+                *--buf = HexD[n % base];
+                n /= base;
             } while (n);
-            if (s) {
-                *--buf = '-';
-                --w;
-            } else if (always) {
-                *--buf = '+';
-                --w;
-            }
-            while (w-- > 0) *dest++ = fill;
-            dest  = CopyStr(dest, buf);
-        } else if (ch == 'x' || ch == 'X') {
-            const char* HexD = "0123456789ABCDEF";
-            int n = va_arg(vl, int);
-            int i = 3;
-            if (w) i = w-1;
-            for (; i >= 0; --i) {
-                *dest++ = HexD[(n>>i*4)&0xf];
+            if (sign) {
+                if (fill == '0') {
+                    *dest++ = sign;
+                    --w;
+                } else {
+                    *--buf = sign;
+                }
             }
         } else {
+            if (ch == 'c')
+                ch = (char)va_arg(vl, int);
+            while (--w > 0) *dest++ = fill;
             *dest++ = ch;
+            continue;
         }
+        const char* end = buf;
+        for (; *end; ++end) --w;
+        while (w-- > 0) *dest++ = fill;
+        dest = CopyStr(dest, buf);
     }
     *dest = 0;
     return dest;
@@ -341,7 +338,7 @@ void assert(int res)
         int* BP = GetBP();
         printf("\nBP   Return address\n");
         while (*BP) {
-            printf("%X %X\n", BP[0], BP[1]);
+            printf("%04X %04X\n", BP[0], BP[1]);
             BP = (int*)BP[0];
         }
         exit(1);
-- 
2.43.0


From 2dc00e5b0ce7c06c4e3dd12818784bf2d33247d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 085/104] fix: scc: give each declarator in a list the type
 named by the specifiers

---
 scc.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/scc.c b/scc.c
index 77ab3d2..a1dc3cc 100644
--- a/scc.c
+++ b/scc.c
@@ -2729,15 +2729,11 @@ void ParseAssignmentExpression(void)
         ParseExpr1(PREC_ASSIGN);
 }
 
+// Remember the type named by the declaration specifiers for the following declarators
 void SaveBaseType(void)
 {
-    BaseType      = CurrentType & ~VT_PTRMASK;
+    BaseType      = CurrentType;
     BaseTypeExtra = CurrentTypeExtra;
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY) {
-        struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-        BaseType      = AD->Type;
-        BaseTypeExtra = AD->TypeExtra;
-    }
 }
 
 void ParseDeclarator(int* Id);
@@ -3015,9 +3011,8 @@ struct VarDecl* ParseFirstDecl(void)
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
-    struct VarDecl* VD = DoDecl();
     SaveBaseType();
-    return VD;
+    return DoDecl();
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
-- 
2.43.0


From 2cdbaeb036eb4c0fddbc3069b8c18c71001fd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 086/104] fix: scc: handle static, functions and typedefs in
 file scope declarator lists

---
 scc.c | 67 +++++++++++++++++++++++++++++------------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/scc.c b/scc.c
index a1dc3cc..18e5433 100644
--- a/scc.c
+++ b/scc.c
@@ -3370,12 +3370,15 @@ void ParseExternalDefition(void)
     if (!vd)
         goto End;
 
-    vd->Type &= ~VT_STATIC;
+Redo:
+    if (vd->Type & VT_TYPEDEF)
+        goto Next;
+
+    vd->Type = (vd->Type & ~VT_STATIC) | VT_LOCGLOB;
 
     if (vd->Type & VT_FUN) {
-        vd->Type |= VT_LOCGLOB;
         if (TokenType != '{') {
-            goto End;
+            goto Next;
         }
         int i;
         // Make room for "late globals"
@@ -3415,41 +3418,37 @@ void ParseExternalDefition(void)
         return;
     }
 
-    while (vd) {
-        if (vd->Type & VT_TYPEDEF)
-            goto Next;
-
-        vd->Type |= VT_LOCGLOB;
-
-        if (TokenType == '=') {
-            GetToken();
-            EmitGlobalLabel(vd);
-            ParseAssignmentExpression();
-            switch (CurrentType) {
-            case VT_INT|VT_LOCLIT:
-                // TODO: Could save one byte per global char...
-                OutputWord(CurrentVal);
-                break;
-            case VT_LVAL|VT_ARRAY:
-                {
-                    struct ArrayDecl* AD = &ArrayDecls[vd->TypeExtra];
-                    if ((AD->Type & ~VT_UNSIGNED) != VT_CHAR) Fail();
-                    if (AD->Bound) Fail(); // TODO
-                    AD->Bound = ArrayDecls[CurrentTypeExtra].Bound;
-                    if (CurrentTypeExtra != ArrayCount-1) Fail();
-                    --ArrayCount;
-                }
-                break;
-            default:
-                Fail();
+    if (TokenType == '=') {
+        GetToken();
+        EmitGlobalLabel(vd);
+        ParseAssignmentExpression();
+        switch (CurrentType) {
+        case VT_INT|VT_LOCLIT:
+            // TODO: Could save one byte per global char...
+            OutputWord(CurrentVal);
+            break;
+        case VT_LVAL|VT_ARRAY:
+            {
+                struct ArrayDecl* AD = &ArrayDecls[vd->TypeExtra];
+                if ((AD->Type & ~VT_UNSIGNED) != VT_CHAR) Fail();
+                if (AD->Bound) Fail(); // TODO
+                AD->Bound = ArrayDecls[CurrentTypeExtra].Bound;
+                if (CurrentTypeExtra != ArrayCount-1) Fail();
+                --ArrayCount;
             }
-        } else {
-            BssSize += SizeofCurrentType();
+            break;
+        default:
+            Fail();
         }
-    Next:
-        vd = NextDecl();
+    } else {
+        BssSize += SizeofCurrentType();
     }
 
+Next:
+    vd = NextDecl();
+    if (vd)
+        goto Redo;
+
 End:
     Expect(';');
 }
-- 
2.43.0


From d4a9100fe57df126036d3a47a01ea3b572fb021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 087/104] fix: scc: support typedefs of array types

---
 scc.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index 18e5433..23f01e0 100644
--- a/scc.c
+++ b/scc.c
@@ -1932,7 +1932,7 @@ void ParsePostfixExpression(void)
             {
                 GetToken();
                 struct VarDecl* GlobalArr = 0;
-                if ((CurrentType & (VT_BASEMASK|VT_LOCMASK)) == (VT_ARRAY|VT_LOCGLOB)) {
+                if ((CurrentType & (VT_BASEMASK|VT_PTRMASK|VT_LOCMASK)) == (VT_ARRAY|VT_LOCGLOB)) {
                     struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
                     GlobalArr = &VarDecls[CurrentVal];
                     CurrentType = AD->Type;
@@ -2957,12 +2957,13 @@ Redo:
         return;
     }
 
+    const int OldArrayCount = ArrayCount;
     while (TokenType == '[') {
         GetToken();
         if (ArrayCount == ARRAY_MAX) Fail();
         struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & VT_STATIC;
-        AD->Type      = CurrentType & ~VT_STATIC;
+        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
+        AD->Type      = CurrentType & ~(VT_STATIC|VT_TYPEDEF);
         AD->TypeExtra = CurrentTypeExtra;
         if (TokenType != ']') {
             ParseExpr();
@@ -2976,13 +2977,13 @@ Redo:
         CurrentType      = VT_ARRAY | F;
         CurrentTypeExtra = ArrayCount++;
 
-        // Move bounds "inwards"
+        // Move bounds "inwards" (but not into those of a typedef)
         // char a[2][3][4] goes
         //    (char,[])
         // -> (array{0},[[char,2]])
         // -> (array{1},[[char,3],[array{0},2]])
         // -> (array{2},[[char,4],[array{0},3],[array{1},2]])
-        while (AD->Type == VT_ARRAY) {
+        while (AD->Type == VT_ARRAY && AD->TypeExtra >= OldArrayCount) {
             struct ArrayDecl* AD2 = &ArrayDecls[AD->TypeExtra];
             const int Temp = AD->Bound;
             AD->Bound = AD2->Bound;
-- 
2.43.0


From 23a3eecaeeaf1ab9a2bbdf15bbc7f70e136a2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 088/104] fix: scc: treat array parameters as pointers

---
 scc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scc.c b/scc.c
index 23f01e0..6b99430 100644
--- a/scc.c
+++ b/scc.c
@@ -2943,6 +2943,10 @@ Redo:
             if (ArgsCount == ARGS_MAX) Fail();
             struct Argument* A = &Args[ArgsCount++];
             ParseDeclarator(&A->Id);
+            if (CurrentType == VT_ARRAY) {
+                CurrentType |= VT_LVAL;
+                LvalToRval(); // Array parameters are really pointers
+            }
             A->Type      = CurrentType;
             A->TypeExtra = CurrentTypeExtra;
             if (TokenType == ',') {
-- 
2.43.0


From 74c65aaa638a357a4f12b2b63930cb999be6f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 089/104] fix: scc: reject extern and function declarations in
 blocks

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 6b99430..302cc37 100644
--- a/scc.c
+++ b/scc.c
@@ -2760,11 +2760,14 @@ void ParseDeclSpecs(void)
             break;
         case TOK_AUTO:
         case TOK_CONST:
-        case TOK_EXTERN: // Should only really be allowed in global scope
         case TOK_REGISTER:
         case TOK_VOLATILE:
             // Ignore but accept for now
             break;
+        case TOK_EXTERN:
+            // Only allowed (and ignored) in global scope
+            if (ScopeCount != 1) Fail();
+            break;
         case TOK_STATIC:
             Flags |= VT_STATIC;
             break;
@@ -3322,6 +3325,7 @@ Skip:
         struct VarDecl* vd = ParseFirstDecl();
         while (vd) {
             int size = SizeofCurrentType();
+            if ((CurrentType & VT_FUNPTR) == VT_FUN) Fail(); // Function declarations are only handled in global scope
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-- 
2.43.0


From 299aa482c08c5379d90ee00777dcf9a753b77e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 090/104] fix: scc: drop stack adjustments pending in dead code
 at the end of a function

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 302cc37..a33362d 100644
--- a/scc.c
+++ b/scc.c
@@ -3405,7 +3405,7 @@ Redo:
         }
 
         if (LocalLabelCounter) Fail();
-        LocalOffset = 0;
+        LocalOffset = Pending = 0;
         ReturnLabel = -1;
         BreakLabel = ContinueLabel = -1;
 
-- 
2.43.0


From 303bb2d0359bd2a7700a67ce750239ec660e6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 091/104] fix: scc: keep the parameters when one of them is a
 function pointer

---
 scc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index a33362d..8e22b25 100644
--- a/scc.c
+++ b/scc.c
@@ -391,7 +391,7 @@ int LocalLabelCounter;
 struct NamedLabel NamedLabels[NAMED_LABEL_MAX];
 int NamedLabelCount;
 
-struct Argument Args[ARGS_MAX];
+struct Argument Args[ARGS_MAX+1];
 int ArgsCount;
 
 int LocalOffset;
@@ -2934,7 +2934,7 @@ Redo:
         const int T = CurrentType | VT_FUN;
         const int E = CurrentTypeExtra;
 
-        ArgsCount = 0;
+        const int NumArgs = ArgsCount;
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
@@ -2943,8 +2943,11 @@ Redo:
             ParseDeclSpecs();
             if (TokenType == ')')
                 break;
-            if (ArgsCount == ARGS_MAX) Fail();
-            struct Argument* A = &Args[ArgsCount++];
+            struct Argument* A = &Args[ARGS_MAX]; // Those of nested declarators aren't kept
+            if (!NumArgs) {
+                if (ArgsCount == ARGS_MAX) Fail();
+                A = &Args[ArgsCount++];
+            }
             ParseDeclarator(&A->Id);
             if (CurrentType == VT_ARRAY) {
                 CurrentType |= VT_LVAL;
@@ -3009,6 +3012,7 @@ void ParseAbstractDecl(void)
 struct VarDecl* DoDecl(void)
 {
     int Id;
+    ArgsCount = 0;
     ParseDeclarator(&Id);
     if (Id < 0) Fail();
     return AddVarDecl(Id);
-- 
2.43.0


From cec85e5a9654aef6f6c3bd45e748d36d13c94891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 092/104] fix: scc: function pointers as values, arguments and
 global variables

---
 scc.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/scc.c b/scc.c
index 8e22b25..12bfc7c 100644
--- a/scc.c
+++ b/scc.c
@@ -192,7 +192,7 @@ enum {
     VT_LVAL     = 1<<4,
 
     VT_FUN      = 1<<5,
-    VT_FUNPTR   = 3<<5, // HACK
+    VT_FUNPTR   = 3<<5, // Mask: VT_FUN for functions, 2*VT_FUN for function pointers (HACK)
 
     VT_PTR1     = 1<<7,
     VT_PTRMASK  = 3<<7, // 3 levels of indirection should be enough..
@@ -1567,7 +1567,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if (CurrentType & VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -1841,21 +1841,15 @@ void ParsePostfixExpression(void)
                 // Function call
                 GetToken();
                 if (!(CurrentType & VT_FUNPTR)) Fail();
-                const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
+                const int RetType  = CurrentType & ~((CurrentType & VT_FUN ? VT_FUN : VT_FUNPTR)|VT_LOCMASK|VT_LVAL);
                 int RetExtra = CurrentTypeExtra;
                 struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
+                if ((CurrentType & (VT_FUN|VT_LOCMASK)) == (VT_FUN|VT_LOCGLOB)) {
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
-                    break;
-                case 0:
-                    SpillStoredVal();
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
-                default:
+                } else {
                     SpillStoredVal(); // Function address must be just above the arguments
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    LvalToRval();
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
@@ -1897,7 +1891,7 @@ void ParsePostfixExpression(void)
                         EmitStoreConst(2, VT_LOCOFF, LocalOffset + ArgSize);
                     } else {
                         GetVal();
-                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & VT_PTRMASK)) Fail();
+                        if ((CurrentType&~VT_UNSIGNED) != VT_INT && !(CurrentType & (VT_PTRMASK|VT_FUNPTR))) Fail();
                         EmitStoreAx(2, VT_LOCOFF, LocalOffset + ArgSize);
                     }
                     ArgSize += 2;
@@ -2077,8 +2071,9 @@ void ParseUnaryExpression(void)
                 if (!(CurrentType & VT_LVAL)) {
                     Fatal("Lvalue required for address-of operator");
                 }
-                if (CurrentType & VT_FUNPTR)
+                if (CurrentType & VT_FUN)
                     return;
+                if (CurrentType & VT_FUNPTR) Fail();
                 const int loc = CurrentType & VT_LOCMASK;
                 if (loc) {
                     EmitLoadAddr(R_AX, loc, CurrentVal);
@@ -2433,7 +2428,7 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & (VT_LVAL|VT_UNSIGNED|VT_FUNPTR)) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
         const int RhsType = CurrentType;
@@ -2911,7 +2906,7 @@ Redo:
         // Hacks
         GetToken();
         Expect('*');
-        CurrentType |= VT_FUNPTR;
+        CurrentType += VT_FUN;
         IsFunPtr = 1;
     }
 
@@ -2927,11 +2922,12 @@ Redo:
     if (IsFunPtr) {
         // More hacks
         Expect(')');
+        if (TokenType != '(') Fail();
     }
 
     if (TokenType == '(') {
         GetToken();
-        const int T = CurrentType | VT_FUN;
+        const int T = CurrentType + VT_FUN;
         const int E = CurrentTypeExtra;
 
         const int NumArgs = ArgsCount;
@@ -2953,6 +2949,8 @@ Redo:
                 CurrentType |= VT_LVAL;
                 LvalToRval(); // Array parameters are really pointers
             }
+            if (CurrentType & VT_FUN)
+                CurrentType += VT_FUN; // And functions function pointers
             A->Type      = CurrentType;
             A->TypeExtra = CurrentTypeExtra;
             if (TokenType == ',') {
@@ -3329,7 +3327,7 @@ Skip:
         struct VarDecl* vd = ParseFirstDecl();
         while (vd) {
             int size = SizeofCurrentType();
-            if ((CurrentType & VT_FUNPTR) == VT_FUN) Fail(); // Function declarations are only handled in global scope
+            if (CurrentType & VT_FUN) Fail(); // Function declarations are only handled in global scope
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-- 
2.43.0


From 4b10ac3b02bff01f21ba9a9ecfde8683039b6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 093/104] fix: scc: accept comparisons as operands of unary
 operators, compound assignments and subscripts

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 12bfc7c..74d545e 100644
--- a/scc.c
+++ b/scc.c
@@ -1956,7 +1956,7 @@ void ParsePostfixExpression(void)
                         }
                         EmitAddRegConst(R_AX, CurrentVal * Scale);
                     } else {
-                        LvalToRval();
+                        GetVal();
                         if ((CurrentType&~VT_UNSIGNED) != VT_INT || (Pending & PENDING_PUSHAX)) Fail();
                         EmitScaleAx(Scale);
                         if (GlobalArr) {
@@ -2086,6 +2086,8 @@ void ParseUnaryExpression(void)
             if ((CurrentType & VT_LOCMASK) == VT_LOCLIT) {
                 if (CurrentType != (VT_INT|VT_LOCLIT)) Fail();
                 IsConst = 1;
+            } else if (Op != '!') {
+                GetVal();
             } else {
                 LvalToRval();
             }
@@ -2605,6 +2607,7 @@ void ParseExpr1(int OuterPrecedence)
                     }
                 }
                 if (!Temp) {
+                    GetVal();
                     if ((CurrentType&~VT_UNSIGNED) != VT_INT) Fail();
                     Output1Byte(I_XCHG_AX|R_CX);
                 }
-- 
2.43.0


From 4b9d913bedbcaa4ea004f0a05fb99f5561a05dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 094/104] fix: scc: value of ++ and -- applied to a
 dereferenced pointer

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 74d545e..fa6c97e 100644
--- a/scc.c
+++ b/scc.c
@@ -1612,9 +1612,11 @@ void DoIncDecOp(int Op, int Post)
     if (Size > 1) {
         EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
         OutputWord(Size);
-        return;
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+    if (!Loc && !Post)
+        Output1Byte(I_XCHG_AX|R_SI); // Back to having the address in AX
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From edd5c9efcaa50ace396a5c11f6271ea3621041b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 095/104] fix: scc: pointers to and arrays of function pointers

---
 scc.c | 112 ++++++++++++++++++++++++++++++++--------------------------
 1 file changed, 61 insertions(+), 51 deletions(-)

diff --git a/scc.c b/scc.c
index fa6c97e..c97981e 100644
--- a/scc.c
+++ b/scc.c
@@ -204,6 +204,7 @@ enum {
 
     VT_STATIC   = 1<<11,
     VT_TYPEDEF  = 1<<12,
+    VT_FUNPTR1  = 1<<13, // The last level of indirection is a pointer to a function pointer
 };
 
 // Token types
@@ -1550,6 +1551,12 @@ int SizeofCurrentType(void)
     return SizeofType(CurrentType, CurrentTypeExtra);
 }
 
+void AddPointer(void)
+{
+    if (CurrentType & VT_FUNPTR) CurrentType |= VT_FUNPTR1;
+    CurrentType += VT_PTR1;
+}
+
 void LvalToRval(void)
 {
     if (CurrentType & VT_LVAL) {
@@ -1559,8 +1566,9 @@ void LvalToRval(void)
         if (CurrentType == VT_ARRAY) {
             // Decay array
             struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-            CurrentType = AD->Type + VT_PTR1;
+            CurrentType = AD->Type;
             CurrentTypeExtra = AD->TypeExtra;
+            AddPointer();
 LoadAddrRet:
             if (loc)
                 EmitLoadAddr(R_AX, loc, CurrentVal);
@@ -1938,7 +1946,7 @@ void ParsePostfixExpression(void)
                     if (!(CurrentType & VT_PTRMASK)) {
                         Fatal("Expected pointer");
                     }
-                    CurrentType -= VT_PTR1;
+                    CurrentType = (CurrentType-VT_PTR1) & ~VT_FUNPTR1;
                     if (!IsDeadCode) Pending |= PENDING_PUSHAX;
                 }
                 const int Scale    = SizeofCurrentType();
@@ -2028,8 +2036,8 @@ void ParseUnaryExpression(void);
 void ParseDead(int Unary)
 {
     const int WasDead   = IsDeadCode;
-    const int OldPend   = Pending;
-    const int OldRegUse = RegUse;
+    const int OldType   = Pending;
+    const int OldVal = RegUse;
     const int OldOffset = LocalOffset;
     Pending = RegUse = 0;
     IsDeadCode = 1;
@@ -2039,8 +2047,8 @@ void ParseDead(int Unary)
         ParseAssignmentExpression();
     if (!IsDeadCode) Fail();
     IsDeadCode  = WasDead;
-    Pending     = OldPend;
-    RegUse      = OldRegUse;
+    Pending     = OldType;
+    RegUse      = OldVal;
     LocalOffset = OldOffset;
 }
 
@@ -2075,12 +2083,12 @@ void ParseUnaryExpression(void)
                 }
                 if (CurrentType & VT_FUN)
                     return;
-                if (CurrentType & VT_FUNPTR) Fail();
                 const int loc = CurrentType & VT_LOCMASK;
                 if (loc) {
                     EmitLoadAddr(R_AX, loc, CurrentVal);
                 }
-                CurrentType = (CurrentType&~(VT_LVAL|VT_LOCMASK)) + VT_PTR1;
+                CurrentType &= ~(VT_LVAL|VT_LOCMASK);
+                AddPointer();
                 return;
             }
 
@@ -2109,12 +2117,12 @@ void ParseUnaryExpression(void)
                     CurrentVal ^= 1;
                 }
             } else if (Op == '*') {
-                if (CurrentType & VT_FUNPTR)
+                if ((CurrentType & VT_FUNPTR) && !(CurrentType & VT_FUNPTR1))
                     return;
                 if (!(CurrentType & VT_PTRMASK)) {
                     Fatal("Pointer required for dereference");
                 }
-                CurrentType = (CurrentType-VT_PTR1) | VT_LVAL;
+                CurrentType = ((CurrentType-VT_PTR1) & ~VT_FUNPTR1) | VT_LVAL;
             } else if (Op == '~') {
                 if (IsConst) {
                     CurrentVal = ~CurrentVal;
@@ -2893,11 +2901,12 @@ void ParseDeclSpecs(void)
 
 void ParseDeclarator(int* Id)
 {
+    int IsFunPtr = 0;
 Redo:
     switch (TokenType) {
     case '*':
         GetToken();
-        CurrentType += VT_PTR1;
+        AddPointer();
         goto Redo;
     case TOK_CONST:
     case TOK_VOLATILE:
@@ -2906,13 +2915,13 @@ Redo:
         goto Redo;
     }
 
-    int IsFunPtr = 0;
-    if (TokenType == '(') {
+    if (TokenType == '(' && !IsFunPtr) {
         // Hacks
         GetToken();
         Expect('*');
-        CurrentType += VT_FUN;
+        CurrentType += 2*VT_FUN;
         IsFunPtr = 1;
+        goto Redo;
     }
 
     if (Id) {
@@ -2924,15 +2933,52 @@ Redo:
         }
     }
 
+    const int OldArrayCount = ArrayCount;
+    while (TokenType == '[') {
+        GetToken();
+        if (ArrayCount == ARRAY_MAX) Fail();
+        struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
+        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
+        AD->Type      = CurrentType & ~(VT_STATIC|VT_TYPEDEF);
+        AD->TypeExtra = CurrentTypeExtra;
+        if (TokenType != ']') {
+            ParseExpr();
+            if (CurrentType != (VT_INT|VT_LOCLIT)) Fail(); // Need constant expression
+            AD->Bound = CurrentVal;
+            if (AD->Bound <= 0) Fail();
+        } else {
+            AD->Bound = 0;
+        }
+        Expect(']');
+        CurrentType      = VT_ARRAY | F;
+        CurrentTypeExtra = ArrayCount++;
+
+        // Move bounds "inwards" (but not into those of a typedef)
+        // char a[2][3][4] goes
+        //    (char,[])
+        // -> (array{0},[[char,2]])
+        // -> (array{1},[[char,3],[array{0},2]])
+        // -> (array{2},[[char,4],[array{0},3],[array{1},2]])
+        while (AD->Type == VT_ARRAY && AD->TypeExtra >= OldArrayCount) {
+            struct ArrayDecl* AD2 = &ArrayDecls[AD->TypeExtra];
+            const int Temp = AD->Bound;
+            AD->Bound = AD2->Bound;
+            AD2->Bound = Temp;
+            AD = AD2;
+        }
+    }
+
     if (IsFunPtr) {
         // More hacks
         Expect(')');
         if (TokenType != '(') Fail();
+    } else if (ArrayCount != OldArrayCount) {
+        return;
     }
 
     if (TokenType == '(') {
         GetToken();
-        const int T = CurrentType + VT_FUN;
+        const int T = IsFunPtr ? CurrentType : CurrentType + VT_FUN;
         const int E = CurrentTypeExtra;
 
         const int NumArgs = ArgsCount;
@@ -2967,42 +3013,6 @@ Redo:
         Expect(')');
         CurrentType      = T;
         CurrentTypeExtra = E;
-        return;
-    }
-
-    const int OldArrayCount = ArrayCount;
-    while (TokenType == '[') {
-        GetToken();
-        if (ArrayCount == ARRAY_MAX) Fail();
-        struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
-        AD->Type      = CurrentType & ~(VT_STATIC|VT_TYPEDEF);
-        AD->TypeExtra = CurrentTypeExtra;
-        if (TokenType != ']') {
-            ParseExpr();
-            if (CurrentType != (VT_INT|VT_LOCLIT)) Fail(); // Need constant expression
-            AD->Bound = CurrentVal;
-            if (AD->Bound <= 0) Fail();
-        } else {
-            AD->Bound = 0;
-        }
-        Expect(']');
-        CurrentType      = VT_ARRAY | F;
-        CurrentTypeExtra = ArrayCount++;
-
-        // Move bounds "inwards" (but not into those of a typedef)
-        // char a[2][3][4] goes
-        //    (char,[])
-        // -> (array{0},[[char,2]])
-        // -> (array{1},[[char,3],[array{0},2]])
-        // -> (array{2},[[char,4],[array{0},3],[array{1},2]])
-        while (AD->Type == VT_ARRAY && AD->TypeExtra >= OldArrayCount) {
-            struct ArrayDecl* AD2 = &ArrayDecls[AD->TypeExtra];
-            const int Temp = AD->Bound;
-            AD->Bound = AD2->Bound;
-            AD2->Bound = Temp;
-            AD = AD2;
-        }
     }
 }
 
-- 
2.43.0


From 246841d9fd45435c73f559eee6c17a0f10922e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 096/104] fix: scc: leave the DOS build the stack it needs

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index c97981e..ed372e1 100644
--- a/scc.c
+++ b/scc.c
@@ -169,7 +169,7 @@ enum {
     IDBUFFER_MAX = 5000,
     LABEL_MAX = 320,
     NAMED_LABEL_MAX = 8,
-    OUTPUT_MAX = 0x6000,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
+    OUTPUT_MAX = 0x5F00,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
     STRUCT_MAX = 8,
     STRUCT_MEMBER_MAX = 32,
     ARRAY_MAX = 32,
-- 
2.43.0


From f90182229b4a2007bd25c99f59271b5c4e06ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 097/104] fix: scc: same code for large constant offsets in the
 host and DOS builds

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index ed372e1..d37f1fc 100644
--- a/scc.c
+++ b/scc.c
@@ -1261,7 +1261,7 @@ void EmitStoreConst(int Size, int Loc, int Val)
         Output1Byte(CurrentVal>>8);
 }
 
-void EmitAddRegConst(int r, int Amm)
+void EmitAddRegConst(int r, short Amm) // (short is int in the DOS build)
 {
     if (!Amm) return;
     int Op = r; // I_ADD | r
-- 
2.43.0


From c685fa3670284e4f5c58ef94894643e425db85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 098/104] fix: sim86: show the segment override of
 direct-address operands

---
 sim86.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/sim86.c b/sim86.c
index a9286a1..00ae79c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -224,6 +224,17 @@ int Imm16(void)
     return l | ReadIByte() << 8;
 }
 
+void SegText(char* sr)
+{
+    sr[0] = 0;
+    if (seg != -1) {
+        sr[0] = "ECSD"[(unsigned char)seg];
+        sr[1] = 'S';
+        sr[2] = ':';
+        sr[3] = 0;
+    }
+}
+
 void ModRM(void)
 {
     assert(modrm == -1);
@@ -232,7 +243,11 @@ void ModRM(void)
     case 0:
         if ((modrm & 7) == 6) { // Pure disp16
             addr += Imm16();
-            if (verbose) sprintf(rmtext, "[0x%04X]", addr);
+            if (verbose) {
+                char sr[4];
+                SegText(sr);
+                sprintf(rmtext, "[%s0x%04X]", sr, addr);
+            }
             if (seg == -1)
                 seg = SR_DS;
             return;
@@ -250,13 +265,7 @@ void ModRM(void)
     }
     if (verbose) {
         char sr[4];
-        sr[0] = 0;
-        if (seg != -1) {
-            sr[0] = "ECSD"[(unsigned char)seg];
-            sr[1] = 'S';
-            sr[2] = ':';
-            sr[3] = 0;
-        }
+        SegText(sr);
         switch (modrm&7) {
         case 0: sprintf(rmtext, "[%sBX+SI%+d]", sr, addr); break;
         case 1: sprintf(rmtext, "[%sBX+DI%+d]", sr, addr); break;
@@ -973,8 +982,10 @@ int main(int argc, char** argv)
                     int Off = ReadIByte();
                     Off |= ReadIByte()<<8;
                     if (verbose) {
-                        if (inst & 2) sprintf(insttext, "MOV [0x%04X], A%c", Off, inst&1?'X':'L');
-                        else          sprintf(insttext, "MOV A%c, [0x%04X]", inst&1?'X':'L', Off);
+                        char sr[4];
+                        SegText(sr);
+                        if (inst & 2) sprintf(insttext, "MOV [%s0x%04X], A%c", sr, Off, inst&1?'X':'L');
+                        else          sprintf(insttext, "MOV A%c, [%s0x%04X]", inst&1?'X':'L', sr, Off);
                     }
                     if (inst & 2) {
                         // Store
-- 
2.43.0


From bd811a740a04dc9a9cc00663a53884f7655e18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 099/104] fix: sim86: name the last symbol in the profile's
 stack

---
 sim86.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index 00ae79c..57a48a2 100644
--- a/sim86.c
+++ b/sim86.c
@@ -682,9 +682,8 @@ void DoExit(int ec)
         printf("\nBP;Return address;Size;Symbol\n");
         for (int i = 0; i < max_stack.depth; ++i) {
             struct StackFrame* f = &max_stack.frames[i];
-            for (entry = 0; entry < num_entries; ++entry) {
-                if (entries[entry].Addr > f->ip) {
-                    --entry;
+            for (entry = 0; entry+1 < num_entries; ++entry) {
+                if (entries[entry+1].Addr > f->ip) {
                     break;
                 }
             }
-- 
2.43.0


From eed1657da9220a399aaa09bfd3c8362954b9678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 100/104] fix: sim86: attribute addresses to the right symbol
 when several share an address

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 57a48a2..d51cc1a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -665,7 +665,7 @@ void DoExit(int ec)
         int entry = 0;
         printf("Count;Address;Name;Instruction\n");
         for (int i = 0; i < 65536; ++i) {
-            if (entry+1 < num_entries && i >= entries[entry+1].Addr) {
+            while (entry+1 < num_entries && i >= entries[entry+1].Addr) {
                 ++entry;
             }
             if (counts[i])
-- 
2.43.0


From 09616b7881d03bae2de9931e62681c4293d1a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 101/104] fix: scc: make room for locals declared before a case
 label

---
 scc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index d37f1fc..587a5c0 100644
--- a/scc.c
+++ b/scc.c
@@ -164,7 +164,7 @@ enum {
     INBUF_MAX = 512,
     SCOPE_MAX = 16,
     VARDECL_MAX = 380,
-    ID_MAX = 580,
+    ID_MAX = 581,
     ID_HASHMAX = 1024,      // Must be power of 2 and (some what) greater than ID_MAX
     IDBUFFER_MAX = 5000,
     LABEL_MAX = 320,
@@ -422,6 +422,7 @@ int IsDeadCode;
 int NextSwitchCase = -1; // Where to go if we haven't matched
 int NextSwitchStmt;      // Where to go if we've matched (-1 if already emitted)
 int SwitchDefault;       // Optional switch default label
+int SwitchLevel;         // LocalOffset where the cases are selected
 
 unsigned char Output[OUTPUT_MAX]; // Place this last to allow partial stack overflows!
 
@@ -3154,6 +3155,8 @@ Redo:
             EmitJmp(NextSwitchCase);
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
+            if (LocalOffset != SwitchLevel) // Make room for locals declared before this case
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset);
             NextSwitchStmt = -1;
             goto Redo;
         }
@@ -3303,10 +3306,12 @@ Redo:
             Expect(')');
 
             const int OldBreakLevel  = BStackLevel;
+            const int OldOffset      = SwitchLevel;
             const int OldBreakLabel  = BreakLabel;
             const int LastSwitchCase = NextSwitchCase;
             const int LastSwitchStmt = NextSwitchStmt;
             const int LastSwitchDef  = SwitchDefault;
+            SwitchLevel    = LocalOffset;
             BStackLevel    = LocalOffset;
             BreakLabel     = MakeLabel();
             NextSwitchCase = MakeLabel();
@@ -3331,6 +3336,7 @@ Redo:
             NextSwitchCase = LastSwitchCase;
             NextSwitchStmt = LastSwitchStmt;
             SwitchDefault  = LastSwitchDef;
+            SwitchLevel    = OldOffset;
             BStackLevel    = OldBreakLevel;
             BreakLabel     = OldBreakLabel;
         }
-- 
2.43.0


From 2d2331dc8f1a736ac74e825d633dfad890d28f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 102/104] fix: swar: do not seed the generator with negative
 values

---
 swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index b525f47..6d368f6 100644
--- a/swar.c
+++ b/swar.c
@@ -494,7 +494,7 @@ void UpdateTurrent(struct Tank* t, int ang)
 int main()
 {
 #ifdef __SCC__
-    Seed = clock();
+    Seed = clock() & 0x7fff; // The generator gets stuck on some negative values
 #endif
 
     const int OldMode = Int10h(INT10H_GETMODE, 0) & 0xff;
-- 
2.43.0


From 84788472f6a94a888d3f9cca11272c6267e52867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 103/104] fix: scc: allow comparisons of void pointers

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 587a5c0..2f6ef10 100644
--- a/scc.c
+++ b/scc.c
@@ -2653,7 +2653,7 @@ void ParseExpr1(int OuterPrecedence)
         int LhsPointeeSize = 0;
         int IsPtrDiff = 0;
         if (LhsType & VT_PTRMASK) {
-            LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+            LhsPointeeSize = LhsType == (VT_VOID|VT_PTR1) ? 1 : SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
             IsPtrDiff = Op == '-' && (CurrentType & VT_PTRMASK);
-- 
2.43.0


From 03f64c443ef9203681aa0d320fe6c015ebf3d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 104/104] fix: scc: scale by -32768 with 16-bit arithmetic

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 2f6ef10..271fed9 100644
--- a/scc.c
+++ b/scc.c
@@ -1295,7 +1295,7 @@ void EmitMovRImm(int r, int val)
     Output3Bytes(I_MOV_R_IMM16|r, val, val>>8);
 }
 
-void EmitScaleAx(int Scale)
+void EmitScaleAx(unsigned short Scale)
 {
     if (!Scale || Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
@@ -1317,7 +1317,7 @@ void EmitDivCX(void)
     }
 }
 
-void EmitDivAxConst(int Amm)
+void EmitDivAxConst(unsigned short Amm)
 {
     if (Amm & (Amm-1)) {
         EmitMovRImm(R_CX, Amm);
-- 
2.43.0

