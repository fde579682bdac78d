From 94dd4444a247b8b1e4714d6bad740f7f70dba799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/58] fix: representation size of integer types declared with
 a descending range

type_bit_width passed the left and right bounds where the low and high
bounds are expected, so signals of such a type had size zero.
---
 src/type.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/type.c b/src/type.c
index ca1110c..3450a59 100644
--- a/src/type.c
+++ b/src/type.c
@@ -1028,9 +1028,9 @@ int type_bit_width(type_t type)
    case T_INTEGER:
    case T_PHYSICAL:
       {
-         tree_t r = range_of(type, 0);
-         return bits_for_range(assume_int(tree_left(r)),
-                               assume_int(tree_right(r)));
+         int64_t low, high;
+         range_bounds(range_of(type, 0), &low, &high);
+         return bits_for_range(low, high);
       }
 
    case T_REAL:
-- 
2.43.0


From 26b6ce9f9345fcf6528084fb88195f86214c3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 02/58] fix: conversion from real to integer for
 0.49999999999999994 and odd values above 2**52

Adding 0.5 before truncation may itself round up to the next integer.
---
 src/jit/jit-interp.c | 4 +++-
 src/jit/jit-llvm.c   | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 69ec3f9..9b83f44 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -675,7 +675,9 @@ static void interp_scvtf(jit_interp_t *state, jit_ir_t *ir)
 static void interp_fcvtns(jit_interp_t *state, jit_ir_t *ir)
 {
    const double f = interp_get_real(state, ir->arg1);
-   state->regs[ir->result].integer = (int64_t)(f + copysign(0.5, f));
+   // Largest double below one half: adding 0.5 may itself round up
+   const double half = 0x1.fffffffffffffp-2;
+   state->regs[ir->result].integer = (int64_t)(f + copysign(half, f));
 }
 
 static void interp_lea(jit_interp_t *state, jit_ir_t *ir)
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..b5192c0 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -1700,7 +1700,8 @@ static void cgen_op_fcvtns(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 {
    LLVMValueRef arg1 = cgen_coerce_value(obj, cgb, ir->arg1, LLVM_DOUBLE);
 
-   LLVMValueRef args[] = { llvm_real(obj, 0.5), arg1 };
+   // Largest double below one half: adding 0.5 may itself round up
+   LLVMValueRef args[] = { llvm_real(obj, 0x1.fffffffffffffp-2), arg1 };
    LLVMValueRef half = llvm_call_fn(obj, LLVM_COPYSIGN_F64, args, 2);
    LLVMValueRef rounded = LLVMBuildFAdd(obj->builder, arg1, half, "");
 
-- 
2.43.0


From 0acad0b8c3de446924ed34bdcb68ed1304574018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 03/58] fix: result bounds of arithmetic on types with a
 restricted range

The result of /, mod, rem, **, abs and unary or binary minus was assumed
to be within the declared range of its type (and x / -c had inverted
bounds), so required range checks were dropped for types such as
"range 1 to 10".
---
 src/vcode.c | 90 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 83 insertions(+), 7 deletions(-)

diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..ebd611f 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3873,6 +3873,16 @@ static vcode_reg_t emit_arith(vcode_op_t kind, vcode_reg_t lhs, vcode_reg_t rhs,
    return op->result;
 }
 
+static void vcode_set_int_bounds(vcode_reg_t reg, int64_t low, int64_t high)
+{
+   // The result of an operator may be outside the bounds of the type
+   reg_t *rr = vcode_reg_data(reg);
+   if (vtype_kind(rr->type) == VCODE_TYPE_INT) {
+      vtype_clamp_to_repr(vtype_repr(rr->type), &low, &high);
+      rr->bounds = vtype_int(low, high);
+   }
+}
+
 static vcode_reg_t emit_mul_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
                                vcode_reg_t locus)
 {
@@ -3960,10 +3970,21 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    vcode_reg_t reg = emit_arith(VCODE_OP_DIV, lhs, rhs, VCODE_INVALID_REG);
 
    vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+   vtype_t *br = vcode_type_data(vcode_reg_data(rhs)->bounds);
 
-   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
-      reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+   if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst > 0)
+      vcode_set_int_bounds(reg, bl->low / rconst, bl->high / rconst);
+   else if (bl->kind == VCODE_TYPE_INT && br->kind == VCODE_TYPE_INT) {
+      const int64_t neg_low = ssub64(0, bl->low);
+      const int64_t neg_high = ssub64(0, bl->high);
+
+      int64_t low = MIN(0, bl->low), high = MAX(0, bl->high);
+      if (br->low < 0) {
+         low  = MIN(low, neg_high);
+         high = MAX(high, neg_low);
+      }
+
+      vcode_set_int_bounds(reg, low, high);
    }
    else if (bl->kind == VCODE_TYPE_REAL) {
       reg_t *rr = vcode_reg_data(reg);
@@ -3973,9 +3994,19 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    return reg;
 }
 
+static void vcode_set_exp_bounds(vcode_reg_t reg)
+{
+   if (vcode_reg_kind(reg) == VCODE_TYPE_INT)
+      vcode_set_int_bounds(reg, INT64_MIN, INT64_MAX);
+   else
+      vcode_reg_data(reg)->bounds = vtype_real(-INFINITY, INFINITY);
+}
+
 vcode_reg_t emit_exp(vcode_reg_t lhs, vcode_reg_t rhs)
 {
-   return emit_arith(VCODE_OP_EXP, lhs, rhs, VCODE_INVALID_REG);
+   vcode_reg_t reg = emit_arith(VCODE_OP_EXP, lhs, rhs, VCODE_INVALID_REG);
+   vcode_set_exp_bounds(reg);
+   return reg;
 }
 
 vcode_reg_t emit_trap_exp(vcode_reg_t lhs, vcode_reg_t rhs, vcode_reg_t locus)
@@ -3993,6 +4024,8 @@ vcode_reg_t emit_trap_exp(vcode_reg_t lhs, vcode_reg_t rhs, vcode_reg_t locus)
    VCODE_ASSERT(vcode_reg_kind(result) == VCODE_TYPE_INT,
                 "trapping exp may only be used with integer types");
 
+   vcode_set_exp_bounds(result);
+
    return result;
 }
 
@@ -4016,8 +4049,15 @@ vcode_reg_t emit_mod(vcode_reg_t lhs, vcode_reg_t rhs)
 
       return reg;
    }
-   else
-      return emit_arith(VCODE_OP_MOD, lhs, rhs, VCODE_INVALID_REG);
+   else {
+      vcode_reg_t reg = emit_arith(VCODE_OP_MOD, lhs, rhs, VCODE_INVALID_REG);
+
+      // Result has the sign of the right operand
+      vcode_set_int_bounds(reg, br->low < 0 ? br->low + 1 : 0,
+                           br->high > 0 ? br->high - 1 : 0);
+
+      return reg;
+   }
 }
 
 vcode_reg_t emit_rem(vcode_reg_t lhs, vcode_reg_t rhs)
@@ -4036,6 +4076,10 @@ vcode_reg_t emit_rem(vcode_reg_t lhs, vcode_reg_t rhs)
       reg_t *rr = vcode_reg_data(reg);
       rr->bounds = vtype_int(0, br->high - 1);
    }
+   else {
+      // Result has the sign of the left operand
+      vcode_set_int_bounds(reg, MIN(0, bl->low), MAX(0, bl->high));
+   }
 
    return reg;
 }
@@ -4072,6 +4116,8 @@ static vcode_reg_t emit_add_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
 
       vbounds = vtype_int(rbl, rbh);
    }
+   else
+      vbounds = vtype_real(-INFINITY, INFINITY);
 
    vcode_reg_t reg = emit_arith(op, lhs, rhs, locus);
 
@@ -4106,6 +4152,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
+   else if (l_is_const && lconst == 0 && op == VCODE_OP_TRAP_SUB)
+      return emit_trap_neg(rhs, locus);
    else if (l_is_const && lconst == 0)
       return emit_neg(rhs);
 
@@ -4128,6 +4176,8 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
 
       vbounds = vtype_int(rbl, rbh);
    }
+   else
+      vbounds = vtype_real(-INFINITY, INFINITY);
 
    vcode_reg_t reg = emit_arith(op, lhs, rhs, locus);
 
@@ -4386,6 +4436,17 @@ void emit_cond(vcode_reg_t test, vcode_block_t btrue, vcode_block_t bfalse)
                 "invalid cond targets");
 }
 
+static void vcode_set_neg_bounds(vcode_reg_t reg, vcode_reg_t lhs)
+{
+   vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+
+   if (bl->kind == VCODE_TYPE_INT)
+      vcode_reg_data(reg)->bounds =
+         vtype_int(ssub64(0, bl->high), ssub64(0, bl->low));
+   else if (bl->kind == VCODE_TYPE_REAL)
+      vcode_reg_data(reg)->bounds = vtype_real(-bl->rhigh, -bl->rlow);
+}
+
 vcode_reg_t emit_neg(vcode_reg_t lhs)
 {
    int64_t lconst;
@@ -4396,6 +4457,8 @@ vcode_reg_t emit_neg(vcode_reg_t lhs)
    vcode_add_arg(op, lhs);
    op->result = vcode_add_reg(vcode_reg_type(lhs));
 
+   vcode_set_neg_bounds(op->result, lhs);
+
    return op->result;
 }
 
@@ -4416,7 +4479,12 @@ vcode_reg_t emit_trap_neg(vcode_reg_t lhs, vcode_reg_t locus)
    VCODE_ASSERT(vcode_reg_kind(lhs) == VCODE_TYPE_INT,
                 "trapping neg may only be used with integer types");
 
-   return (op->result = vcode_add_reg(vcode_reg_type(lhs)));
+   op->result = vcode_add_reg(vcode_reg_type(lhs));
+
+   vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+   vcode_set_int_bounds(op->result, ssub64(0, bl->high), ssub64(0, bl->low));
+
+   return op->result;
 }
 
 vcode_reg_t emit_abs(vcode_reg_t lhs)
@@ -4429,6 +4497,14 @@ vcode_reg_t emit_abs(vcode_reg_t lhs)
    vcode_add_arg(op, lhs);
    op->result = vcode_add_reg(vcode_reg_type(lhs));
 
+   vtype_t *bl = vcode_type_data(vcode_reg_data(lhs)->bounds);
+
+   if (bl->kind == VCODE_TYPE_INT)
+      vcode_set_int_bounds(op->result, 0, MAX(bl->high, ssub64(0, bl->low)));
+   else if (bl->kind == VCODE_TYPE_REAL)
+      vcode_reg_data(op->result)->bounds =
+         vtype_real(0.0, MAX(bl->rhigh, -bl->rlow));
+
    return op->result;
 }
 
-- 
2.43.0


From 39ae977c0de3f4250a8340120e74d3fb48206fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/58] fix: subtracting from a constant zero returned the
 subtrahend unchanged

---
 src/mir/mir-node.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..77eb4dd 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1034,9 +1034,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
       return mir_const(mu, type, cval);
@@ -1048,9 +1046,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
-- 
2.43.0


From f1cdaac2587fe9dc8b773c95264452929ffd86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/58] fix: checked multiplication was folded with the rules
 of subtraction

x * x gave zero and x * 0 gave x.
---
 src/mir/mir-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 77eb4dd..7cab9ba 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1156,7 +1156,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From 0e822fb70d7f32e11bbdc45c3eea820b433fb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 06/58] fix: checked exponentiation in compiled code

The overflow flag of the squared base was lost, so 65536 ** 4 gave zero,
the helpers for 8 and 16 bit types shared one name, and the exponent was
truncated to the width of the base.
---
 src/jit/jit-interp.c |  6 ++++--
 src/jit/jit-llvm.c   | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 9b83f44..1dbfdd4 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -702,7 +702,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define EXP_OVERFLOW(type) do {                                         \
-         type xt = x, yt = y, r = 1;                                    \
+         type xt = x, r = 1;                                            \
+         uint64_t yt = y;                                               \
          while (yt) {                                                   \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
@@ -720,7 +721,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define UEXP_OVERFLOW(type) do {                                        \
-         u##type xt = x, yt = y, r = 1;                                 \
+         u##type xt = x, r = 1;                                         \
+         uint64_t yt = y;                                               \
          while (yt) {                                                   \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index b5192c0..fb09521 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -676,12 +676,12 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_S8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.sexp.with.overflow.i16",
+            "nvc.sexp.with.overflow.i8",
             "nvc.sexp.with.overflow.i16",
             "nvc.sexp.with.overflow.i32",
             "nvc.sexp.with.overflow.i64"
@@ -699,12 +699,12 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_U8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.uexp.with.overflow.i16",
+            "nvc.uexp.with.overflow.i8",
             "nvc.uexp.with.overflow.i16",
             "nvc.uexp.with.overflow.i32",
             "nvc.uexp.with.overflow.i64"
@@ -1963,7 +1963,7 @@ static void cgen_macro_exp(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 
    llvm_type_t type = LLVM_INT8 + ir->size;
    LLVMValueRef arg1 = cgen_coerce_value(obj, cgb, ir->arg1, type);
-   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, type);
+   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, LLVM_INT64);
 
    LLVMValueRef args[] = { arg1, arg2 };
    LLVMValueRef pair = llvm_call_fn(obj, fn, args, 2);
@@ -3190,10 +3190,11 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef mulfn = llvm_get_fn(obj, mulbase + sz);
    LLVMTypeRef multype = obj->fntypes[mulbase + sz];
 
-   LLVMValueRef zero = LLVMConstInt(int_type, 0, false);
-   LLVMValueRef one = LLVMConstInt(int_type, 1, false);
+   LLVMTypeRef exp_type = obj->types[LLVM_INT64];
+   LLVMValueRef zero = LLVMConstInt(exp_type, 0, false);
+   LLVMValueRef one = LLVMConstInt(exp_type, 1, false);
 
-   LLVMValueRef r0 = one;
+   LLVMValueRef r0 = LLVMConstInt(int_type, 1, false);
    LLVMValueRef o0 = llvm_int1(obj, false);
    LLVMValueRef xo0 = llvm_int1(obj, false);
 
@@ -3208,7 +3209,7 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMPositionBuilderAtEnd(obj->builder, header);
 
    LLVMValueRef x1 = LLVMBuildPhi(obj->builder, int_type, "x1");
-   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, int_type, "y1");
+   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, exp_type, "y1");
    LLVMValueRef r1 = LLVMBuildPhi(obj->builder, int_type, "r1");
    LLVMValueRef o1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "o1");
    LLVMValueRef xo1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "xo1");
@@ -3258,7 +3259,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0


From ccf2a2195d89466b71f92868566d335a6fff3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 07/58] fix: conditional assignment and return with constant
 conditions or unaffected

---
 src/simp.c | 71 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/simp.c b/src/simp.c
index 540a285..396bd2b 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -1371,16 +1371,19 @@ static tree_t simp_var_assign(tree_t t)
          else
             assert(i == nconds - 1);
 
-         tree_t s = tree_new(T_VAR_ASSIGN);
-         tree_set_loc(s, tree_loc(t));
-         tree_set_target(s, tree_target(t));
-         tree_set_value(s, tree_result(e));
+         if (tree_has_result(e)) {
+            tree_t s = tree_new(T_VAR_ASSIGN);
+            tree_set_loc(s, tree_loc(t));
+            tree_set_target(s, tree_target(t));
+            tree_set_value(s, tree_result(e));
+
+            tree_add_stmt(c, s);
+         }
 
-         tree_add_stmt(c, s);
          tree_add_cond(new, c);
       }
 
-      return new;
+      return nconds > 0 ? new : NULL;
    }
 
    return t;
@@ -1407,16 +1410,19 @@ static tree_t simp_return(tree_t t)
             else
                assert(i == nconds - 1);
 
-            tree_t s = tree_new(T_RETURN);
-            tree_set_loc(s, tree_loc(tree_result(e)));
-            tree_set_value(s, tree_result(e));
-            tree_set_type(s, tree_type(t));
+            if (tree_has_result(e)) {
+               tree_t s = tree_new(T_RETURN);
+               tree_set_loc(s, tree_loc(tree_result(e)));
+               tree_set_value(s, tree_result(e));
+               tree_set_type(s, tree_type(t));
+
+               tree_add_stmt(c, s);
+            }
 
-            tree_add_stmt(c, s);
             tree_add_cond(new, c);
          }
 
-         return new;
+         return nconds > 0 ? new : NULL;
       }
    }
 
@@ -1547,9 +1553,7 @@ static tree_t simp_sequence(tree_t t)
 
 static tree_t simp_cond_expr(tree_t t)
 {
-   if (!tree_has_result(t))
-      return NULL;   // "unaffected" expression is redundant
-   else if (tree_has_value(t)) {
+   if (tree_has_value(t)) {
       bool value_b;
       if (folded_bool(tree_value(t), &value_b)) {
          if (value_b) {
@@ -1569,13 +1573,40 @@ static tree_t simp_cond_expr(tree_t t)
 
 static tree_t simp_cond_value(tree_t t)
 {
-   tree_t c0 = tree_cond(t, 0);
-   if (!tree_has_value(c0)) {
-      // Always evaluates to "else" condition
-      return tree_result(c0);
+   // Conditions after one that always holds are never evaluated and
+   // trailing "unaffected" expressions are redundant
+
+   const int nconds = tree_conds(t);
+   int limit = 0;
+   for (int i = 0; i < nconds; i++) {
+      tree_t c = tree_cond(t, i);
+
+      if (tree_has_result(c))
+         limit = i + 1;
+
+      if (!tree_has_value(c)) {
+         if (i == 0 && tree_has_result(c)) {
+            // Always evaluates to "else" condition
+            return tree_result(c);
+         }
+
+         break;
+      }
    }
 
-   return t;
+   if (limit == nconds)
+      return t;
+
+   tree_t new = tree_new(T_COND_VALUE);
+   tree_set_loc(new, tree_loc(t));
+
+   if (tree_has_type(t))
+      tree_set_type(new, tree_type(t));
+
+   for (int i = 0; i < limit; i++)
+      tree_add_cond(new, tree_cond(t, i));
+
+   return new;
 }
 
 static tree_t simp_aggregate(tree_t t)
-- 
2.43.0


From 7331b0c7a8d541067f57153e100a08c17c4435b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 08/58] fix: filling a small array with a negative value
 corrupted its second element

---
 src/jit/jit-optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..93dd1e0 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -878,7 +878,7 @@ static void jit_lvn_memset(jit_ir_t *ir, lvn_state_t *state)
          0xff, 0xffff, 0xffffffff, 0xffffffffffffffff
       };
 
-      uint64_t bits = value;
+      uint64_t bits = value & mask[ir->size];
       if (value == 0) {
          ir->op = MACRO_BZERO;
          ir->size = JIT_SZ_UNSPEC;
-- 
2.43.0


From e987a854c535632984947024155e3493694253ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 09/58] fix: wrong kind of stamp for replicated constant arrays
 and strings

---
 src/mir/mir-node.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7cab9ba..3a0f081 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -906,7 +906,12 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 
    mir_type_t t_char = mir_char_type(mu);
    mir_type_t type = mir_carray_type(mu, count, t_char);
-   mir_stamp_t stamp = mir_int_stamp(mu, low, high);
+
+   mir_stamp_t elem = MIR_NULL_STAMP;
+   if (low <= high)
+      elem = mir_int_stamp(mu, low, high);
+
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
 
    node_data_t *n = mir_add_node(mu, MIR_OP_CONST_ARRAY, type,
                                  stamp, count);
@@ -920,7 +925,11 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 mir_value_t mir_build_const_rep(mir_unit_t *mu, mir_type_t type,
                                 mir_value_t value, unsigned rep)
 {
-   mir_stamp_t stamp = mir_get_stamp(mu, value);
+   mir_stamp_t elem = MIR_NULL_STAMP;
+   if (mir_is(mu, value, MIR_TYPE_INT))
+      elem = mir_get_stamp(mu, value);
+
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
    mir_value_t result = mir_build_2(mu, MIR_OP_CONST_REP, type, stamp,
                                     value, mir_enum(rep));
 
-- 
2.43.0


From 1ca0a2a5aefeb5f19d7d6e578136a865c7c342e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 10/58] fix: case with constant expression always selected an
 alternative with a range choice

---
 src/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simp.c b/src/simp.c
index 396bd2b..35c759a 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -909,6 +909,7 @@ static bool simp_match_case_choice(tree_t alt, int64_t ival)
             else if (ival >= low && ival <= high)
                return true;
          }
+         break;
 
       case A_OTHERS:
          return true;
-- 
2.43.0


From 4e85c34598366bda64ee114c1574e81da16671b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 11/58] fix: for loop in a procedure with waits whose body
 always exits

---
 src/lower.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 9b35f29..08e0226 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6604,18 +6604,18 @@ static void lower_for(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
       vcode_select_block(this.test_bb);
    }
 
-   vcode_reg_t rightn_reg = right_reg;
-   if (right_var != VCODE_INVALID_VAR)
-      rightn_reg = emit_load(right_var);
+   if (!vcode_block_finished()) {
+      vcode_reg_t rightn_reg = right_reg;
+      if (right_var != VCODE_INVALID_VAR)
+         rightn_reg = emit_load(right_var);
 
-   vcode_reg_t stepn_reg = step_reg;
-   if (step_var != VCODE_INVALID_VAR)
-      stepn_reg = emit_load(step_var);
+      vcode_reg_t stepn_reg = step_reg;
+      if (step_var != VCODE_INVALID_VAR)
+         stepn_reg = emit_load(step_var);
 
-   if (ireg == VCODE_INVALID_REG)
-      ireg = emit_load(ivar);
+      if (ireg == VCODE_INVALID_REG)
+         ireg = emit_load(ivar);
 
-   if (!vcode_block_finished()) {
       vcode_reg_t next_reg = emit_add(ireg, stepn_reg);
       emit_store(next_reg, ivar);
 
-- 
2.43.0


From e9986eb267b404240aa1d5862d7a9c305bb9eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 12/58] fix: race between background JIT and ahead-of-time code
 generation

---
 src/cgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cgen.c b/src/cgen.c
index a203334..8b9b426 100644
--- a/src/cgen.c
+++ b/src/cgen.c
@@ -342,6 +342,10 @@ static void cgen_partition_jobs(unit_list_t *units, workq_t *wq,
 
 static void cgen_native(ident_t name, jit_t *jit, unit_list_t *units)
 {
+   // Functions that ran often during elaboration may still be being
+   // compiled by the JIT in the background
+   async_barrier();
+
    workq_t *wq = workq_new(jit);
 
    obj_list_t objs = AINIT;
-- 
2.43.0


From 5e821c5b80a741d6002bcde20132127a703c2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 13/58] fix: array types that differ only in their element
 bounds were merged

---
 src/vcode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcode.c b/src/vcode.c
index ebd611f..2375e9a 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -2438,6 +2438,13 @@ static vcode_type_t vtype_new(vtype_t *new)
    for (int i = 0; i < index; i++) {
       vcode_type_t this = MAKE_HANDLE(active_unit->depth, i);
       if (vtype_eq(this, type)) {
+         // Array types which differ only in their bounds compare equal
+         // but must not be merged
+         if (new->kind == VCODE_TYPE_CARRAY || new->kind == VCODE_TYPE_UARRAY) {
+            if (!vtype_eq(vtype_bounds(this), new->bounds))
+               continue;
+         }
+
          active_unit->types.count--;
          return this;
       }
-- 
2.43.0


From 9723fbff05b08622bb757d2ee46b1e6417e928dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 14/58] fix: exponent was assumed to lie in the range of the
 type of the base

---
 src/lower.c        | 2 +-
 src/mir/mir-node.c | 3 ++-
 src/vcode.c        | 5 ++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 08e0226..6513574 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -2143,7 +2143,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
             emit_exponent_check(r1, locus);
          }
 
-         if (!type_eq(r0_type, r1_type))
+         else if (!type_eq(r0_type, r1_type))
             r1 = emit_cast(lower_type(r0_type), lower_bounds(r0_type), r1);
 
          return lower_arith(fcall, S_EXP, r0, r1);
diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 3a0f081..bafbc42 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -981,7 +981,8 @@ static mir_value_t mir_build_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
 #endif
 
    MIR_ASSERT(mir_is_null(ltype) || mir_is_null(rtype)
-              || mir_equals(ltype, rtype),
+              || mir_equals(ltype, rtype)
+              || (op == MIR_OP_TRAP_EXP && mir_is_integral(mu, right)),
               "arguments to %s are not the same type", mir_op_string(op));
    MIR_ASSERT(mir_is_null(locus) || mir_is(mu, locus, MIR_TYPE_LOCUS),
               "locus argument to %s is not a locus", mir_op_string(op));
diff --git a/src/vcode.c b/src/vcode.c
index 2375e9a..14ad49c 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3874,7 +3874,10 @@ static vcode_reg_t emit_arith(vcode_op_t kind, vcode_reg_t lhs, vcode_reg_t rhs,
    vcode_type_t lhs_type = vcode_reg_type(lhs);
    vcode_type_t rhs_type = vcode_reg_type(rhs);
 
-   VCODE_ASSERT(vtype_eq(lhs_type, rhs_type),
+   // The exponent need not have the type of the base
+   VCODE_ASSERT(vtype_eq(lhs_type, rhs_type)
+                || (kind == VCODE_OP_TRAP_EXP
+                    && vtype_kind(rhs_type) == VCODE_TYPE_INT),
                 "arguments to %s are not the same type", vcode_op_string(kind));
 
    return op->result;
-- 
2.43.0


From 6b4d79e6594eb9cb0d31b2ce48fbac42049ba992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 15/58] fix: bounds of concatenations whose index type does not
 include zero

The number of elements less one was clamped to the bounds of the index type
and was always added to the left bound even for descending index subtypes.
---
 src/lower.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 6513574..4d14cbd 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3686,13 +3686,33 @@ static vcode_reg_t lower_aggregate_bounds(lower_unit_t *lu, tree_t expr,
       if (length_reg != VCODE_INVALID_REG) {
          vcode_type_t vindex = lower_type(index_type);
          vcode_reg_t delta_reg = emit_sub(length_reg, emit_const(voffset, 1));
-         vcode_reg_t cast_reg = emit_cast(vindex, vindex, delta_reg);
+
+         // The distance between the bounds might not be a value of a user
+         // defined index type in which case do the arithmetic with offsets
+         const bool wide =
+            vtype_low(vindex) < 0 && vtype_high(vindex) >= INT32_MAX;
+         vcode_type_t vdelta = wide ? vindex : voffset;
+
+         vcode_reg_t cast_reg = emit_cast(vdelta, vdelta, delta_reg);
 
          vcode_reg_t index_right_reg;
          lower_get_scalar_type_bounds(lu, index_type, &left_reg,
                                       &index_right_reg, &dir_reg);
 
-         right_reg = emit_add(left_reg, cast_reg);
+         vcode_reg_t base_reg = emit_cast(vdelta, vdelta, left_reg);
+
+         int64_t dir_const;
+         if (!vcode_reg_const(dir_reg, &dir_const)) {
+            vcode_reg_t down_reg = emit_sub(base_reg, cast_reg);
+            vcode_reg_t up_reg = emit_add(base_reg, cast_reg);
+            right_reg = emit_select(dir_reg, down_reg, up_reg);
+         }
+         else if (dir_const == RANGE_DOWNTO)
+            right_reg = emit_sub(base_reg, cast_reg);
+         else
+            right_reg = emit_add(base_reg, cast_reg);
+
+         right_reg = emit_cast(vindex, vindex, right_reg);
       }
    }
 
-- 
2.43.0


From 0cedc73ce732e07612726607fc2fe8f219c839cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 16/58] fix: qualified expressions did not check the value
 belongs to the subtype

---
 src/lower.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 4d14cbd..afd5095 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5073,10 +5073,19 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(to_type))
+   if (type_is_array(to_type)) {
+      if (!type_is_unconstrained(to_type)) {
+         vcode_reg_t locus = lower_debug_locus(value);
+         lower_check_array_sizes(lu, to_type, from_type, VCODE_INVALID_REG,
+                                 value_reg, locus);
+      }
+
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
-      return value_reg;
+   }
+   else if (type_is_scalar(to_type))
+      lower_check_scalar_bounds(lu, value_reg, to_type, value, NULL);
+
+   return value_reg;
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From d2584984004e4f1263cf7c8e282d67c0102ee7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 17/58] fix: return values were not checked against the result
 subtype

---
 src/lower.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index afd5095..ccbf330 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6404,20 +6404,27 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
 
    if (tree_has_value(stmt)) {
       tree_t value = tree_value(stmt);
-      type_t type = tree_type(value);
+      type_t type = tree_type(value), result = tree_type(stmt);
 
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, result, value, NULL);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
          emit_return(lower_incomplete_access(value_reg, access));
       }
-      else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
+      else if (type_is_array(type)) {
+         if (!type_is_unconstrained(result)) {
+            vcode_reg_t locus = lower_debug_locus(value);
+            lower_check_array_sizes(lu, result, type, VCODE_INVALID_REG,
+                                    value_reg, locus);
+         }
+
+         emit_return(lower_coerce_arrays(lu, type, result, value_reg));
+      }
       else
          emit_return(value_reg);
    }
-- 
2.43.0


From 97241d7ef9d42baf29a560b471928452e01af199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 18/58] fix: negative elements of folded constant arrays were
 zero extended

---
 src/eval.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 6f5ffba..3caa495 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -131,6 +131,15 @@ static void *thunk_result_cb(jit_scalar_t *args, void *user)
       }
 
       const int bytes = (type_bit_width(elem) + 7) / 8;
+
+      int sext = 0;
+      if (type_is_integer(base) || type_is_physical(base)) {
+         int64_t low, high;
+         range_bounds(range_of(base, 0), &low, &high);
+         if (low < 0)
+            sext = 64 - bytes * 8;
+      }
+
       tree_t *elts LOCAL = xmalloc_array(length, sizeof(tree_t));
       for (int i = 0; i < length; i++) {
 #define UNPACK_VALUE(type) do {                                    \
@@ -140,6 +149,10 @@ static void *thunk_result_cb(jit_scalar_t *args, void *user)
          jit_scalar_t value = { .integer = 0 };
          FOR_ALL_SIZES(bytes, UNPACK_VALUE);
 
+         // Values of types with negative bounds are stored sign extended
+         if (sext > 0)
+            value.integer = (int64_t)((uint64_t)value.integer << sext) >> sext;
+
          if (lits != NULL) {
             assert(value.integer >= 0);
 
-- 
2.43.0


From 3ac6db8d145f6a2455664bac81115972f564640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 19/58] fix: crash on constant folded to a null array aggregate

---
 src/lower.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index ccbf330..32f2bf7 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3569,6 +3569,9 @@ static bool lower_can_use_const_rep(tree_t expr, int *length, tree_t *elem)
          type_t type = tree_type(expr);
          assert(type_const_bounds(type));
 
+         if (tree_assocs(expr) == 0)
+            return false;   // Null array from constant folding
+
          tree_t a0 = tree_assoc(expr, 0);
          if (tree_subkind(a0) != A_OTHERS)
             return false;
-- 
2.43.0


From 218608f266ca72b85a76c3178c32892c9263f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 20/58] fix: aggregate with a range choice could loop forever

The type of the range can be the subtype of its left bound alone.
---
 src/lower.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 32f2bf7..766ff8d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4139,10 +4139,11 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
             emit_index_check(r_right_reg, left_reg, right_reg, dir_reg,
                              locus, locus);
 
-            vcode_type_t vtype   = lower_type(rtype);
-            vcode_type_t vbounds = lower_bounds(rtype);
+            // The type of the range may be a subtype that only includes
+            // its left bound so do not use it for the bounds
+            vcode_type_t vtype = lower_type(rtype);
 
-            tmp_var = lower_temp_var(lu, "i", vtype, vbounds);
+            tmp_var = lower_temp_var(lu, "i", vtype, vtype);
             emit_store(r_left_reg, tmp_var);
 
             vcode_reg_t null_reg =
-- 
2.43.0


From fd9f69fd3fab51d38b27cfd67b8cd25b30ce5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 21/58] fix: predefined SLA and SRA replicated the wrong
 element

---
 src/vhdl/vhdl-predef.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..0b81144 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,35 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SRA: case S_SLA:
       {
+         // A right shift replicates the leftmost element and a left
+         // shift the rightmost: a negative count reverses the direction
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
          mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t last = mir_build_load(mu, last_ptr);
+         mir_value_t first = mir_build_load(mu, data);
+
+         if (kind == S_SRA)
+            def_val = mir_build_select(mu, elem->type, shift_is_neg, last,
+                                       first);
+         else
+            def_val = mir_build_select(mu, elem->type, shift_is_neg, first,
+                                       last);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From a89fad5eda5d5dedd8ec28c5e1bfc97558ae6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 22/58] fix: analysis failed when a converted aggregate had a
 non-static choice

---
 src/eval.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 3caa495..8b9b20a 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -382,10 +382,35 @@ bool eval_possible(tree_t t, unit_registry_t *ur, mir_context_t *mc)
 
    case T_AGGREGATE:
       {
+         const bool is_array = type_is_array(tree_type(t));
          const int nassocs = tree_assocs(t);
          for (int i = 0; i < nassocs; i++) {
-            if (!eval_possible(tree_value(tree_assoc(t, i)), ur, mc))
+            tree_t a = tree_assoc(t, i);
+            if (!eval_possible(tree_value(a), ur, mc))
                return false;
+            else if (!is_array)
+               continue;
+
+            switch (tree_subkind(a)) {
+            case A_NAMED:
+               if (!eval_possible(tree_name(a), ur, mc))
+                  return false;
+               break;
+            case A_RANGE:
+            case A_SLICE:
+               {
+                  tree_t r = tree_range(a, 0);
+                  switch (tree_subkind(r)) {
+                  case RANGE_TO:
+                  case RANGE_DOWNTO:
+                     if (!eval_possible(tree_left(r), ur, mc)
+                         || !eval_possible(tree_right(r), ur, mc))
+                        return false;
+                     break;
+                  }
+               }
+               break;
+            }
          }
 
          // Check for missing choices in constrained array aggregates
-- 
2.43.0


From c742b561bee9b045fb643f96f9a21b81f62ce212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 23/58] fix: named aggregates with non-literal choices ignored
 the direction of their context

---
 src/names.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/names.c b/src/names.c
index ed62fff..520e2fd 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4716,6 +4716,17 @@ static type_t solve_array_aggregate(nametab_t *tab, tree_t agg, type_t type)
 
    type_t sub = calculate_aggregate_subtype(agg);
    if (sub == NULL) {
+      if (!type_is_unconstrained(type)) {
+         // The direction is that of the subtype given by the context: do
+         // not lose it when the choices cannot be folded yet
+         range_kind_t cdir = tree_subkind(range_of(type, 0));
+         type_t index_type = index_type_of(type, 0);
+         if (nassocs > 1 && index_type != NULL && !type_is_none(index_type)
+             && cdir == RANGE_DOWNTO
+             && tree_subkind(range_of(index_type, 0)) == RANGE_TO)
+            return type;
+      }
+
       sub = type_new(T_SUBTYPE);
       type_set_base(sub, type_base_recur(type));
       type_set_elem(sub, type_elem(type));
-- 
2.43.0


From 6d4200d705107c928369474d27fc8c3f26907540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 24/58] fix: ordering comparison of two null arrays

---
 src/lower.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 766ff8d..a671f79 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10359,7 +10359,16 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
       vcode_block_t check_r_len_bb = emit_block();
 
       vcode_reg_t len_ge_l = emit_cmp(VCODE_CMP_GEQ, i_loaded, left_len);
-      emit_cond(len_ge_l, exit_bb, check_r_len_bb);
+      if (pred == VCODE_CMP_LT) {
+         // Two null arrays are equal
+         vcode_block_t end_bb = emit_block();
+         emit_cond(len_ge_l, end_bb, check_r_len_bb);
+
+         vcode_select_block(end_bb);
+         emit_cond(len_eq, fail_bb, exit_bb);
+      }
+      else
+         emit_cond(len_ge_l, exit_bb, check_r_len_bb);
 
       vcode_select_block(check_r_len_bb);
 
-- 
2.43.0


From aa9b93ebf8216871014aef6bf1eaae6188d8cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 25/58] fix: concatenation of two null arrays was rejected

---
 src/bounds.c |  5 ++++-
 src/common.c | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index fca65d2..cc282c3 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -688,6 +688,9 @@ static void bounds_check_aggregate(tree_t t)
 
       case A_POS:
       case A_CONCAT:
+         if (count == 0)
+            continue;   // Null array contributes no elements
+
          if (dir == RANGE_TO) {
             ilow = low + next_pos;
             ihigh = ilow + count - 1;
@@ -722,7 +725,7 @@ static void bounds_check_aggregate(tree_t t)
          bounds_cover_choice(&covered, a, index_type, ilow, ihigh);
    }
 
-   if (known_elem_count)
+   if (known_elem_count && clow <= chigh)
       bounds_check_missing_choices(t, type, index_type, dir, clow, chigh,
                                    covered);
 
diff --git a/src/common.c b/src/common.c
index 1e5df95..093db23 100644
--- a/src/common.c
+++ b/src/common.c
@@ -2793,10 +2793,16 @@ bool calculate_aggregate_bounds(tree_t expr, range_kind_t *kind,
             else if (folded_length(range_of(value_type, 0), &length)) {
                if (i == 0) {
                   int64_t ileft;
-                  if (folded_int(tree_left(base_r), &ileft))
-                     ilow = ihigh = ileft;
-                  else
+                  if (!folded_int(tree_left(base_r), &ileft))
                      return false;
+                  else if (dir == RANGE_TO) {
+                     ilow = ileft;
+                     ihigh = ileft + length - 1;
+                  }
+                  else {
+                     ihigh = ileft;
+                     ilow = ileft - length + 1;
+                  }
                }
                else if (dir == RANGE_TO) {
                   ilow = clow + pos;
@@ -2818,8 +2824,8 @@ bool calculate_aggregate_bounds(tree_t expr, range_kind_t *kind,
       chigh = MAX(chigh, ihigh);
    }
 
-   if (clow < low || chigh > high)
-      return false;   // Will raise a bounds check error later
+   if (clow < low || chigh > high || clow > chigh)
+      return false;   // Null or will raise a bounds check error later
 
    *kind = dir;
    *left = dir == RANGE_TO ? clow : chigh;
-- 
2.43.0


From a4379eae0a503a0ad4c9de42fc8641cb5269198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 26/58] fix: analysis failed when converting a constant with
 non-static bounds

---
 src/eval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 8b9b20a..acc6359 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -356,7 +356,11 @@ bool eval_possible(tree_t t, unit_registry_t *ur, mir_context_t *mc)
             return true;
 
          case T_CONST_DECL:
-            if (tree_has_value(decl))
+            if (type_is_array(tree_type(decl))
+                && !type_is_unconstrained(tree_type(decl))
+                && !type_const_bounds(tree_type(decl)))
+               return eval_not_possible(t, "non-static constant bounds");
+            else if (tree_has_value(decl))
                return eval_possible(tree_value(decl), ur, mc);
             else
                return false;
-- 
2.43.0


From 29531e27109ac853c4b2e59a29b1b40217a9f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 27/58] fix: initial value of S'DELAYED is the initial value of
 S

---
 src/lower.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index a671f79..ecdd1dc 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8243,8 +8243,9 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
    case IMPLICIT_DELAYED:
       {
+         // The initial value of S'DELAYED is the initial value of S
          vcode_reg_t init_reg =
-            lower_default_value(parent, type, VCODE_INVALID_REG);
+            lower_rvalue(parent, tree_value(tree_value(decl)));
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
-- 
2.43.0


From d5ec0c7be6dc23b60d5c7cf1ee5bffbfa9b17eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 28/58] fix: default delay mechanism lost in selected signal
 assignment

---
 src/parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 77b973c..4c86271 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -10926,10 +10926,9 @@ static void p_selected_waveforms(tree_t stmt, tree_t target, tree_t reject)
    do {
       tree_t a = tree_new(T_SIGNAL_ASSIGN);
       tree_set_target(a, target);
-      if (reject != NULL)
-         tree_set_reject(a, reject);
 
       p_waveform(a, target);
+      set_delay_mechanism(a, reject);
 
       sem_check(a, nametab);
 
-- 
2.43.0


From 2285f48117e8a6856102c44994bae2656cb8763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 29/58] fix: pulse rejection compared uninitialised bytes of
 small values

---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..5b3ca48 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1152,8 +1152,10 @@ static void copy_value_ptr(rt_nexus_t *n, rt_value_t *v, const void *p)
 static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
-   if (valuesz <= sizeof(rt_value_t))
+   if (valuesz == sizeof(rt_value_t))
       return a.qword == b.qword;
+   else if (valuesz < sizeof(rt_value_t))
+      return cmp_bytes(a.bytes, b.bytes, valuesz);  // Rest may be garbage
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From aa3bed5aa9c04f3570954673db9f09d6038a14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 30/58] fix: splitting a signal lost some of its implicit
 signals

---
 src/rt/model.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 5b3ca48..9512dc7 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1610,11 +1610,17 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          new->outputs = old_o;
          add_conversion_input(m, old_o->u.port.conv_func, new);
       }
+      else if (old_o->tag == SOURCE_IMPLICIT) {
+         // Both nexuses must update the implicit signal
+         rt_source_t *s =
+            add_source(m, old_o->u.pseudo.nexus, SOURCE_IMPLICIT);
+         s->u.port.input = new;
+         s->chain_output = new->outputs;
+         new->outputs = s;
+      }
       else {
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
-- 
2.43.0


From 52909e8d27d9247ec0775735268c803e9bf028a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 31/58] fix: no signal has an event during initialisation

---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9512dc7..2ded638 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2448,6 +2448,12 @@ void model_reset(rt_model_t *m)
       calculate_effective_value(m, n);
    }
 
+   // There are no events during initialisation
+   for (rt_nexus_t *n = m->nexuses; n != NULL; n = n->chain) {
+      memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
+      n->last_event = TIME_HIGH;
+   }
+
    tlab_reset(thread->tlab);   // No allocations can be live past here
 
    global_event(m, RT_END_OF_INITIALISATION);
-- 
2.43.0


From 14e5a32d5a8b89f5e6135282ec8e7626ab4b7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 32/58] fix: pulse rejection algorithm with several pending
 transactions

---
 src/rt/model.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 2ded638..203a1b8 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2579,24 +2579,30 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       uint64_t when, uint64_t reject)
 {
    waveform_t *last = &(source->u.driver.waveforms);
+   waveform_t *keep = last;
    waveform_t *it   = last->next;
    while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
       assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
-      }
-      else {
-         last = it;
-         it = it->next;
+      if (it->when < when - reject)
+         keep = it;   // Not within the pulse rejection interval
+      else if (!cmp_values(nexus, it->value, w->value)) {
+         // The value is different to that of the new transaction: delete
+         // this and all earlier transactions within the pulse rejection
+         // interval (LRM 08 section 10.5.2.2)
+         waveform_t *stop = it->next;
+         for (waveform_t *d = keep->next, *next; d != stop; d = next) {
+            next = d->next;
+            free_value(nexus, d->value);
+            free_waveform(m, d);
+         }
+         keep->next = stop;
+         last = keep;
+         it = stop;
+         continue;
       }
+
+      last = it;
+      it = it->next;
    }
    last->next = w;
 
-- 
2.43.0


From fe7fd6af15f3b74b9b1ec7e3f1711bbcf311951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 33/58] fix: S'ACTIVE after zero-delay assignments in the same
 cycle

---
 src/rt/model.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 203a1b8..449ff08 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2629,9 +2629,18 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       assert(n->n_sources == 1);
 
       waveform_t *w = &d->u.driver.waveforms;
-      w->when = m->now;
       assert(w->next == NULL);
 
+      // Is the signal active in the current cycle?
+      const bool active = w->when == m->now
+         && (n->active_delta == m->iteration
+             || (n->active_delta == m->iteration + 1 && d->was_active));
+
+      if (!active)
+         n->active_delta = DELTA_CYCLE_MAX;   // May be from another time step
+
+      w->when = m->now;
+
       rt_signal_t *signal = n->signal;
       rt_source_t *d0 = &(signal->nexus.sources);
 
@@ -2643,7 +2652,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       }
       else if (cmp_bytes(value, value_ptr(n, &w->value), n->width * n->size)) {
          m->next_is_delta = true;
-         d->was_active = (n->active_delta == m->iteration);
+         d->was_active = active;
          n->active_delta = m->iteration + 1;
          return;
       }
@@ -2665,7 +2674,13 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       rt_source_t *d = find_driver(n, proc);
       assert(d != NULL);
 
-      if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
+      // A fast update that does not change the value may also be pending
+      const bool same_value = (n->flags & NET_F_FAST_DRIVER)
+         && !d->fastqueued
+         && d->u.driver.waveforms.when == m->now
+         && n->active_delta == m->iteration + 1;
+
+      if (same_value || ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued)) {
          // A fast update to this driver is already scheduled
          waveform_t *w0 = alloc_waveform(m);
          w0->when  = m->now;
@@ -2677,6 +2692,11 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
 
          assert(d->u.driver.waveforms.next == NULL);
          d->u.driver.waveforms.next = w0;
+
+         if (same_value) {
+            n->active_delta = d->was_active ? m->iteration : DELTA_CYCLE_MAX;
+            deltaq_insert_driver(m, 0, d);
+         }
       }
 
       n->flags &= ~NET_F_FAST_DRIVER;
-- 
2.43.0


From 4b2ccad2779713c99bdd6d288cf33852eccf149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 34/58] fix: overlapping choices were missed or wrongly
 reported

---
 src/bounds.c | 58 +++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index cc282c3..8058485 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -420,14 +420,26 @@ static void bounds_check_array_slice(tree_t t)
 static void bounds_cover_choice(interval_t **isp, tree_t t, type_t type,
                                 int64_t low, int64_t high)
 {
-   interval_t *it, *prev;
-   for (it = *isp, prev = NULL;
-        (it != NULL) && (it->low <= high);
-        prev = it, it = it->next) {
-
-      if ((low <= it->high) && (it->low <= high)) {
-         const int64_t rlow  = MAX(low, it->low);
-         const int64_t rhigh = MIN(high, it->high);
+   if (low > high)
+      return;   // Null range covers no values
+
+   // The list is sorted and adjacent intervals are always merged
+   interval_t **p = isp;
+   while (*p != NULL && (*p)->high < low && (*p)->high + 1 != low)
+      p = &((*p)->next);
+
+   interval_t *new = xmalloc(sizeof(interval_t));
+   new->low  = low;
+   new->high = high;
+
+   bool reported = false;
+   for (interval_t *it = *p, *next; it != NULL; it = next) {
+      if (it->low > high && it->low - 1 != high)
+         break;
+
+      const int64_t rlow  = MAX(low, it->low);
+      const int64_t rhigh = MIN(high, it->high);
+      if (rlow <= rhigh && !reported) {
          if (type_is_integer(type)) {
             if (rlow == rhigh)
                bounds_error(t, "value %"PRIi64" is already covered", rlow);
@@ -445,32 +457,18 @@ static void bounds_cover_choice(interval_t **isp, tree_t t, type_t type,
                             istr(tree_ident(type_enum_literal(base, rlow))),
                             istr(tree_ident(type_enum_literal(base, rhigh))));
          }
-         it->low = MIN(low, it->low);
-         it->high = MAX(high, it->high);
-         return;
-      }
-      else if (high == it->low - 1) {
-         it->low = low;
-         return;
+         reported = true;
       }
-      else if (low == it->high + 1) {
-         it->high = high;
-         return;
-      }
-   }
 
-   interval_t *new = xmalloc(sizeof(interval_t));
-   new->low  = low;
-   new->high = high;
+      new->low  = MIN(new->low, it->low);
+      new->high = MAX(new->high, it->high);
 
-   if ((*isp == NULL) || (prev == NULL)) {
-      new->next = *isp;
-      *isp = new;
-   }
-   else {
-      new->next = prev->next;
-      prev->next = new;
+      next = *p = it->next;
+      free(it);
    }
+
+   new->next = *p;
+   *p = new;
 }
 
 static void report_interval(diag_t *d, type_t type, range_kind_t dir,
-- 
2.43.0


From 50bba7d239b2cd2c2e5c635d8c29afb863dc7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 35/58] fix: fold 'VAL, 'SUCC and 'PRED of enumerations in case
 choices

---
 src/simp.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/simp.c b/src/simp.c
index 35c759a..459b064 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -495,6 +495,34 @@ static tree_t simp_attr_ref(tree_t t, simp_ctx_t *ctx)
       }
       break;
 
+   case ATTR_VAL:
+   case ATTR_SUCC:
+   case ATTR_PRED:
+      {
+         // These are locally static if the parameter is so must be
+         // folded when used in a case choice or range
+         type_t type = tree_type(t);
+         if (!type_is_enum(type))
+            break;
+
+         tree_t r = range_of(predef == ATTR_VAL ? type : type_base_recur(type),
+                             0);
+
+         int64_t pos, low, high;
+         if (!folded_int(tree_value(tree_param(t, 0)), &pos)
+             || !folded_bounds(r, &low, &high))
+            break;
+
+         if (predef == ATTR_SUCC)
+            pos++;
+         else if (predef == ATTR_PRED)
+            pos--;
+
+         if (pos >= low && pos <= high)
+            return get_enum_lit(t, type, pos);
+      }
+      break;
+
    case ATTR_LENGTH:
    case ATTR_LEFT:
    case ATTR_LOW:
-- 
2.43.0


From b3a466156dd997d0b4d8677d699c18df93e7ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 36/58] fix: crash on duplicate record aggregate choice after
 positional

---
 src/sem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sem.c b/src/sem.c
index cf8ba95..d38edb3 100644
--- a/src/sem.c
+++ b/src/sem.c
@@ -3813,9 +3813,11 @@ static bool sem_check_record_aggregate(tree_t t, nametab_t *tab)
             tree_t ak = NULL;
             for (int k = 0; k < i; k++) {
                ak = tree_assoc(t, k);
-               if (tree_subkind(ak) == A_POS && tree_pos(ak) == j)
+               const assoc_kind_t akind = tree_subkind(ak);
+               if (akind == A_POS && tree_pos(ak) == j)
                   break;
-               else if (tree_pos(tree_ref(tree_name(ak))) == j)
+               else if (akind == A_NAMED
+                        && tree_pos(tree_ref(tree_name(ak))) == j)
                   break;
             }
             assert(ak != NULL);
-- 
2.43.0


From f1f9a36f3290ff20c760f59a7163d65dc1d5b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 37/58] fix: --stop-delta returns failure only when the
 iteration limit was reached

---
 src/rt/model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 449ff08..a3cf9e9 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3707,8 +3707,9 @@ int model_exit_status(rt_model_t *m)
    int status;
    if (jit_exit_status(m->jit, &status))
       return status;
-   else if (m->stop_delta > 0 && m->iteration == m->stop_delta)
-      return EXIT_FAILURE;
+   else if (m->stop_delta > 0 && m->iteration == m->stop_delta
+            && m->next_is_delta)
+      return EXIT_FAILURE;   // Iteration limit reached
    else
       return get_vhdl_assert_exit_status();
 }
-- 
2.43.0


From c3c207049924ea6df459b7f94c0dcc021cbdc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 38/58] fix: dump every element of non-vector arrays, negative
 physical values and aliased ports correctly

---
 src/rt/wave.c | 111 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 72 insertions(+), 39 deletions(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index 71766a9..d8bde37 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -203,25 +203,33 @@ static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 
 static void fst_fmt_real(rt_watch_t *w, fst_data_t *data)
 {
-   const void *buf = signal_value(data->signal);
-   fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[0], buf);
+   const double *p = signal_value(data->signal);
+   for (int i = 0; i < data->count; i++)
+      fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i], p + i);
 }
 
 static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   uint64_t val[data->count];
+   signal_expand(data->signal, val, data->count);
 
-   fst_unit_t *unit = data->type->u.units;
-   while ((val % unit->mult) != 0)
-      ++unit;
+   // The values are signed but signal_expand does not sign-extend
+   const int shift = 64 - 8 * signal_size(data->signal);
+
+   for (int i = 0; i < data->count; i++) {
+      const int64_t sval = (int64_t)(val[i] << shift) >> shift;
 
-   char buf[128];
-   checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
-                   val / unit->mult, unit->name);
+      fst_unit_t *unit = data->type->u.units;
+      while ((sval % unit->mult) != 0)
+         ++unit;
 
-   fstWriterEmitVariableLengthValueChange(
-      data->dumper->fst_ctx, data->handle[0], buf, strlen(buf));
+      char buf[128];
+      checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
+                      sval / unit->mult, unit->name);
+
+      fstWriterEmitVariableLengthValueChange(
+         data->dumper->fst_ctx, data->handle[i], buf, strlen(buf));
+   }
 }
 
 static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
@@ -243,17 +251,20 @@ static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
 #if !USE_FST_ENUMS
 static void fst_fmt_enum(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   uint64_t val[data->count];
+   signal_expand(data->signal, val, data->count);
 
    fst_enum_t *e = &(data->type->u.literals);
-   assert(val < e->count);
 
-   const char *literal = e->strings + val * e->size;
-   fstWriterEmitVariableLengthValueChange(data->dumper->fst_ctx,
-                                          data->handle[0],
-                                          literal,
-                                          strnlen(literal, e->size));
+   for (int i = 0; i < data->count; i++) {
+      assert(val[i] < e->count);
+
+      const char *literal = e->strings + val[i] * e->size;
+      fstWriterEmitVariableLengthValueChange(data->dumper->fst_ctx,
+                                             data->handle[i],
+                                             literal,
+                                             strnlen(literal, e->size));
+   }
 }
 #endif
 
@@ -410,6 +421,8 @@ static fst_type_t *fst_type_for(wave_dumper_t *wd, type_t type,
          for (int i = 0; i < nlits; i++) {
             char *p = ft->u.literals.strings + i*maxsize;
             strncpy(p, istr(tree_ident(type_enum_literal(type, i))), maxsize);
+            if (*p == '\'' || *p == '\\')
+               continue;   // Case is significant
             for (; *p; p++)
                *p = tolower_iso88591(*p);
          }
@@ -559,9 +572,13 @@ static fstHandle fst_create_handle(wave_dumper_t *wd, fst_data_t *data,
 
 static void fst_create_memory(wave_dumper_t *wd, fst_data_t *data, int *pos,
                               const fst_dim_t *dims, int ndims, int curdim,
-                              enum fstVarDir vd, type_t type, text_buf_t *tb)
+                              bool vector, enum fstVarDir vd, type_t type, text_buf_t *tb)
 {
-   if (curdim == ndims - 1) {
+   if (curdim == ndims) {
+      data->handle[(*pos)++] = fst_create_handle(wd, data, tb_get(tb),
+                                                 vd, type, 0);
+   }
+   else if (vector && curdim == ndims - 1) {
       tb_printf(tb, "[%"PRIi64":%"PRIi64"]",
                 dims[curdim].msb, dims[curdim].lsb);
 
@@ -577,12 +594,13 @@ static void fst_create_memory(wave_dumper_t *wd, fst_data_t *data, int *pos,
          tb_printf(tb, "[%"PRIi64"]",
                    dims[curdim].msb + (dims[curdim].dir == RANGE_TO ? i : -i));
          fst_create_memory(wd, data, pos, dims, ndims, curdim + 1,
-                           vd, elem, tb);
+                           vector, vd, elem, tb);
       }
    }
 }
 
-static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
+static void fst_create_array_var(wave_dumper_t *wd, tree_t d,
+                                 rt_scope_t *scope, rt_signal_t *s,
                                  type_t type, text_buf_t *tb)
 {
    enum fstVarDir vd = FST_VD_IMPLICIT;
@@ -597,8 +615,7 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
    int64_t left, right, length;
    range_kind_t dir;
-   fst_get_array_range(wd, type, s->parent, s->where, 0, &left, &right,
-                       &dir, &length);
+   fst_get_array_range(wd, type, scope, d, 0, &left, &right, &dir, &length);
 
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
@@ -608,11 +625,13 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
    fst_data_t *data;
 
    type_t elem = type_elem(type);
+   fst_type_t *ft = NULL;
    if (type_is_enum(elem)) {
-      fst_type_t *ft = fst_type_for(wd, type, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, type, tree_loc(d))) == NULL)
          return;
+   }
 
+   if (ft != NULL && ft->fn == fst_fmt_chars) {
       data = xcalloc(sizeof(fst_data_t) + sizeof(fstHandle));
       data->type  = ft;
       data->size  = length * ft->size;
@@ -627,11 +646,14 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
       return;   // Dumping memories and nested arrays can be slow
    else if (type_is_record(elem))
       return;   // Not yet supported
+   else if ((ft = fst_type_for(wd, type, tree_loc(d))) == NULL)
+      return;   // Warned about unsupported type
    else if (type_is_array(elem)) {
-      fst_type_t *ft = fst_type_for(wd, elem, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, elem, tree_loc(d))) == NULL)
          return;
 
+      const bool vector = (ft->fn == fst_fmt_chars);
+
       SCOPED_A(fst_dim_t) dims = AINIT;
 
       fst_dim_t dim0 = { length, left, right, dir };
@@ -644,13 +666,19 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
          fst_dim_t dim;
          assert(dimension_of(e) == 1);
-         fst_get_array_range(wd, e, s->parent, s->where, dims.count,
+         fst_get_array_range(wd, e, scope, d, dims.count,
                              &dim.msb, &dim.lsb, &dim.dir, &dim.length);
 
          APUSH(dims, dim);
          e_length = dim.length;
       }
 
+      if (!vector) {
+         // Each element has its own handle
+         length *= e_length;
+         e_length = 1;
+      }
+
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
       data->count = length;
       data->size  = e_length * ft->size;
@@ -662,15 +690,14 @@ static void fst_create_array_var(wave_dumper_t *wd, tree_t d, rt_signal_t *s,
 
       int pos = 0;
       fst_create_memory(wd, data, &pos, dims.items, dims.count, 0,
-                        vd, type, tb);
+                        vector, vd, type, tb);
       fflush(stdout);
       assert(pos == length);
 
       fstWriterSetAttrEnd(wd->fst_ctx);
    }
    else {
-      fst_type_t *ft = fst_type_for(wd, elem, tree_loc(d));
-      if (ft == NULL)
+      if ((ft = fst_type_for(wd, elem, tree_loc(d))) == NULL)
          return;
 
       data = xcalloc_flex(sizeof(fst_data_t), length, sizeof(fstHandle));
@@ -849,15 +876,21 @@ static void fst_alias_var(wave_dumper_t *wd, tree_t d, rt_scope_t *scope,
                           rt_signal_t *s, text_buf_t *tb)
 {
    rt_watch_t *w = find_watch(&(s->nexus), fst_event_cb);
-   if (w == NULL)
-      return;   // Did not dump the primary signal
+   type_t type = tree_type(d);
+
+   if (w == NULL) {
+      // Did not dump the primary signal
+      if (type_is_array(type))
+         fst_create_array_var(wd, d, scope, s, type, tb);
+      else
+         fst_create_scalar_var(wd, d, s, type, tb);
+      return;
+   }
 
    fst_data_t *data = w->user_data;
    if (data->count != 1)
       return;   // Cannot handle for now
 
-   type_t type = tree_type(d);
-
    tb_rewind(tb);
    tb_istr(tb, tree_ident(d));
    if (type_is_array(type)) {
@@ -894,7 +927,7 @@ static void fst_process_signal(wave_dumper_t *wd, rt_scope_t *scope, tree_t d,
       else if (s->where != d)
          fst_alias_var(wd, d, scope, s, tb);  // Collapsed with another signal
       else if (type_is_array(type))
-         fst_create_array_var(wd, d, s, type, tb);
+         fst_create_array_var(wd, d, scope, s, type, tb);
       else
          fst_create_scalar_var(wd, d, s, type, tb);
    }
-- 
2.43.0


From 85e7446533818d52c307e19a764eb67eb870050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 39/58] fix: '*' in a name pattern also matches zero characters

---
 src/ident.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ident.c b/src/ident.c
index 5d6b08c..b37eb77 100644
--- a/src/ident.c
+++ b/src/ident.c
@@ -624,13 +624,13 @@ int ident_compare(ident_t a, ident_t b)
 
 static bool ident_glob_walk(const char *str, const char *g)
 {
-   if (*str == '\0')
+   if (*g == '*')
+      return ident_glob_walk(str, g + 1)
+         || (*str != '\0' && ident_glob_walk(str + 1, g));
+   else if (*str == '\0')
       return *g == '\0';
    else if (*g == '\0')
       return false;
-   else if (*g == '*')
-      return ident_glob_walk(str + 1, g)
-         || ident_glob_walk(str + 1, g + 1);
    else if (*str == *g)
       return ident_glob_walk(str + 1, g + 1);
    else
-- 
2.43.0


From 2249ae082c7e5dd731ccaa2ea4f31230d13500ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 40/58] fix: honour waveform include and exclude files when
 running without a top-level name

---
 src/nvc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvc.c b/src/nvc.c
index 7c9f548..d73ba4c 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -924,7 +924,7 @@ static int run_cmd(int argc, char **argv, cmd_state_t *state)
          gtkw_fname = tmp2;
       }
 
-      wave_include_file(argv[optind]);
+      wave_include_file(state->top_level_arg);
       dumper = wave_dumper_new(wave_fname, gtkw_fname, top, wave_fmt);
    }
    else if (gtkw_fname != NULL)
-- 
2.43.0


From 2fda8d95bcf6581cd496fcfbfbdc041a5f347c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 41/58] fix: keep negative generate indexes in path names

---
 src/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 093db23..cf0a6e8 100644
--- a/src/common.c
+++ b/src/common.c
@@ -2671,7 +2671,8 @@ void instance_name_to_path(text_buf_t *tb, const char *str)
 {
    bool delete = false;
    for (const char *p = str; *p; p++) {
-      if (*p == '@' || (*p == '(' && !isdigit_iso88591(*(p + 1))))
+      if (*p == '@' || (*p == '(' && *(p + 1) != '-'
+                        && !isdigit_iso88591(*(p + 1))))
          delete = true;
       else if (*p == ')' && delete)
          delete = false;
-- 
2.43.0


From 1ca572d487255b6e5dc0c72ed0c474939dd5a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:23 +0000
Subject: [PATCH 42/58] fix: race allocating the private data pointer when
 compiling in the background

---
 src/jit/jit-core.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..91870a6 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -464,10 +464,9 @@ void *jit_link(jit_t *j, jit_handle_t handle)
       return NULL;
 
    jit_func_t *f = jit_get_func(j, handle);
-   if (f->privdata != MPTR_INVALID)
-      return *mptr_get(f->privdata);
-
-   f->privdata = mptr_new(j->mspace, "privdata");
+   void *privdata = *jit_get_privdata_ptr(j, f);
+   if (privdata != NULL)
+      return privdata;
 
    jit_fill_irbuf(f);
 
@@ -490,10 +489,18 @@ void *jit_link(jit_t *j, jit_handle_t handle)
 
 void **jit_get_privdata_ptr(jit_t *j, jit_func_t *f)
 {
-   if (f->privdata == MPTR_INVALID)
-      f->privdata = mptr_new(j->mspace, "privdata");
+   // May be called concurrently by the simulation and compiler threads
+   mptr_t ptr = load_acquire(&(f->privdata));
+   if (ptr == MPTR_INVALID) {
+      ptr = mptr_new(j->mspace, "privdata");
+
+      if (!atomic_cas(&(f->privdata), MPTR_INVALID, ptr)) {
+         mptr_free(j->mspace, &ptr);
+         ptr = load_acquire(&(f->privdata));
+      }
+   }
 
-   return mptr_get(f->privdata);
+   return mptr_get(ptr);
 }
 
 void *jit_get_frame_var(jit_t *j, jit_handle_t handle, ident_t name)
-- 
2.43.0


From 73980877081860e31aefb6860a8c4c823dafc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 43/58] fix: 'VALUE for exponents of several digits, extended
 identifiers, blank and Latin-1 characters, and malformed text

---
 lib/nvc/text_util-body.vhd | 54 +++++++++++++++++++-------------------
 src/lower.c                |  7 ++---
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/lib/nvc/text_util-body.vhd b/lib/nvc/text_util-body.vhd
index d2c41ac..0da1c07 100644
--- a/lib/nvc/text_util-body.vhd
+++ b/lib/nvc/text_util-body.vhd
@@ -152,7 +152,7 @@ package body text_util is
     function toupper (x : in character) return character is
         constant xp : natural := character'pos(x);
     begin
-        if xp >= 97 and xp <= 122 then
+        if (xp >= 97 and xp <= 122) or (xp >= 224 and xp <= 254 and xp /= 247) then
             return character'val(xp - 32);
         else
             return x;
@@ -166,9 +166,8 @@ package body text_util is
     end function;
 
     function isdigit (x : in character) return boolean is
-        constant xp : natural := character'pos(x);
     begin
-        return xp >= 48 and xp <= 57;
+        return x >= '0' and x <= '9';
     end function;
 
     function canon_value (s : string) return string is
@@ -176,23 +175,24 @@ package body text_util is
         alias ss         : string(1 to length) is s;
         variable result  : string(1 to length);
         variable trimmed : positive := 1;
-        variable char    : character;
         variable upcase  : boolean := true;
     begin
         for i in 1 to length loop
-            char := ss(i);
-            if isspace(char) then
+            if isspace(ss(i)) and trimmed = 1 then
                 next;
-            elsif char = ''' then
+            elsif ss(i) = ''' or ss(i) = '\' then
                 upcase := not upcase;
             end if;
             if upcase then
-                result(trimmed) := toupper(char);
+                result(trimmed) := toupper(ss(i));
             else
-                result(trimmed) := char;
+                result(trimmed) := ss(i);
             end if;
             trimmed := trimmed + 1;
         end loop;
+        while trimmed > 1 and isspace(result(trimmed - 1)) loop
+            trimmed := trimmed - 1;
+        end loop;
         return result(1 to trimmed - 1);
     end function;
 
@@ -207,7 +207,6 @@ package body text_util is
         variable result      : t_int64 := 0;
         variable num_digits  : natural;
         constant ascii_zero  : natural := character'pos('0');
-        variable ascii_value : natural;
         variable digit       : natural;
     begin
         while pos <= length and isspace(ss(pos)) loop
@@ -220,9 +219,10 @@ package body text_util is
         end if;
 
         while pos <= length and (isdigit(ss(pos)) or ss(pos) = '_') loop
+            exit when ss(pos) = '_' and (num_digits = 0 or pos = length
+                                         or not isdigit(ss(pos + 1)));
             if ss(pos) /= '_' then
-                ascii_value := character'pos(ss(pos));
-                digit := ascii_value - ascii_zero;
+                digit := character'pos(ss(pos)) - ascii_zero;
                 if result >= 0 then
                     result := (result * 10) + t_int64(digit);
                 else
@@ -289,10 +289,10 @@ package body text_util is
             pos := pos + 1;
         end loop;
 
-        if ss(pos) = '-' then
+        if pos <= length and ss(pos) = '-' then
             sign := true;
             pos := pos + 1;
-        elsif ss(pos) = '+' then
+        elsif pos <= length and ss(pos) = '+' then
             pos := pos + 1;
         end if;
 
@@ -356,15 +356,16 @@ package body text_util is
         pos := p_exp;
         if pos <= length and (ss(pos) = 'E' or ss(pos) = 'e') then
             pos := pos + 1;
-            if ss(pos) = '-' then
+            if pos <= length and ss(pos) = '-' then
                 exp_sign := true;
                 pos := pos + 1;
-            elsif ss(pos) = '+' then
+            elsif pos <= length and ss(pos) = '+' then
                 pos := pos + 1;
             end if;
-            char := ss(pos);
-            while pos <= length and isdigit(char) loop
-                exp := exp * 10 + (character'pos(char) - ascii_zero);
+            assert pos <= length and isdigit(ss(pos))
+                report "missing exponent: " & s severity failure;
+            while pos <= length and isdigit(ss(pos)) loop
+                exp := exp * 10 + (character'pos(ss(pos)) - ascii_zero);
                 pos := pos + 1;
             end loop;
         end if;
@@ -376,21 +377,20 @@ package body text_util is
         end if;
 
         -- Generate a floating-point number that represents the exponent
-        if exp < 0 then
-            exp_sign := true;
-            exp := -exp;
-        else
-            exp_sign := false;
-        end if;
+        exp_sign := exp < 0;
+        exp := abs(exp);
 
         assert exp <= max_exponent
             report "exponent too large: " & s severity failure;
-
         dbl_exp := 1.0;
         for d in powers_of_10'range loop
             exit when exp = 0;
-            if (exp rem 2) = 1 then
+            if (exp rem 2) = 1 and d < powers_of_10'right then
                 dbl_exp := dbl_exp * powers_of_10(d);
+            elsif (exp rem 2) = 1 and exp_sign then
+                fraction := fraction / powers_of_10(d);  -- Avoid overflow
+            elsif (exp rem 2) = 1 then
+                fraction := fraction * powers_of_10(d);
             end if;
             exp := exp / 2;
         end loop;
diff --git a/src/lower.c b/src/lower.c
index ecdd1dc..de5757c 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8466,7 +8466,8 @@ static void lower_enum_image_helper(type_t type, vcode_reg_t preg)
       // LRM specifies result is lowercase for enumerated types when
       // the value is a basic identifier
       ident_t id = tree_ident(type_enum_literal(type, i));
-      if (ident_char(id, 0) != '\'')
+      const char first = ident_char(id, ident_len(id) - 1);
+      if (first != '\'' && first != '\\')
          id = ident_downcase(id);
 
       vcode_select_block(blocks[i]);
@@ -8889,7 +8890,7 @@ static void lower_enum_value_helper(lower_unit_t *lu, type_t type,
       const char *str = istr(tree_ident(type_enum_literal(type, i)));
       size_t pos = 0;
       for (const char *p = str; *p; p++, pos++)
-         char_regs[(i * stride) + pos] = emit_const(vchar, *p);
+         char_regs[(i * stride) + pos] = emit_const(vchar, (unsigned char)*p);
       for (; pos < stride; pos++)
          char_regs[(i * stride) + pos] = emit_const(vchar, 0);
    }
@@ -9075,7 +9076,7 @@ static void lower_physical_value_helper(lower_unit_t *lu, type_t type,
       const char *str = istr(tree_ident(type_unit(type, i)));
       size_t pos = 0;
       for (const char *p = str; *p; p++, pos++)
-         char_regs[(i * stride) + pos] = emit_const(vchar, *p);
+         char_regs[(i * stride) + pos] = emit_const(vchar, (unsigned char)*p);
       for (; pos < stride; pos++)
          char_regs[(i * stride) + pos] = emit_const(vchar, 0);
    }
-- 
2.43.0


From c32217246d9a77c9814fa9712833d84fa8d9f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 44/58] fix: TEXTIO READ of times with a fraction and of a sign
 without digits

---
 lib/std/textio-body.vhd | 108 ++++++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 25 deletions(-)

diff --git a/lib/std/textio-body.vhd b/lib/std/textio-body.vhd
index ab9e6d6..cfa186a 100644
--- a/lib/std/textio-body.vhd
+++ b/lib/std/textio-body.vhd
@@ -115,12 +115,14 @@ package body textio is
     end function;
 
     function strcasecmp (x, y : string) return boolean is
+        alias ax : string(1 to x'length) is x;
+        alias ay : string(1 to y'length) is y;
     begin
         if x'length /= y'length then
             return false;
         else
             for i in 1 to x'length loop
-                if tolower(x(i)) /= tolower(y(i)) then
+                if tolower(ax(i)) /= tolower(ay(i)) then
                     return false;
                 end if;
             end loop;
@@ -256,6 +258,7 @@ package body textio is
         variable digit       : integer;
         variable result      : integer := 0;
         variable is_negative : boolean := false;
+        variable first_digit : integer;
         variable peek        : character;
     begin
         skip_whitespace(l);
@@ -271,6 +274,8 @@ package body textio is
             end case;
         end if;
 
+        first_digit := pos;
+
         while pos <= l.all'length loop
             peek := get_char(l.all, pos);
             exit when peek < '0' or peek > '9';
@@ -282,12 +287,13 @@ package body textio is
             pos := pos + 1;
         end loop;
 
-        if is_negative and pos = 2 then
-          -- Single dash without trailing digit is not good
+        good := pos > first_digit;
+
+        if pos = first_digit then
+          -- Sign without trailing digit is not good
           pos := 1;
         end if;
 
-        good := pos > 1;
         value := result;
         consume(l, pos - 1);
     end procedure;
@@ -304,29 +310,36 @@ package body textio is
     procedure read (l     : inout line;
                     value : out real;
                     good  : out boolean ) is
-        variable whole    : integer;
         variable exponent : integer;
-        variable result   : real;
+        variable result   : real := 0.0;
         variable digit    : integer;
         variable shift    : integer := 1;
-        variable pos      : integer := 2;
+        variable pos      : integer := 1;
         variable sign     : character;
         variable rgood    : boolean;
         variable peek     : character;
     begin
         skip_whitespace(l);
-        peek := get_char(l.all, 1);
-        if l.all'length > 0 and (peek = '-' or peek = '+') then
-            sign := get_char(l.all, 1);
-            consume(l, 1);
+        if l.all'length > 0 then
+            peek := get_char(l.all, 1);
+            if peek = '-' or peek = '+' then
+                sign := peek;
+                consume(l, 1);
+            end if;
         end if;
-        read(l, whole, rgood);
-        if not rgood then
-            good := false;
+        while pos <= l.all'length loop
+            peek := get_char(l.all, pos);
+            exit when peek < '0' or peek > '9';
+            digit := character'pos(peek) - character'pos('0');
+            result := result * 10.0 + real(digit);
+            pos := pos + 1;
+        end loop;
+        consume(l, pos - 1);
+        good := pos > 1;
+        if pos = 1 then
             return;
         end if;
-        result := real(whole);
-        good := true;
+        pos := 2;
         if l.all'length > 0 and get_char(l.all, 1) = '.' then
             while pos <= l.all'length loop
                 peek := get_char(l.all, pos);
@@ -410,24 +423,69 @@ package body textio is
             ( "min", 3, min ),
             ( "hr ", 2, hr ) );
 
-        variable scale, len : integer;
-        variable scale_good : boolean;
+        variable len, digit  : integer;
+        variable pos         : integer := 1;
+        variable first_digit : integer;
+        variable last_digit  : integer;
+        variable point       : integer := 0;
+        variable is_negative : boolean := false;
+        variable peek        : character;
+        variable scale       : time;
+        variable result      : time := 0 fs;
     begin
         good := false;
         skip_whitespace(l);
-        read(l, scale, scale_good);
-        if not scale_good then
+        if l'length = 0 then
             return;
         end if;
-        skip_whitespace(l);
+        peek := get_char(l.all, 1);
+        if peek = '-' or peek = '+' then
+            is_negative := peek = '-';
+            pos := 2;
+        end if;
+        first_digit := pos;
+        while pos <= l'length loop
+            peek := get_char(l.all, pos);
+            if peek = '.' and point = 0 and pos > first_digit then
+                point := pos;
+            else
+                exit when peek < '0' or peek > '9';
+            end if;
+            pos := pos + 1;
+        end loop;
+        last_digit := pos - 1;
+        if last_digit < first_digit or point = last_digit then
+            return;
+        end if;
+        while pos <= l'length loop
+            exit when not is_whitespace(get_char(l.all, pos));
+            pos := pos + 1;
+        end loop;
         for i in unit_map'range loop
             len := unit_map(i).length;
-            if l'length >= len
-                and strcasecmp(get_slice(l.all, 1, len), unit_map(i).name(1 to len))
+            if l'length - pos + 1 >= len
+                and strcasecmp(get_slice(l.all, pos, pos + len - 1),
+                               unit_map(i).name(1 to len))
             then
-                value := scale * unit_map(i).unit;
-                consume(l, len);
+                scale := unit_map(i).unit;
+                for j in first_digit to last_digit loop
+                    next when j = point;
+                    digit := character'pos(get_char(l.all, j))
+                        - character'pos('0');
+                    if is_negative then
+                        digit := -digit;
+                    end if;
+                    if point > 0 and j > point then
+                        scale := scale / 10;
+                        result := result + digit * scale;
+                    else
+                        result := result * 10 + digit * scale;
+                    end if;
+                end loop;
+                value := result;
+                consume(l, pos + len - 1);
                 good := true;
+                exit;
             end if;
         end loop;
     end procedure;
-- 
2.43.0


From 9c6ab9dbc5a6c3df3ac71a0326ce04e127ea3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 45/58] fix: 'VALUE of character literals and extended
 identifiers kept their case

---
 lib/nvc/text_util-body.vhd | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nvc/text_util-body.vhd b/lib/nvc/text_util-body.vhd
index 0da1c07..ad5b950 100644
--- a/lib/nvc/text_util-body.vhd
+++ b/lib/nvc/text_util-body.vhd
@@ -180,8 +180,8 @@ package body text_util is
         for i in 1 to length loop
             if isspace(ss(i)) and trimmed = 1 then
                 next;
-            elsif ss(i) = ''' or ss(i) = '\' then
-                upcase := not upcase;
+            elsif trimmed = 1 and (ss(i) = ''' or ss(i) = '\') then
+                upcase := false;
             end if;
             if upcase then
                 result(trimmed) := toupper(ss(i));
-- 
2.43.0


From cf2e8c69d3d9723774043f6bd4bae523b3de8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 46/58] fix: TEXTIO READ of a zero-length string was a fatal
 error

---
 lib/std/textio-body.vhd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/textio-body.vhd b/lib/std/textio-body.vhd
index cfa186a..1a74327 100644
--- a/lib/std/textio-body.vhd
+++ b/lib/std/textio-body.vhd
@@ -19,7 +19,7 @@ use nvc.polyfill.all;
 
 package body textio is
 
-    function get_slice (str : in string; ifrom, ito : positive) return string is
+    function get_slice (str : in string; ifrom, ito : natural) return string is
         alias astr : string(1 to str'length) is str;
     begin
         return astr(ifrom to ito);
-- 
2.43.0


From b50fb04d468e9cafb85df91a0b6c92f2c085f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 47/58] fix: TO_STRING of long real images and of times that
 are not a multiple of the unit

---
 src/rt/standard.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/rt/standard.c b/src/rt/standard.c
index 0ff6071..86319c1 100644
--- a/src/rt/standard.c
+++ b/src/rt/standard.c
@@ -84,13 +84,26 @@ void _std_to_string_time(jit_scalar_t *args, tlab_t *tlab)
               unit);
    }
 
-   static char buf[64];
+   char buf[64];
    if (value % unit == 0)
       checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
                       value / unit, unit_str);
-   else
+   else if (unit > 1000000000000000ll)   // No exact decimal fraction
       checked_sprintf(buf, sizeof(buf), "%.*g %s", DBL_DIG,
                       (double)value / (double)unit, unit_str);
+   else {
+      int64_t frac = llabs(value % unit);
+      int digits = 0;
+      for (int64_t u = unit; u > 1; u /= 10)
+         digits++;
+
+      for (; frac % 10 == 0; frac /= 10)
+         digits--;
+
+      checked_sprintf(buf, sizeof(buf), "%s%"PRIi64".%0*"PRIi64" %s",
+                      value < 0 ? "-" : "", llabs(value / unit),
+                      digits, frac, unit_str);
+   }
 
    ffi_return_string(buf, args, tlab);
 }
@@ -101,11 +114,11 @@ void _std_to_string_real_digits(jit_scalar_t *args, tlab_t *tlab)
    double value = args[1].real;
    int32_t digits = args[2].integer;
 
-   char buf[32];
+   char *buf LOCAL;
    if (digits == 0)
-      checked_sprintf(buf, sizeof(buf), "%.17g", value);
+      buf = xasprintf("%.17g", value);
    else
-      checked_sprintf(buf, sizeof(buf), "%.*f", digits, value);
+      buf = xasprintf("%.*f", digits, value);
 
    ffi_return_string(buf, args, tlab);
 }
@@ -138,8 +151,13 @@ void _std_to_string_real_format(jit_scalar_t *args, tlab_t *tlab)
       }
    }
 
-   char buf[64];
-   checked_sprintf(buf, sizeof(buf), fmt_cstr, value);
+   // There must be exactly one conversion character at the end
+   const size_t nflags = strspn(fmt_cstr + 1, "0123456789.-");
+   if (nflags + 2 != strlen(fmt_cstr))
+      jit_msg(NULL, DIAG_FATAL, "invalid conversion specification \"%s\"",
+              fmt_cstr);
+
+   char *buf LOCAL = xasprintf(fmt_cstr, value);
 
    ffi_return_string(buf, args, tlab);
 }
-- 
2.43.0


From 90e813d86a1fcf7082995449879c22b6d45ac43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 48/58] fix: VHDL conditional analysis with chained operators,
 name case, skipped conditions and repeated else

---
 src/scan.c | 92 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 26 deletions(-)

diff --git a/src/scan.c b/src/scan.c
index fa0524d..1e50dd7 100644
--- a/src/scan.c
+++ b/src/scan.c
@@ -33,6 +33,7 @@
 typedef struct {
    bool  result;
    bool  taken;
+   bool  seen_else;
    loc_t loc;
 } cond_state_t;
 
@@ -62,7 +63,7 @@ extern int yylex(void);
 
 extern void reset_scanner(void);
 
-static bool pp_cond_analysis_expr(void);
+static bool pp_cond_analysis_expr(bool skip);
 static void pp_defines_init();
 
 yylval_t yylval;
@@ -370,7 +371,30 @@ static bool pp_expect(int expect)
    return true;
 }
 
-static bool pp_cond_analysis_relation(void)
+static bool pp_is_skipping(void)
+{
+   return cond_stack.count > 0 && !ATOP(cond_stack).result;
+}
+
+static const char *pp_cond_analysis_value(const char *name)
+{
+   // Identifiers are not case sensitive
+   const char *exact = shash_get(pp_defines, name);
+   if (exact != NULL)
+      return exact;
+
+   const char *key;
+   void *value;
+   for (hash_iter_t it = HASH_BEGIN;
+        shash_iter(pp_defines, &it, &key, &value); ) {
+      if (strcasecmp(key, name) == 0)
+         return value;
+   }
+
+   return NULL;
+}
+
+static bool pp_cond_analysis_relation(bool skip)
 {
    // ( conditional_analysis_expression )
    //   | not ( conditional_analysis_expression )
@@ -386,13 +410,13 @@ static bool pp_cond_analysis_relation(void)
 
    switch (tok) {
    case tLPAREN:
-      result = pp_cond_analysis_expr();
+      result = pp_cond_analysis_expr(skip);
       pp_expect(tRPAREN);
       break;
 
    case tNOT:
       pp_expect(tLPAREN);
-      result = !pp_cond_analysis_expr();
+      result = !pp_cond_analysis_expr(skip);
       pp_expect(tRPAREN);
       break;
 
@@ -402,8 +426,10 @@ static bool pp_cond_analysis_relation(void)
          token_t rel = pp_yylex();
 
          if (pp_expect(tSTRING)) {
-            const char *value = shash_get(pp_defines, name);
-            if (value == NULL)
+            const char *value = pp_cond_analysis_value(name);
+            if (value == NULL && skip)
+               ;   // The value of the condition is not needed
+            else if (value == NULL)
                pp_error("undefined conditional analysis identifier %s", name);
             else {
                char *cmp = yylval.str + 1;
@@ -448,7 +474,7 @@ static bool pp_cond_analysis_relation(void)
    return result;
 }
 
-static bool pp_cond_analysis_expr(void)
+static bool pp_cond_analysis_expr(bool skip)
 {
    // conditional_analysis_relation
    //   | conditional_analysis_relation { and conditional_analysis_relation }
@@ -456,24 +482,29 @@ static bool pp_cond_analysis_expr(void)
    //   | conditional_analysis_relation { xor conditional_analysis_relation }
    //   | conditional_analysis_relation { xnor conditional_analysis_relation }
 
-   const bool lhs = pp_cond_analysis_relation();
-   switch ((lookahead = pp_yylex())) {
-   case tAND:
-      lookahead = -1;
-      return pp_cond_analysis_relation() && lhs;
-   case tOR:
-      lookahead = -1;
-      return pp_cond_analysis_relation() || lhs;
-   case tXOR:
-      lookahead = -1;
-      return pp_cond_analysis_relation() ^ lhs;
-   case tXNOR:
+   bool result = pp_cond_analysis_relation(skip);
+
+   const token_t op = lookahead = pp_yylex();
+   if (op != tAND && op != tOR && op != tXOR && op != tXNOR)
+      return result;
+
+   // Only operators of the same kind may be combined without parentheses
+   while (lookahead == op) {
       lookahead = -1;
-      return !(pp_cond_analysis_relation() ^ lhs);
-   default:
-      return lhs;
+
+      const bool rhs = pp_cond_analysis_relation(skip);
+
+      switch (op) {
+      case tAND:  result = result && rhs; break;
+      case tOR:   result = result || rhs; break;
+      case tXOR:  result = result ^ rhs; break;
+      case tXNOR: result = !(result ^ rhs); break;
+      }
+
+      lookahead = pp_yylex();
    }
-   return lhs;
+
+   return result;
 }
 
 static void macro_hint_cb(diag_t *d, void *ctx)
@@ -561,7 +592,7 @@ token_t processed_yylex(void)
       case tCONDIF:
          {
             cond_state_t new = { .loc = yylloc };
-            new.result = new.taken = pp_cond_analysis_expr();
+            new.result = new.taken = pp_cond_analysis_expr(pp_is_skipping());
 
             if (cond_stack.count > 0 && !ATOP(cond_stack).result) {
                // Suppress nested conditionals in not-taken branches
@@ -586,7 +617,12 @@ token_t processed_yylex(void)
                pp_error("unexpected $yellow$%s$$ outside conditional "
                         "analysis block", token_str(token));
 
-            const bool result = pp_cond_analysis_expr();
+            else if (ATOP(cond_stack).seen_else)
+               pp_error("unexpected $yellow$%s$$ after $yellow$%s$$",
+                        token_str(token), token_str(tCONDELSE));
+
+            const bool skip = cond_stack.count > 0 && ATOP(cond_stack).taken;
+            const bool result = pp_cond_analysis_expr(skip);
 
             if (cond_stack.count > 0) {
                if (!ATOP(cond_stack).taken) {
@@ -608,7 +644,11 @@ token_t processed_yylex(void)
                         "analysis block", token_str(token));
             else {
                cond_state_t *cs = &(cond_stack.items[cond_stack.count - 1]);
-               cs->result = !(cs->taken);
+               if (cs->seen_else)
+                  pp_error("duplicate $yellow$%s$$ in conditional analysis "
+                           "block", token_str(token));
+               cs->result = !(cs->taken) && !cs->seen_else;
+               cs->seen_else = true;
             }
          }
          break;
-- 
2.43.0


From cdf8b9336a890cec2d00f5cc49584927f36a3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 49/58] fix: Verilog preprocessor nested conditionals, elsif,
 strings, recursion and source locations

---
 src/vlog/vlog-pp.l | 140 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 109 insertions(+), 31 deletions(-)

diff --git a/src/vlog/vlog-pp.l b/src/vlog/vlog-pp.l
index 4d4988a..b3f9f41 100644
--- a/src/vlog/vlog-pp.l
+++ b/src/vlog/vlog-pp.l
@@ -46,9 +46,17 @@ typedef struct _ifdef_stack ifdef_stack_t;
 struct _ifdef_stack {
    ifdef_stack_t *next;
    loc_t          loc;
+   bool           active;      // Text in the current branch is included
+   bool           taken;       // Some branch was already included
+   bool           seen_else;
 };
 
-typedef A(YY_BUFFER_STATE) buffer_stack_t;
+typedef struct {
+   YY_BUFFER_STATE  buffer;
+   char            *macro;
+} macro_buffer_t;
+
+typedef A(macro_buffer_t) buffer_stack_t;
 
 static int             comment_caller = 0;
 static shash_t        *macros;
@@ -64,6 +72,9 @@ static void define_macro(void);
 static void undef_macro(void);
 static void push_ifdef(void);
 static void pop_ifdef(void);
+static void ifdef_branch(bool cond);
+static bool ifdef_active(void);
+static bool ifdef_else(const char *what);
 static void convert_line_ending(void);
 static void push_macro(const char *name, const char *text);
 static void pop_buffer(void);
@@ -72,9 +83,10 @@ extern loc_t yylloc;
 %}
 
 ID    [a-zA-Z_]([a-zA-Z0-9_$])*
+STR   \"([^\"\\\r\n]|\\[^\r\n])*\"
 
 %x COMMENT C_COMMENT MACRO_NAME MACRO_TEXT IFDEF_NAME IFDEF_TRUE IFDEF_FALSE
-%x IFNDEF_NAME
+%x IFNDEF_NAME ELSIF_NAME
 
 %%
 
@@ -84,29 +96,39 @@ ID    [a-zA-Z_]([a-zA-Z0-9_$])*
                           tb_cat(output, vlogpp_text);
                           BEGIN(C_COMMENT);
                         }
-<C_COMMENT>[^\r\n]      { tb_cat(output, vlogpp_text); }
+<C_COMMENT>[^\r\n]      { if (comment_caller != IFDEF_FALSE)
+                             tb_cat(output, vlogpp_text);
+                        }
 <C_COMMENT>\n\r         |
 <C_COMMENT>\r\n         |
 <C_COMMENT>\n           |
 <C_COMMENT>\r           { tb_append(output, '\n'); }
-<C_COMMENT>"*/"         { tb_cat(output, vlogpp_text);
+<C_COMMENT>"*/"         { if (comment_caller != IFDEF_FALSE)
+                             tb_cat(output, vlogpp_text);
                           BEGIN(comment_caller);
                         }
 
 `define[ \t]*           { BEGIN(MACRO_NAME); }
+<INITIAL,IFDEF_FALSE>{
 `ifdef[ \t]*            { push_ifdef();
                           BEGIN(IFDEF_NAME);
                         }
 `ifndef[ \t]*           { push_ifdef();
                           BEGIN(IFNDEF_NAME);
                         }
-`endif                  { pop_ifdef();
-                          BEGIN(INITIAL);
+`elsif[ \t]*            { BEGIN(ELSIF_NAME); }
+`else                   { if (ifdef_else("`else")) {
+                             ifdefs->seen_else = true;
+                             ifdef_branch(true);
+                          }
                         }
-`else                   { if (ifdefs == NULL)
-                             error_at(&yylloc, "`else outside of `ifdef");
-                          BEGIN(IFDEF_FALSE);
+`endif                  { pop_ifdef();
+                          BEGIN(ifdef_active() ? INITIAL : IFDEF_FALSE);
                         }
+}
+
+{STR}                   { tb_cat(output, vlogpp_text); }
+
 `undef[ \t]+{ID}[ \t]*  { undef_macro(); }
 
 `__FILE__               { tb_cat(output, loc_file_str(&yylloc)); }
@@ -137,40 +159,50 @@ ID    [a-zA-Z_]([a-zA-Z0-9_$])*
                           BEGIN(INITIAL);
                         }
 
-<IFDEF_NAME>{ID}        { if (shash_get(macros, vlogpp_text) != NULL)
-                             BEGIN(INITIAL);
-                          else
-                             BEGIN(IFDEF_FALSE);
-                        }
+<IFDEF_NAME>{ID}        { ifdef_branch(shash_get(macros, vlogpp_text) != NULL); }
 <IFDEF_NAME>.           { error_at(&yylloc, "expected macro name after `ifdef");
                           pop_ifdef();
-                          BEGIN(INITIAL);
+                          BEGIN(ifdef_active() ? INITIAL : IFDEF_FALSE);
                         }
 
-<IFNDEF_NAME>{ID}       { if (shash_get(macros, vlogpp_text) == NULL)
-                             BEGIN(INITIAL);
-                          else
-                             BEGIN(IFDEF_FALSE);
-                        }
+<IFNDEF_NAME>{ID}       { ifdef_branch(shash_get(macros, vlogpp_text) == NULL); }
 <IFNDEF_NAME>.          { error_at(&yylloc, "expected macro name after "
                                    "`ifndef");
                           pop_ifdef();
-                          BEGIN(INITIAL);
+                          BEGIN(ifdef_active() ? INITIAL : IFDEF_FALSE);
                         }
 
-<IFDEF_FALSE>`else      { assert(ifdefs != NULL);
-                          BEGIN(INITIAL);
+<ELSIF_NAME>{ID}        { if (ifdef_else("`elsif"))
+                             ifdef_branch(shash_get(macros, vlogpp_text) != NULL);
                         }
-<IFDEF_FALSE>`endif     { pop_ifdef();
-                          BEGIN(INITIAL);
+<ELSIF_NAME>.           { error_at(&yylloc, "expected macro name after "
+                                   "`elsif");
+                          BEGIN(ifdef_active() ? INITIAL : IFDEF_FALSE);
+                        }
+
+<IFDEF_FALSE>`{ID}      { }
+<IFDEF_FALSE>"//"[^\r\n]* { }
+<IFDEF_FALSE>"/*"       { comment_caller = YY_START;
+                          BEGIN(C_COMMENT);
                         }
+<IFDEF_FALSE>{STR}      { }
 <IFDEF_FALSE>[^\r\n]    { }
 <IFDEF_FALSE>\n\r       |
 <IFDEF_FALSE>\r\n       |
 <IFDEF_FALSE>\n         |
 <IFDEF_FALSE>\r         { tb_append(output, '\n'); }
 
-<MACRO_TEXT>\\          { continuation = true; }
+<MACRO_TEXT>\\          { if (continuation)
+                             tb_append(macro_text, '\\');
+                          continuation = true;
+                        }
+<MACRO_TEXT>"//"[^\r\n\\]* { }
+<MACRO_TEXT>{STR}       { if (continuation) {
+                             tb_append(macro_text, '\\');
+                             continuation = false;
+                          }
+                          tb_cat(macro_text, vlogpp_text);
+                        }
 <MACRO_TEXT>[^\r\n]     { if (continuation) {
                              tb_append(macro_text, '\\');
                              continuation = false;
@@ -230,7 +262,9 @@ static void convert_line_ending(void)
       }
    }
 
-   begin_token(vlogpp_text, vlogpp_leng);
+   // Source locations do not advance in the text of a macro
+   if (buffer_stack.count == 0)
+      begin_token(vlogpp_text, vlogpp_leng);
 }
 
 static void define_macro(void)
@@ -259,8 +293,9 @@ static void undef_macro(void)
 static void push_ifdef(void)
 {
    ifdef_stack_t *s = xcalloc(sizeof(ifdef_stack_t));
-   s->next = ifdefs;
-   s->loc = yylloc;
+   s->next  = ifdefs;
+   s->loc   = yylloc;
+   s->taken = !ifdef_active();   // Nothing included if the parent is not
 
    ifdefs = s;
 }
@@ -276,13 +311,54 @@ static void pop_ifdef(void)
    }
 }
 
+static bool ifdef_active(void)
+{
+   return ifdefs == NULL || ifdefs->active;
+}
+
+static bool ifdef_else(const char *what)
+{
+   if (ifdefs == NULL) {
+      error_at(&yylloc, "%s outside of `ifdef", what);
+      BEGIN(INITIAL);
+      return false;
+   }
+   else if (ifdefs->seen_else) {
+      error_at(&yylloc, "%s after `else", what);
+      BEGIN(ifdef_active() ? INITIAL : IFDEF_FALSE);
+      return false;
+   }
+   else
+      return true;
+}
+
+static void ifdef_branch(bool cond)
+{
+   ifdefs->active = cond && !ifdefs->taken;
+   ifdefs->taken |= cond;
+
+   BEGIN(ifdefs->active ? INITIAL : IFDEF_FALSE);
+}
+
 static void push_macro(const char *name, const char *text)
 {
+   for (int i = 0; i < buffer_stack.count; i++) {
+      if (strcmp(buffer_stack.items[i].macro, name) == 0) {
+         error_at(&yylloc, "recursive expansion of macro %s", name);
+         return;
+      }
+   }
+
    if (emit_locs)
       tb_printf(output, "\n`__nvc_push %s,%d:%d,%d\n", name, yylloc.first_line,
                 yylloc.first_column, yylloc.column_delta);
 
-   APUSH(buffer_stack, YY_CURRENT_BUFFER);
+   const macro_buffer_t mb = {
+      .buffer = YY_CURRENT_BUFFER,
+      .macro  = xstrdup(name)
+   };
+   APUSH(buffer_stack, mb);
+
    yy_switch_to_buffer(yy_scan_string(text));
 }
 
@@ -294,7 +370,9 @@ static void pop_buffer(void)
       tb_printf(output, "\n`__nvc_pop\n");
 
    yy_delete_buffer(YY_CURRENT_BUFFER);
-   yy_switch_to_buffer(APOP(buffer_stack));
+   const macro_buffer_t mb = APOP(buffer_stack);
+   yy_switch_to_buffer(mb.buffer);
+   free(mb.macro);
 }
 
 static void vlog_define_cb(const char *key, const char *value, void *ctx)
-- 
2.43.0


From fd37f11f5578c06119a8863dfd3170977fd3cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:53 +0000
Subject: [PATCH 50/58] fix: block comments in the text of Verilog macros

---
 src/vlog/vlog-pp.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vlog/vlog-pp.l b/src/vlog/vlog-pp.l
index b3f9f41..adb40b5 100644
--- a/src/vlog/vlog-pp.l
+++ b/src/vlog/vlog-pp.l
@@ -84,6 +84,7 @@ extern loc_t yylloc;
 
 ID    [a-zA-Z_]([a-zA-Z0-9_$])*
 STR   \"([^\"\\\r\n]|\\[^\r\n])*\"
+CMT   "/*"([^*\r\n]|"*"+[^*/\r\n])*"*"+"/"
 
 %x COMMENT C_COMMENT MACRO_NAME MACRO_TEXT IFDEF_NAME IFDEF_TRUE IFDEF_FALSE
 %x IFNDEF_NAME ELSIF_NAME
@@ -197,6 +198,7 @@ STR   \"([^\"\\\r\n]|\\[^\r\n])*\"
                           continuation = true;
                         }
 <MACRO_TEXT>"//"[^\r\n\\]* { }
+<MACRO_TEXT>{CMT}       |
 <MACRO_TEXT>{STR}       { if (continuation) {
                              tb_append(macro_text, '\\');
                              continuation = false;
-- 
2.43.0


From a7529b01d438b815e200f0fb6c50e75e0b5d90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 51/58] fix: conversion functions in port maps whose formal is
 split into several nexuses

---
 src/rt/model.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index a3cf9e9..e6ae1eb 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1489,8 +1489,15 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
       {
          new->u.port.input = old->u.port.input;
 
-         if (old->u.port.conv_func != NULL)
+         if (old->u.port.conv_func != NULL) {
             new->u.port.conv_func = old->u.port.conv_func;
+            split_value(nexus, &new->u.port.conv_result,
+                        &old->u.port.conv_result, offset);
+
+            // The inputs of the conversion must also update the new nexus
+            new->chain_output = old->chain_output;
+            old->chain_output = new;
+         }
          else {
             if (old->u.port.input->width == offset)
                new->u.port.input = old->u.port.input->chain;  // Cycle breaking
@@ -1607,8 +1614,13 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       assert(old_o->tag == SOURCE_PORT || old_o->tag == SOURCE_IMPLICIT);
 
       if (old_o->tag == SOURCE_PORT && old_o->u.port.conv_func != NULL) {
-         new->outputs = old_o;
-         add_conversion_input(m, old_o->u.port.conv_func, new);
+         // The list of outputs of the conversion is shared by its inputs
+         rt_source_t **p = &(new->outputs);
+         for (; *p != NULL && *p != old_o; p = &((*p)->chain_output));
+         *p = old_o;
+
+         if (find_conversion_input(old_o->u.port.conv_func, new) == NULL)
+            add_conversion_input(m, old_o->u.port.conv_func, new);
       }
       else if (old_o->tag == SOURCE_IMPLICIT) {
          // Both nexuses must update the implicit signal
-- 
2.43.0


From ecd63d3cdb4e1b18b2d57900c182040fa8c1eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 52/58] fix: crash simplifying the condition of an if generate
 from another arena

---
 src/simp.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/simp.c b/src/simp.c
index 459b064..8ebef83 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -1344,8 +1344,21 @@ static tree_t simp_if_generate(tree_t t)
       }
       else if (bval) {
          if (new != NULL && tree_conds(new) > 0) {
-            tree_set_value(c, NULL);
-            tree_add_cond(new, c);
+            // The original may be in a frozen arena so must be copied
+            tree_t e = tree_new(tree_kind(c));
+            tree_set_loc(e, tree_loc(c));
+            if (tree_has_ident(c))
+               tree_set_ident(e, tree_ident(c));
+
+            const int ndecls = tree_decls(c);
+            for (int i = 0; i < ndecls; i++)
+               tree_add_decl(e, tree_decl(c, i));
+
+            const int nstmts = tree_stmts(c);
+            for (int i = 0; i < nstmts; i++)
+               tree_add_stmt(e, tree_stmt(c, i));
+
+            tree_add_cond(new, e);
             break;
          }
          else {
-- 
2.43.0


From dfff38851912ffa807f74ac8274b3309efea508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 53/58] fix: path name of if generate alternatives inside
 blocks

---
 src/elab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elab.c b/src/elab.c
index 577cee6..3cc76b3 100644
--- a/src/elab.c
+++ b/src/elab.c
@@ -1881,7 +1881,7 @@ static void elab_if_generate(tree_t t, const elab_ctx_t *ctx)
          tree_add_stmt(ctx->out, b);
 
          ident_t name = tree_ident(cond);
-         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", name);
+         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", istr(name));
          ident_t ndotted = ident_prefix(ctx->dotted, name, '.');
 
          elab_ctx_t new_ctx = {
-- 
2.43.0


From bc6256f3305eec00ce460d58e3428367e03fac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 54/58] fix: file handle reuse after 65535 opens, closed file
 in FILE_SIZE and FILE_CANSEEK, and the file position after FILE_TRUNCATE

---
 src/rt/fileio.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..44152b0 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -109,7 +109,8 @@ static file_handle_t handle_for(FILE *f, const char *name, file_kind_t kind,
    assert(f != NULL);
 
    uint32_t index = free_hint;
-   if (index >= num_handles || handles[index].file != NULL) {
+   if (index >= num_handles || handles[index].file != NULL
+       || handles[index].generation >= HANDLE_MAX_INDEX) {
       for (index = 0; index < num_handles; index++) {
          if (handles[index].file == NULL
              && handles[index].generation < HANDLE_MAX_INDEX)
@@ -275,25 +276,23 @@ void __nvc_truncate(jit_scalar_t *args)
    if (!SetEndOfFile(os_handle))
       goto failed;
 #else  // !__MINGW32__
-   off_t asize = size, oldpos = ftello(slot->file);
+   off_t asize = size, newpos = ftello(slot->file);
    switch (origin) {
    case FILE_ORIGIN_END:
-      fseek(slot->file, 0, SEEK_END);
+      fseeko(slot->file, 0, SEEK_END);
       asize = ftello(slot->file) + size;
+      fflush(slot->file);
       break;
    case FILE_ORIGIN_CURRENT:
-      asize = oldpos + size;
+      asize = newpos + size;
       break;
    }
 
    if (ftruncate(fileno(slot->file), asize) != 0)
       goto failed;
 
-   if (oldpos > asize || origin == FILE_ORIGIN_END) {
-      if (fseeko(slot->file, asize, SEEK_SET) != 0)
-         goto failed;
-   }
-
+   // Discard any buffered data before seeking as otherwise the position
+   // and contents of the buffer will not match the underlying file
 #if defined HAVE_FPURGE
    if (fpurge(slot->file) != 0)
       goto failed;
@@ -301,6 +300,12 @@ void __nvc_truncate(jit_scalar_t *args)
    __fpurge(slot->file);
 #endif
 
+   if (newpos > asize || origin == FILE_ORIGIN_END)
+      newpos = asize;
+
+   if (fseeko(slot->file, newpos, SEEK_SET) != 0)
+      goto failed;
+
 #endif  // !__MINGW32__
 
    return;
@@ -368,7 +373,7 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
    fflush(slot->file);
@@ -386,7 +391,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
-- 
2.43.0


From baa93b16e0199c10e6222f79f546fd1e6043a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 55/58] fix: merging coverage databases read beyond the items
 of a scope that has fewer items

---
 src/cov/cov-data.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cov/cov-data.c b/src/cov/cov-data.c
index fb90dd2..3972d58 100644
--- a/src/cov/cov-data.c
+++ b/src/cov/cov-data.c
@@ -1156,14 +1156,15 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
    int n_added = 0;
    for (int i = 0; i < new_s->items.count; i++) {
       cover_item_t *new = AREF(new_s->items, i);
-      cover_item_t *old = AREF(old_s->items, i - n_added);
+      const int n_old = old_s->items.count;
 
       bool found = false;
-      int n_old_visits = 0;
 
-      do {
-         if (n_old_visits == old_s->items.count)
-            break;
+      for (int j = 0, pos = i - n_added; j < n_old; j++, pos++) {
+         if (pos >= n_old)
+            pos = 0;
+
+         cover_item_t *old = AREF(old_s->items, pos);
 
          if ((new->hier == old->hier) && (new->flags == old->flags)) {
             assert(new->kind == old->kind);
@@ -1174,14 +1175,7 @@ static void cover_merge_scope(cover_scope_t *old_s, cover_scope_t *new_s)
             found = true;
             break;
          }
-
-         if (old == AREF(old_s->items, old_s->items.count - 1))
-            old = AREF(old_s->items, 0);
-         else
-            old++;
-
-         n_old_visits++;
-      } while (true);
+      }
 
       if (!found) {
          APUSH(old_s->items, *new);
-- 
2.43.0


From 4678abc1c543ff1e63b9bcd865e3b0ee98af4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 56/58] fix: exit statements were counted as the false branch
 of a while loop

---
 src/lower.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index de5757c..1c1babc 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6685,10 +6685,18 @@ static void lower_while(lower_unit_t *lu, tree_t stmt, loop_stack_t *loops)
 
    vcode_reg_t test = lower_rvalue(lu, tree_value(stmt));
 
-   emit_cond(test, body_bb, exit_bb);
+   if (cover_enabled(lu->cover, COVER_MASK_BRANCH)) {
+      // Exit statements also jump to the exit block
+      vcode_block_t false_bb = emit_block();
+      emit_cond(test, body_bb, false_bb);
 
-   if (cover_enabled(lu->cover, COVER_MASK_BRANCH))
-      lower_branch_coverage(lu, stmt, body_bb, exit_bb);
+      lower_branch_coverage(lu, stmt, body_bb, false_bb);
+
+      vcode_select_block(false_bb);
+      emit_jump(exit_bb);
+   }
+   else
+      emit_cond(test, body_bb, exit_bb);
 
    vcode_select_block(body_bb);
 
-- 
2.43.0


From cf1ff3ce3887259f192d3e69d2edd5b028ed0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 57/58] fix: FSM coverage counted the leftmost state instead of
 the initial state

---
 src/rt/cover.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rt/cover.c b/src/rt/cover.c
index 7ff624d..5e46dd6 100644
--- a/src/rt/cover.c
+++ b/src/rt/cover.c
@@ -292,10 +292,13 @@ void x_cover_setup_state_cb(sig_shared_t *ss, int64_t low, int32_t tag)
    if (data == NULL)
       return;
 
-   int32_t *mask = get_cover_counter(m, tag, 1);
+   // The initial value does not cause an event. Its tag needs to be
+   // flagged as covered manually.
+   int size = signal_size(s);
+   int32_t offset = 0;
+   FOR_ALL_SIZES(size, READ_STATE);
 
-   // TYPE'left is a default value of enum type that does not
-   // cause an event. First tag needs to be flagged as covered manually.
+   int32_t *mask = get_cover_counter(m, tag + offset - low, 1);
    *mask = 1;
 
    rt_watch_t *w = watch_new(m, cover_state_cb, (void *)(uintptr_t)(tag - low),
-- 
2.43.0


From db92919c85b194db0216e20cbb05ca497b144a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:23 +0000
Subject: [PATCH 58/58] fix: name of parameterless procedures nested in a
 subprogram with parameters

new_instance cut the mangled name at the last parenthesis, which for a
procedure without parameters belongs to the enclosing subprogram.  All such
procedures were given the same name and so called the wrong one or
themselves.
---
 src/inst.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/inst.c b/src/inst.c
index 99c1fd2..a427e87 100644
--- a/src/inst.c
+++ b/src/inst.c
@@ -91,15 +91,20 @@ void copy_with_renaming(tree_t *roots, int nroots, tree_copy_pred_t tree_pred,
       ident_t orig = tree_ident2(decl);
       for (int j = 0; j < nprefix; j++) {
          if (ident_starts_with(orig, prefixes[j])) {
-            ident_t prefix = ident_runtil(orig, '(');
+            const tree_kind_t kind = tree_kind(decl);
+            const bool is_func = kind == T_FUNC_BODY || kind == T_FUNC_DECL;
+            const int nports = tree_ports(decl);
+
+            // The name of a procedure without parameters has no signature
+            // but that of an enclosing subprogram may
+            ident_t prefix = orig;
+            if (nports > 0 || is_func)
+               prefix = ident_runtil(orig, '(');
 
             LOCAL_TEXT_BUF tb = tb_new();
             tb_cat(tb, istr(dotted));
             tb_cat(tb, istr(prefix) + ident_len(prefixes[j]));
 
-            const tree_kind_t kind = tree_kind(decl);
-            const bool is_func = kind == T_FUNC_BODY || kind == T_FUNC_DECL;
-            const int nports = tree_ports(decl);
             if (nports > 0 || is_func)
                tb_append(tb, '(');
 
-- 
2.43.0

