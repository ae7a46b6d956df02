From 191dd35b1b84a55937026b492fe4f9a56afa76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 01/80] fix: sign-extend when converting unsigned char/short to
 the signed type of the same size

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index eabf11d..b13eb26 100644
--- a/codegen.c
+++ b/codegen.c
@@ -575,8 +575,8 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
-	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
+	{  TOI8,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
-- 
2.43.0


From f44d1f603a9c1a760fbf7b9e629e125d35f79d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 02/80] fix: compare unsigned operands of <= as unsigned

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index b13eb26..0cee3b5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1561,7 +1561,7 @@ static void gen_expr(struct Node *node)
 			println("\tslt a0, a0, a1");
 		break;
 	case ND_LE:
-		if (node->ty->is_unsigned)
+		if (node->lhs->ty->is_unsigned)
 			println("\tsltu a0, a1, a0");
 		else
 			println("\tslt a0, a1, a0");
-- 
2.43.0


From c56376c57480df36bf80e3fbd3d4f19915764820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:47 +0000
Subject: [PATCH 03/80] fix: test the right operand of && with its own type

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 0cee3b5..11024e9 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1182,7 +1182,7 @@ static void gen_expr(struct Node *node)
 		cmp_zero(node->lhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		gen_expr(node->rhs);
-		cmp_zero(node->lhs->ty);
+		cmp_zero(node->rhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		println("\tli a0, 1");
 		println("\tj .L.end.%d", c);
-- 
2.43.0


From b0e6f3b8e0586aa26110bcf7a8004f7bcf5bc32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 04/80] fix: keep unsigned int values sign-extended in
 registers and zero-extend them when widening

---
 codegen.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index 11024e9..46afc80 100644
--- a/codegen.c
+++ b/codegen.c
@@ -414,7 +414,9 @@ static void load(struct Type *ty)
 	else if (ty->size == sizeof(short))
 		println("\tlh%s a0, (a0)", suffix);
 	else if (ty->size == sizeof(int))
-		println("\tlw%s a0, (a0)", suffix);
+		// 32-bit values, unsigned ones included, are kept sign-extended
+		// in registers, as the calling convention requires.
+		println("\tlw a0, (a0)");
 	else
 		println("\tld a0, (a0)");
 }
@@ -554,7 +556,7 @@ static int getTypeId(struct Type *ty)
 
 #define F128U8  combine("\tcall __fixunstfsi@plt", TOU8)
 #define F128U16 combine("\tcall __fixunstfsi@plt", TOU16)
-#define F128U32 combine("\tcall __fixunstfsi@plt", TOU32)
+#define F128U32 combine("\tcall __fixunstfsi@plt", TOI32)
 #define F128U64 "\tcall __fixunstfdi@plt"
 
 #define F32F64  "\tfcvt.d.s fa0, fa0"
@@ -570,15 +572,15 @@ static int getTypeId(struct Type *ty)
 static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	// to
 	// i8      i16      i32      i64      u8      u16      u32      u64      f32      f64      f128            from
-	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
+	{  NULL,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i8
+	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i16
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    I32F32,  I32F64,  I32F128, },  // i32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
 	{  TOI8,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u32
-	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
+	{  TOI8,   TOI16,   NULL,    TOU32,   TOU8,   TOU16,   NULL,    TOU32,   U32F32,  U32F64,  U32F128, },  // u32
+	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOI32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
 	{  F32I8,  F32I16,  F32I32,  F32I64,  F32U8,  F32U16,  F32U32,  F32U64,  NULL,    F32F64,  F32F128, },  // f32
 	{  F64I8,  F64I16,  F64I32,  F64I64,  F64U8,  F64U16,  F64U32,  F64U64,  F64F32,  NULL,    F64F128, },  // f64
@@ -1010,7 +1012,10 @@ static void gen_expr(struct Node *node)
 			return;
 
 		default:
-			println("\tli a0, %ld", node->val);
+			if (node->ty->size == sizeof(int))
+				println("\tli a0, %d", (int)node->val);
+			else
+				println("\tli a0, %ld", node->val);
 			return;
 		}
 
@@ -1056,7 +1061,8 @@ static void gen_expr(struct Node *node)
 			// Clear unused high bits of field member variables
 			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
 			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned)
+			if (mem->ty->is_unsigned &&
+			    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
 				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
 			else
 				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-- 
2.43.0


From 3bc73bc019f355455dc22b5c74da58ee3b1e9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 05/80] fix: apply the integer promotions to the operands of ~,
 <<, >> and unary +

---
 parser/parser.c | 9 ++++++---
 type.c          | 6 ++++++
 type.h          | 1 +
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ceb23a5..e2ba0e7 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -761,9 +761,12 @@ static struct Node *labels;
 // 	 | postfix
 static struct Node *unary(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "+"))
-		// ignore
-		return cast(rest, tok->next);
+	if (equal(tok, "+")) {
+		struct Node *node = cast(rest, tok->next);
+
+		add_type(node);
+		return is_numeric(node->ty) ? int_promotion(node) : node;
+	}
 
 	if (equal(tok, "-"))
 		// depth--
diff --git a/type.c b/type.c
index ac61f5e..656f53b 100644
--- a/type.c
+++ b/type.c
@@ -337,6 +337,11 @@ static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 	*rhs = new_cast(*rhs, ty);
 }
 
+// Any integer type smaller than int is converted to int.
+struct Node *int_promotion(struct Node *node)
+{
+	return new_cast(node, get_common_type(p_ty_int(), node->ty));
+}
 
 void add_type(struct Node *node)
 {
@@ -408,6 +413,7 @@ void add_type(struct Node *node)
 	case ND_BITNOT:
 	case ND_SHL:
 	case ND_SHR:
+		node->lhs = int_promotion(node->lhs);
 		node->ty = node->lhs->ty;
 		break;
 
diff --git a/type.h b/type.h
index 5c99573..5e43034 100644
--- a/type.h
+++ b/type.h
@@ -57,6 +57,7 @@ bool is_float_arg(struct Type *ty);
 bool is_struct_union(struct Type *ty);
 bool is_numeric(struct Type *ty);
 bool is_compatible(struct Type *t1, struct Type *t2);
+struct Node *int_promotion(struct Node *node);
 struct Type *copy_type(struct Type *ty);
 struct Type *pointer_to(struct Type *base);
 struct Type *func_type(struct Type *return_ty);
-- 
2.43.0


From e54a2a634b45bf81a1a6a18d97e7c0b878411c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 06/80] fix: convert floating values to _Bool by comparing them
 with zero

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 46afc80..60dedba 100644
--- a/codegen.c
+++ b/codegen.c
@@ -182,6 +182,7 @@ static bool beyond_instruction_offset(int offset)
 
 static void gen_expr(struct Node *node);
 static void gen_stmt(struct Node *node);
+static void cmp_zero(struct Type *ty);
 
 __attribute__((unused))
 static void absolute_addressing(const char *symbol)
@@ -593,7 +594,8 @@ static void cast(struct Type *from, struct Type *to)
 		return;
 
 	if (to->kind == TY_BOOL) {
-		println("\tsnez a0, a0");
+		cmp_zero(from);
+		println("\txori a0, a0, 1");
 		return;
 	}
 
-- 
2.43.0


From 647c3352e17afe7bfbb8d16d26b3f314e878937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:36 +0000
Subject: [PATCH 07/80] fix: convert _Bool and enum operands with the width and
 sign of their type

---
 codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.c b/codegen.c
index 60dedba..b27bf23 100644
--- a/codegen.c
+++ b/codegen.c
@@ -483,6 +483,10 @@ enum {
 static int getTypeId(struct Type *ty)
 {
 	switch (ty->kind) {
+	case TY_BOOL:
+		return U8;
+	case TY_ENUM:
+		return I32;
 	case TY_CHAR:
 		return ty->is_unsigned ? U8 : I8;
 	case TY_SHORT:
-- 
2.43.0


From fa6b44f01c6f7f192226709693b986ede623dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 08/80] fix: promote enum operands to int

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 656f53b..69cecea 100644
--- a/type.c
+++ b/type.c
@@ -307,9 +307,9 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	if (ty1->kind == TY_FLOAT || ty2->kind == TY_FLOAT)
 		return p_ty_float();
 
-	if (ty1->size < 4)
+	if (ty1->size < 4 || ty1->kind == TY_ENUM)
 		ty1 = p_ty_int();
-	if (ty2->size < 4)
+	if (ty2->size < 4 || ty2->kind == TY_ENUM)
 		ty2 = p_ty_int();
 
 	if (ty1->size != ty2->size)
-- 
2.43.0


From 7c3893f66d28cc7954b9593f39c7ad9b3b8842fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 09/80] fix: wrap folded integer constants to the width of
 their type

---
 parser/common.c | 54 ++++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 9f91de0..b5aa509 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -40,6 +40,30 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
+// Convert a value to the width and signedness of an integer type.
+static int64_t wrap_int(struct Type *ty, int64_t val)
+{
+	if (!is_integer(ty))
+		return val;
+
+	switch (ty->size) {
+	case 1:
+		if (ty->is_unsigned)
+			return (uint8_t)val;
+		return (int8_t)val;
+	case 2:
+		if (ty->is_unsigned)
+			return (uint16_t)val;
+		return (int16_t)val;
+	case 4:
+		if (ty->is_unsigned)
+			return (uint32_t)val;
+		return (int32_t)val;
+	default:
+		return val;
+	}
+}
+
 // Evaluate a given node as a constant expression.
 // A constant expression is either just a number or ptr+n
 // where ptr is a pointer to a global variable and
@@ -57,13 +81,13 @@ int64_t eval2(struct Node *node, const char ***label)
 
 	switch (node->kind) {
 	case ND_ADD:
-		return eval2(node->lhs, label) + eval(node->rhs);
+		return wrap_int(node->ty, eval2(node->lhs, label) + eval(node->rhs));
 
 	case ND_SUB:
-		return eval2(node->lhs, label) - eval(node->rhs);
+		return wrap_int(node->ty, eval2(node->lhs, label) - eval(node->rhs));
 
 	case ND_MUL:
-		return eval(node->lhs) * eval(node->rhs);
+		return wrap_int(node->ty, eval(node->lhs) * eval(node->rhs));
 
 	case ND_DIV:
 		if (node->ty->is_unsigned)
@@ -71,7 +95,7 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval(node->lhs) / eval(node->rhs);
 
 	case ND_NEG:
-		return -eval(node->lhs);
+		return wrap_int(node->ty, -eval(node->lhs));
 
 	case ND_MOD:
 		if (node->ty->is_unsigned)
@@ -88,7 +112,7 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval(node->lhs) ^ eval(node->rhs);
 
 	case ND_SHL:
-		return eval(node->lhs) << eval(node->rhs);
+		return wrap_int(node->ty, eval(node->lhs) << eval(node->rhs));
 
 	case ND_SHR:
 		if (node->ty->is_unsigned && node->ty->size == 8)
@@ -122,7 +146,7 @@ int64_t eval2(struct Node *node, const char ***label)
 		return !eval(node->lhs);
 
 	case ND_BITNOT:
-		return ~eval(node->lhs);
+		return wrap_int(node->ty, ~eval(node->lhs));
 
 	case ND_LOGAND:
 		return eval(node->lhs) && eval(node->rhs);
@@ -132,23 +156,7 @@ int64_t eval2(struct Node *node, const char ***label)
 
 	case ND_CAST:
 		val = eval2(node->lhs, label);
-
-		if (is_integer(node->ty)) {
-			switch (node->ty->size) {
-			case 1:
-				return node->ty->is_unsigned ? (uint8_t)val : (int8_t)val;
-			case 2:
-				return node->ty->is_unsigned ? (uint16_t)val : (int16_t)val;
-			case 4:
-				if (node->ty->is_unsigned)
-					return (uint32_t)val;
-				else
-					return (int32_t)val;
-			default:
-				break;
-			}
-		}
-		return val;
+		return wrap_int(node->ty, val);
 
 	case ND_ADDR:
 		// return label
-- 
2.43.0


From ba6b43fb5d5561c96aa03dbfb1ec9dc792ccce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:57 +0000
Subject: [PATCH 10/80] fix: fold comparisons and conditions with floating
 operands without truncating them

---
 parser/common.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index b5aa509..cffd278 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -64,6 +64,16 @@ static int64_t wrap_int(struct Type *ty, int64_t val)
 	}
 }
 
+// Whether a constant compares unequal to zero.
+static bool eval_bool(struct Node *node)
+{
+	add_type(node);
+
+	if (is_float(node->ty))
+		return eval_double(node) != 0;
+	return eval(node) != 0;
+}
+
 // Evaluate a given node as a constant expression.
 // A constant expression is either just a number or ptr+n
 // where ptr is a pointer to a global variable and
@@ -120,39 +130,47 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval(node->lhs) >> eval(node->rhs);
 
 	case ND_EQ:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) == eval_double(node->rhs);
 		return eval(node->lhs) == eval(node->rhs);
 
 	case ND_NE:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) != eval_double(node->rhs);
 		return eval(node->lhs) != eval(node->rhs);
 
 	case ND_LT:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) < eval_double(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) < (uint64_t)eval(node->rhs);
 		return eval(node->lhs) < eval(node->rhs);
 
 	case ND_LE:
+		if (is_float(node->lhs->ty))
+			return eval_double(node->lhs) <= eval_double(node->rhs);
 		if (node->lhs->ty->is_unsigned)
 			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);
 		return eval(node->lhs) <= eval(node->rhs);
 
 	case ND_COND:
-		return eval(node->cond) ?
+		return eval_bool(node->cond) ?
 		       eval2(node->then, label) : eval2(node->els, label);
 
 	case ND_COMMA:
 		return eval2(node->rhs, label);
 
 	case ND_NOT:
-		return !eval(node->lhs);
+		return !eval_bool(node->lhs);
 
 	case ND_BITNOT:
 		return wrap_int(node->ty, ~eval(node->lhs));
 
 	case ND_LOGAND:
-		return eval(node->lhs) && eval(node->rhs);
+		return eval_bool(node->lhs) && eval_bool(node->rhs);
 
 	case ND_LOGOR:
-		return eval(node->lhs) || eval(node->rhs);
+		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
 		val = eval2(node->lhs, label);
@@ -227,7 +245,7 @@ double eval_double(struct Node *node)
 		return -eval_double(node->lhs);
 
 	case ND_COND:
-		return eval_double(node->cond) ?
+		return eval_bool(node->cond) ?
 			eval_double(node->then) : eval_double(node->els);
 
 	case ND_COMMA:
-- 
2.43.0


From bbfd2553e68294c5da77a33704741a8d66b0aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:31 +0000
Subject: [PATCH 11/80] fix: convert folded constants to the type they are cast
 to or initialise

---
 parser/common.c      | 41 +++++++++++++++++++++++++++++++++++------
 parser/initializer.c |  8 ++++----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index cffd278..df707c9 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -173,7 +173,16 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
+		if (node->ty->kind == TY_BOOL && (!label || is_float(node->lhs->ty)))
+			return eval_bool(node->lhs);
+
+		if (is_float(node->lhs->ty) && node->ty->is_unsigned &&
+		    node->ty->size == 8)
+			return (uint64_t)eval_double(node->lhs);
+
 		val = eval2(node->lhs, label);
+		if (node->ty->kind == TY_BOOL && !*label)
+			return val != 0;
 		return wrap_int(node->ty, val);
 
 	case ND_ADDR:
@@ -217,6 +226,14 @@ int64_t eval(struct Node *node)
 	return eval2(node, NULL);
 }
 
+// Round a value to the precision of a floating type.
+static double round_float(struct Type *ty, double val)
+{
+	if (ty->kind == TY_FLOAT)
+		return (float)val;
+	return val;
+}
+
 double eval_double(struct Node *node)
 {
 	add_type(node);
@@ -230,16 +247,20 @@ double eval_double(struct Node *node)
 
 	switch (node->kind) {
 	case ND_ADD:
-		return eval_double(node->lhs) + eval_double(node->rhs);
+		return round_float(node->ty,
+				eval_double(node->lhs) + eval_double(node->rhs));
 
 	case ND_SUB:
-		return eval_double(node->lhs) - eval_double(node->rhs);
+		return round_float(node->ty,
+				eval_double(node->lhs) - eval_double(node->rhs));
 
 	case ND_MUL:
-		return eval_double(node->lhs) * eval_double(node->rhs);
+		return round_float(node->ty,
+				eval_double(node->lhs) * eval_double(node->rhs));
 
 	case ND_DIV:
-		return eval_double(node->lhs) / eval_double(node->rhs);
+		return round_float(node->ty,
+				eval_double(node->lhs) / eval_double(node->rhs));
 
 	case ND_NEG:
 		return -eval_double(node->lhs);
@@ -253,11 +274,19 @@ double eval_double(struct Node *node)
 
 	case ND_CAST:
 		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs);
+			return round_float(node->ty, eval_double(node->lhs));
+
+		if (node->lhs->ty->is_unsigned) {
+			if (node->ty->kind == TY_FLOAT)
+				return (float)(uint64_t)eval(node->lhs);
+			return (uint64_t)eval(node->lhs);
+		}
+		if (node->ty->kind == TY_FLOAT)
+			return (float)eval(node->lhs);
 		return eval(node->lhs);
 
 	case ND_NUM:
-		return node->fval;
+		return round_float(node->ty, node->fval);
 
 	default:
 		break;
diff --git a/parser/initializer.c b/parser/initializer.c
index ddf1c6e..03b321f 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -669,7 +669,7 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 				char *loc = buf + offset + mem->offset;
 
 				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(expr);
+				uint64_t newval = eval(new_cast(expr, mem->ty));
 				uint64_t mask = (1L << mem->bit_width) - 1;
 				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
 
@@ -694,17 +694,17 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 
 	if (ty->kind == TY_FLOAT) {
-		*(float *)(buf + offset) = eval_double(init->expr);
+		*(float *)(buf + offset) = eval_double(new_cast(init->expr, ty));
 		return cur;
 	}
 
 	if (ty->kind == TY_DOUBLE) {
-		*(double *)(buf + offset) = eval_double(init->expr);
+		*(double *)(buf + offset) = eval_double(new_cast(init->expr, ty));
 		return cur;
 	}
 
 	const char **label = NULL;
-	uint64_t val = eval2(init->expr, &label);
+	uint64_t val = eval2(new_cast(init->expr, ty), &label);
 
 	if (!label) {
 		write_buf(buf + offset, val, ty->size);
-- 
2.43.0


From 1d1dc039bc7b4d61eaca01a2e5d47cb9490a30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 12/80] fix: diagnose a constant division by zero instead of
 crashing

---
 parser/common.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index df707c9..443ea8d 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -74,6 +74,16 @@ static bool eval_bool(struct Node *node)
 	return eval(node) != 0;
 }
 
+// Evaluate the right operand of / or %.
+static int64_t eval_divisor(struct Node *node)
+{
+	int64_t val = eval(node->rhs);
+
+	if (val == 0)
+		error_tok(node->tok, "division by zero in a constant expression");
+	return val;
+}
+
 // Evaluate a given node as a constant expression.
 // A constant expression is either just a number or ptr+n
 // where ptr is a pointer to a global variable and
@@ -100,17 +110,23 @@ int64_t eval2(struct Node *node, const char ***label)
 		return wrap_int(node->ty, eval(node->lhs) * eval(node->rhs));
 
 	case ND_DIV:
+		val = eval_divisor(node);
 		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) / eval(node->rhs);
-		return eval(node->lhs) / eval(node->rhs);
+			return (uint64_t)eval(node->lhs) / val;
+		if (val == -1)
+			return wrap_int(node->ty, -eval(node->lhs));
+		return eval(node->lhs) / val;
 
 	case ND_NEG:
 		return wrap_int(node->ty, -eval(node->lhs));
 
 	case ND_MOD:
+		val = eval_divisor(node);
 		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) % eval(node->rhs);
-		return eval(node->lhs) % eval(node->rhs);
+			return (uint64_t)eval(node->lhs) % val;
+		if (val == -1)
+			return 0;
+		return eval(node->lhs) % val;
 
 	case ND_BITAND:
 		return eval(node->lhs) & eval(node->rhs);
-- 
2.43.0


From 68629d574cafe3926572f065b79c944b22721bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 13/80] fix: diagnose an address used as an integer constant
 instead of crashing

---
 parser/common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/common.c b/parser/common.c
index 443ea8d..e94b981 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -18,6 +18,9 @@ bool consume_end(struct Token **rest, struct Token *tok)
 
 static int64_t eval_rval(struct Node *node, const char ***label)
 {
+	if (!label)
+		error_tok(node->tok, "not a compile-time constant");
+
 	switch (node->kind) {
 		case ND_VAR:
 			if (node->var->is_local)
@@ -206,6 +209,8 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval_rval(node->lhs, label);
 
 	case ND_LABEL_VAL:
+		if (!label)
+			error_tok(node->tok, "not a compile-time constant");
 		*label = &node->unique_label;
 		return 0;
 
-- 
2.43.0


From 210536c967abba460f3b8df7748b2ee93a5af7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:44 +0000
Subject: [PATCH 14/80] fix: treat % and floating conditions as constant in
 array lengths

---
 parser/common.c     | 2 +-
 parser/declarator.c | 3 ++-
 parser/parser.h     | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index e94b981..2472aa2 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -68,7 +68,7 @@ static int64_t wrap_int(struct Type *ty, int64_t val)
 }
 
 // Whether a constant compares unequal to zero.
-static bool eval_bool(struct Node *node)
+bool eval_bool(struct Node *node)
 {
 	add_type(node);
 
diff --git a/parser/declarator.c b/parser/declarator.c
index 7c325b4..b503b5d 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -726,6 +726,7 @@ static bool is_const_expr(struct Node *node)
 	case ND_SUB:
 	case ND_MUL:
 	case ND_DIV:
+	case ND_MOD:
 	case ND_BITAND:
 	case ND_BITOR:
 	case ND_BITXOR:
@@ -743,7 +744,7 @@ static bool is_const_expr(struct Node *node)
 		if (!is_const_expr(node->cond))
 			return false;
 
-		return is_const_expr(eval(node->cond) ? node->then : node->els);
+		return is_const_expr(eval_bool(node->cond) ? node->then : node->els);
 
 	case ND_COMMA:
 		return is_const_expr(node->rhs);
diff --git a/parser/parser.h b/parser/parser.h
index 5463b7a..60d79f6 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -9,6 +9,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
 double eval_double(struct Node *node);
+bool eval_bool(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
-- 
2.43.0


From f19831bf5b1e1418a4cf23a7c1c65407449d1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:34 +0000
Subject: [PATCH 15/80] fix: evaluate #if expressions in 64-bit arithmetic

---
 parser/common.c           | 15 ++++++++++++++-
 parser/parser.c           |  7 +++++++
 parser/parser.h           |  1 +
 preprocessor/preprocess.c |  8 +++++++-
 toycc.h                   |  1 +
 5 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 2472aa2..85e51c5 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -43,10 +43,13 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
+// Set while every integer has at least 64 bits, that is in #if.
+static bool int_is_intmax;
+
 // Convert a value to the width and signedness of an integer type.
 static int64_t wrap_int(struct Type *ty, int64_t val)
 {
-	if (!is_integer(ty))
+	if (!is_integer(ty) || int_is_intmax)
 		return val;
 
 	switch (ty->size) {
@@ -255,6 +258,16 @@ static double round_float(struct Type *ty, double val)
 	return val;
 }
 
+// Evaluate a constant expression in which every integer is an intmax_t
+// or a uintmax_t.
+int64_t eval_intmax(struct Node *node)
+{
+	int_is_intmax = true;
+	int64_t val = eval(node);
+	int_is_intmax = false;
+	return val;
+}
+
 double eval_double(struct Node *node)
 {
 	add_type(node);
diff --git a/parser/parser.c b/parser/parser.c
index e2ba0e7..634dffd 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1016,6 +1016,13 @@ int64_t const_expr(struct Token **rest, struct Token *tok)
 	return eval(n);
 }
 
+// The constant expression of an #if directive.
+int64_t pp_const_expr(struct Token **rest, struct Token *tok)
+{
+	struct Node *n = conditional(rest, tok);
+	return eval_intmax(n);
+}
+
 // assign    = conditional (assign-op assign)?
 // assign-op = "=" | "+=" | "-=" | "*=" | "/=" | "%="
 //	     | "&=" | "|=" | "^=" | "<<=" | ">>="
diff --git a/parser/parser.h b/parser/parser.h
index 60d79f6..d5a7823 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -10,6 +10,7 @@ int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
 double eval_double(struct Node *node);
 bool eval_bool(struct Node *node);
+int64_t eval_intmax(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ebad4a3..d1ebaf3 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -197,8 +197,14 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 	// Convert pp-numbers to regular numbers
 	convert_pp_tokens(expr);
 
+	// In #if, all integers act as if they were intmax_t or uintmax_t.
+	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next) {
+		if (t->kind == TK_NUM && is_integer(t->ty))
+			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
+	}
+
 	struct Token *rest2;
-	long val = const_expr(&rest2, expr);
+	long val = pp_const_expr(&rest2, expr);
 
 	if (rest2->kind != TK_EOF)
 		error_tok(rest2, "extra token");
diff --git a/toycc.h b/toycc.h
index 8bf53b8..20345a7 100644
--- a/toycc.h
+++ b/toycc.h
@@ -312,6 +312,7 @@ struct Obj {
 
 struct Node *new_cast(struct Node *expr, struct Type *ty);
 int64_t const_expr(struct Token **rest, struct Token *tok);
+int64_t pp_const_expr(struct Token **rest, struct Token *tok);
 struct Obj *parser(struct Token *tok);
 
 // codegen.c
-- 
2.43.0


From 38121c384d5f51ee6be51b1dc470624c1c224e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:49 +0000
Subject: [PATCH 16/80] fix: round float and double literals only once

---
 tokenize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 8f8ea23..4295744 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -519,6 +519,8 @@ static void convert_pp_number(struct Token *tok)
 
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
+		// round once, to the precision of the type
+		val = strtof(tok->loc, &end);
 		ty = p_ty_float();
 		end++;
 
@@ -528,6 +530,7 @@ static void convert_pp_number(struct Token *tok)
 
 	} else {
 		// implicit in default
+		val = strtod(tok->loc, &end);
 		ty = p_ty_double();
 	}
 
-- 
2.43.0


From 5d153ca600b496bfb740132db680cdd9c129971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 17/80] fix: keep long double values in a0/a1 and on the stack
 instead of in callee-saved registers

---
 codegen.c | 182 +++++++++++++++---------------------------------------
 1 file changed, 49 insertions(+), 133 deletions(-)

diff --git a/codegen.c b/codegen.c
index b27bf23..055f8ef 100644
--- a/codegen.c
+++ b/codegen.c
@@ -7,13 +7,6 @@
 #define debug(...)
 #endif
 
-// #define LDSP_DEBUG
-#ifdef LDSP_DEBUG
-#define ldsp_debug printf
-#else
-#define ldsp_debug(...)
-#endif
-
 static FILE *output_file;
 
 __attribute__((format(printf, 1, 2)))
@@ -58,20 +51,8 @@ static const char * const argflt[] = {
 	"fa7",
 };
 
-#define push(x) do {				\
-	__push(x);				\
-	ldsp_debug("push depth %d at %s:%d\n",	\
-		depth, __FILE__, __LINE__);	\
-} while (0)
-
-#define pop(x) do {				\
-	__pop(x);				\
-	ldsp_debug("pop depth %d at %s:%d\n",	\
-		depth, __FILE__, __LINE__);	\
-} while (0)
-
 // push reg into 0(sp)
-static void __push(const char *reg)
+static void push(const char *reg)
 {
 	const char *prefix;
 
@@ -86,7 +67,7 @@ static void __push(const char *reg)
 }
 
 // pop 0(sp) to reg
-static void __pop(const char *reg)
+static void pop(const char *reg)
 {
 	const char *prefix;
 
@@ -100,71 +81,33 @@ static void __pop(const char *reg)
 	depth--;
 }
 
-// let the (fs0-fs11) registers be the stack for long double
-static int ld_sp;
-
-#define push_ld() do {				\
-	__push_ld();				\
-	ldsp_debug("push_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define pop_ld() do {				\
-	__pop_ld();				\
-	ldsp_debug("pop_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __push_ld(void)
+// A long double value lives in the register pair a0/a1.
+// push a0/a1 into 0(sp)
+static void push_ld(void)
 {
-	println("\tfmv.d.x fs%d, a0", ld_sp);
-	println("\tfmv.d.x fs%d, a1", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
+	println("\taddi sp, sp, -16");
+	println("\tsd a0, 0(sp)");
+	println("\tsd a1, 8(sp)");
+	depth += 2;
 }
 
-static void __pop_ld(void)
+// pop 0(sp) to a2/a3, the second operand of the library routines
+static void pop_ld(void)
 {
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
-
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 1, ld_sp - 1);
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 2, ld_sp - 2);
-	ld_sp -= 2;
-}
-
-#define load_ld() do {				\
-	__load_ld();				\
-	ldsp_debug("load_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-#define store_ld(x) do {			\
-	__store_ld(x);				\
-	ldsp_debug("store_ld ld_sp %d at %s:%d\n",	\
-		ld_sp, __FILE__, __LINE__);	\
-} while (0)
-
-static void __load_ld(void)
-{
-	println("\tfld fs%d, 0(a0)", ld_sp);
-	println("\tfld fs%d, 8(a0)", ld_sp + 1);
-	ld_sp += 2;
-
-	if (ld_sp >= 12)
-		error("ld_sp can't be larger than 12");
+	println("\tld a2, 0(sp)");
+	println("\tld a3, 8(sp)");
+	println("\taddi sp, sp, 16");
+	depth -= 2;
 }
 
-static void __store_ld(void)
+// Call a routine of libgcc; the stack pointer is a multiple of 16 there.
+static void call_lib(const char *insn)
 {
-	if (ld_sp < 2)
-		error("ld_sp can't be less than 2");
-
-	println("\tfsd fs%d, 8(a1)", ld_sp - 1);
-	println("\tfsd fs%d, 0(a1)", ld_sp - 2);
-	ld_sp -= 2;
+	if (depth % 2)
+		println("\taddi sp, sp, -8");
+	println("%s", insn);
+	if (depth % 2)
+		println("\taddi sp, sp, 8");
 }
 
 // Round up `n` to the nearest multiple of `align`. For instance,
@@ -396,7 +339,8 @@ static void load(struct Type *ty)
 		println("\tfld fa0, (a0)");
 		return;
 	case TY_LDOUBLE:
-		load_ld();
+		println("\tld a1, 8(a0)");
+		println("\tld a0, 0(a0)");
 		return;
 
 	default:
@@ -425,6 +369,13 @@ static void load(struct Type *ty)
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
+	if (ty->kind == TY_LDOUBLE) {
+		pop("t0");
+		println("\tsd a0, 0(t0)");
+		println("\tsd a1, 8(t0)");
+		return;
+	}
+
 	pop("a1");
 
 	switch (ty->kind) {
@@ -455,10 +406,6 @@ static void store(struct Type *ty)
 		println("\tfsd fa0, (a1)");
 		return;
 
-	case TY_LDOUBLE:
-		store_ld();
-		return;
-
 	default:
 		break;
 	}
@@ -609,11 +556,10 @@ static void cast(struct Type *from, struct Type *to)
 	if (cast_matrix[t1][t2]) {
 		debug("cast t1 %d t2 %d", t1, t2);
 
-		if (t1 == F128)
-			pop_ld();
-		println("%s", cast_matrix[t1][t2]);
-		if (t2 == F128)
-			push_ld();
+		if (t1 == F128 || t2 == F128)
+			call_lib(cast_matrix[t1][t2]);
+		else
+			println("%s", cast_matrix[t1][t2]);
 
 		debug("end cast");
 	}
@@ -633,10 +579,9 @@ static void cmp_zero(struct Type *ty)
 		break;
 
 	case TY_LDOUBLE:
-		pop_ld();
 		println("\tli a2, 0");
 		println("\tli a3, 0");
-		println("\tcall __netf2@plt");
+		call_lib("\tcall __netf2@plt");
 		println("\tseqz a0, a0");
 		break;
 
@@ -706,13 +651,7 @@ static void push_args2(struct Node *args, bool first_pass)
 		break;
 
 	case TY_LDOUBLE:
-		println("\taddi sp, sp, -16");
-		println("\tfsd fs%d, 8(sp)", ld_sp - 1);
-		println("\tfsd fs%d, 0(sp)", ld_sp - 2);
-		depth += 2;
-		ld_sp -= 2;
-		ldsp_debug("pop_ld_stack ld_sp %d depth %d at %s:%d\n",
-			ld_sp, depth, __FILE__, __LINE__);
+		push_ld();
 		break;
 
 	default:
@@ -1014,7 +953,6 @@ static void gen_expr(struct Node *node)
 			println("\tli a0, 0x%016lx  # long double %Lf",
 				u.u64x2[0], u.ld);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
-			push_ld();
 			return;
 
 		default:
@@ -1040,8 +978,7 @@ static void gen_expr(struct Node *node)
 		case TY_LDOUBLE:
 			println("\tli t0, -1");
 			println("\tslli t0, t0, 63");
-			debug("negative the value of the long double stack top");
-			println("\txor a%d, a%d, t0", ld_sp + 1, ld_sp + 1);
+			println("\txor a1, a1, t0");
 			return;
 
 		default:
@@ -1306,9 +1243,6 @@ static void gen_expr(struct Node *node)
 		// call function
 		println("\tjalr t0");
 
-		if (node->ty->kind == TY_LDOUBLE)
-			push_ld();
-
 		if (stack_args) {
 			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
 			depth -= stack_args;
@@ -1464,45 +1398,38 @@ static void gen_expr(struct Node *node)
 		return;
 
 	} else if (node->lhs->ty->kind == TY_LDOUBLE) {
-		gen_expr(node->lhs);
 		gen_expr(node->rhs);
-		// Cautions:
-		// Save long double results in fsx registers,
-		// in case ax registers are corrupted.
-		pop_ld();
+		push_ld();
+		gen_expr(node->lhs);
 		pop_ld();
 
 		switch (node->kind) {
 		case ND_ADD:
-			println("\tcall __addtf3@plt");
-			push_ld();
+			call_lib("\tcall __addtf3@plt");
 			break;
 		case ND_SUB:
-			println("\tcall __subtf3@plt");
-			push_ld();
+			call_lib("\tcall __subtf3@plt");
 			break;
 		case ND_MUL:
-			println("\tcall __multf3@plt");
-			push_ld();
+			call_lib("\tcall __multf3@plt");
 			break;
 		case ND_DIV:
-			println("\tcall __divtf3@plt");
-			push_ld();
+			call_lib("\tcall __divtf3@plt");
 			break;
 		case ND_EQ:
-			println("\tcall __eqtf2@plt");
+			call_lib("\tcall __eqtf2@plt");
 			println("\tseqz a0, a0");
 			break;
 		case ND_NE:
-			println("\tcall __netf2@plt");
+			call_lib("\tcall __netf2@plt");
 			println("\tsnez a0, a0");
 			break;
 		case ND_LT:
-			println("\tcall __lttf2@plt");
+			call_lib("\tcall __lttf2@plt");
 			println("\tslti a0, a0, 0");
 			break;
 		case ND_LE:
-			println("\tcall __letf2@plt");
+			call_lib("\tcall __letf2@plt");
 			println("\tslti a0, a0, 1");
 			break;
 		default:
@@ -1785,9 +1712,6 @@ static void gen_stmt(struct Node *node)
 					copy_struct_reg();
 				else
 					copy_struct_mem();
-
-			} else if (ty->kind == TY_LDOUBLE) {
-				pop_ld();
 			}
 		}
 		println("\tj return.%s", current_fn->name);
@@ -2082,10 +2006,6 @@ static void emit_text(struct Obj *prog)
 		push("fp");
 		println("\tmv fp, sp");
 
-		debug("save all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
-
 		debug("Prologue end");
 
 		// Save passed-by-register arguments to the stack
@@ -2165,7 +2085,7 @@ static void emit_text(struct Obj *prog)
 			printf("pre_depth: %d != depth: %d\n",
 				pre_depth, depth);
 
-		assert(depth == pre_depth && ld_sp == 0);
+		assert(depth == pre_depth);
 
 		// [https://www.sigbus.info/n1570#5.1.2.2.3p1]
 		// The C spec defines a special rule for the main function.
@@ -2179,10 +2099,6 @@ static void emit_text(struct Obj *prog)
 		debug("epilogue");
 		println("return.%s:", fn->name);
 
-		debug("restore all fs0~fs11 registers");
-		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d fs%d, ft%d, ft%d", i, i, i);
-
 		// restore sp register
 		println("\tmv sp, fp");
 		// restore fp register
-- 
2.43.0


From cf631c49cd97c2b1dfbc2377f265b22e1391c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:03 +0000
Subject: [PATCH 18/80] fix: emit long double literals in the target's
 binary128 format

---
 codegen.c |  7 ++-----
 toycc.h   |  1 +
 utils.c   | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 055f8ef..cbd2cc5 100644
--- a/codegen.c
+++ b/codegen.c
@@ -918,9 +918,6 @@ static void gen_expr(struct Node *node)
 		double f64;
 		uint64_t u64;
 
-		// Notion: With x86_64's cross-compiler toolchain,
-		// there is a loss of accuracy (128 to 80 bits) here.
-		long double ld;
 		uint64_t u64x2[2];
 	} u;
 
@@ -949,9 +946,9 @@ static void gen_expr(struct Node *node)
 			return;
 
 		case TY_LDOUBLE:
-			u.ld = node->fval;
+			ldouble_bits(node->fval, u.u64x2);
 			println("\tli a0, 0x%016lx  # long double %Lf",
-				u.u64x2[0], u.ld);
+				u.u64x2[0], node->fval);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
 			return;
 
diff --git a/toycc.h b/toycc.h
index 20345a7..28a8298 100644
--- a/toycc.h
+++ b/toycc.h
@@ -330,6 +330,7 @@ void __attribute__((noreturn))
 error_tok(struct Token *tok, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 void warn_tok(struct Token *tok, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 int llog2(int num);
+void ldouble_bits(long double val, uint64_t bits[2]);
 
 // unicode.c
 int encode_utf8(char *buf, uint32_t c);
diff --git a/utils.c b/utils.c
index 4188b7b..6774de4 100644
--- a/utils.c
+++ b/utils.c
@@ -95,3 +95,24 @@ struct Token *skip(struct Token *tok, const char *s)
 		error_tok(tok, "expected '%s'", s);
 	return tok->next;
 }
+
+// Get the binary128 representation, the target's, of a long double.
+// Notion: With x86_64's cross-compiler toolchain, there is a loss of
+// accuracy (128 to 80 bits) here.
+void ldouble_bits(long double val, uint64_t bits[2])
+{
+	uint64_t raw[2] = { 0, 0 };
+
+	memcpy(raw, &val, sizeof(val));
+
+#if __LDBL_MANT_DIG__ == 64
+	// The x87 format has the same exponent, and an explicit integer bit.
+	uint64_t frac = raw[0] & ~(1UL << 63);
+
+	bits[0] = frac << 49;
+	bits[1] = ((raw[1] & 0xffff) << 48) | (frac >> 15);
+#else
+	bits[0] = raw[0];
+	bits[1] = raw[1];
+#endif
+}
-- 
2.43.0


From 601f5e1769bb7d339e1e90f030070774991aa013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:51 +0000
Subject: [PATCH 19/80] fix: pass arguments where the RISC-V calling convention
 assigns them

---
 codegen.c | 597 +++++++++++++++++++++---------------------------------
 toycc.h   |   2 +-
 2 files changed, 234 insertions(+), 365 deletions(-)

diff --git a/codegen.c b/codegen.c
index cbd2cc5..2fd8677 100644
--- a/codegen.c
+++ b/codegen.c
@@ -366,6 +366,51 @@ static void load(struct Type *ty)
 		println("\tld a0, (a0)");
 }
 
+// Copy `size` bytes between the objects that two registers
+// (neither of them t0 nor t1) are pointing to.
+static void copy_bytes(const char *dst, const char *src, int size)
+{
+	for (int i = 0; i < size; i++) {
+		// load & store byte by byte
+		if (beyond_instruction_offset(i)) {
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", src);
+			println("\tlb t1, (t0)");
+
+			println("\tli t0, %d", i);
+			println("\tadd t0, %s, t0", dst);
+			println("\tsb t1, (t0)");
+		} else {
+			println("\tlb t0, %d(%s)", i, src);
+			println("\tsb t0, %d(%s)", i, dst);
+		}
+	}
+}
+
+// Put reg + offset into dst.
+static void add_offset(const char *dst, const char *reg, int offset)
+{
+	if (beyond_instruction_offset(offset)) {
+		println("\tli t0, %d", offset);
+		println("\tadd %s, %s, t0", dst, reg);
+	} else {
+		println("\taddi %s, %s, %d", dst, reg, offset);
+	}
+}
+
+// Load a word from offset(base).
+static void load_word(const char *reg, const char *base, int offset)
+{
+	const char *prefix = (reg[0] == 'f') ? "f" : "";
+
+	if (beyond_instruction_offset(offset)) {
+		add_offset("t0", base, offset);
+		println("\t%sld %s, 0(t0)", prefix, reg);
+	} else {
+		println("\t%sld %s, %d(%s)", prefix, reg, offset, base);
+	}
+}
+
 // Store a0 to an address that the stack top is pointing to.
 static void store(struct Type *ty)
 {
@@ -381,21 +426,7 @@ static void store(struct Type *ty)
 	switch (ty->kind) {
 	case TY_STRUCT:
 	case TY_UNION:
-		for (int i = 0; i < ty->size; i++) {
-			// load & store byte by byte
-			if (beyond_instruction_offset(i)) {
-				println("\tli t0, %d", i);
-				println("\tadd t0, a0, t0");
-				println("\tlb t1, (t0)");
-
-				println("\tli t0, %d", i);
-				println("\tadd t0, a1, t0");
-				println("\tsb t1, (t0)");
-			} else {
-				println("\tlb t0, %d(a0)", i);
-				println("\tsb t0, %d(a1)", i);
-			}
-		}
+		copy_bytes("a1", "a0", ty->size);
 		return;
 
 	case TY_FLOAT:
@@ -592,50 +623,24 @@ static void cmp_zero(struct Type *ty)
 	return;
 }
 
-// Structs or unions equal or smaller than 16 bytes are passed
-// using up to two registers.
-// When structs or unions larger than 16 bytes, save the struct
-// in caller's stack, and transmit the pointer to callee by one
-// register.
+// Push a copy of the struct or union that a0 is pointing to.
 static void push_struct(struct Type *ty)
 {
-	int i;
 	int sz = align_to(ty->size, sizeof(long));
-	int n = sz / sizeof(long);
-
-	// transmission by registers
-	if (n <= 2) {
-		while (n--) {
-			println("\tld t0, %ld(a0)", n * sizeof(long));
-			push("t0");
-		}
-		return;
-	}
-
-	// transmission by stack pointer
-	println("\tadd t1, t1, %d", -sz);
 
-	for (i = 0; i < n; i++) {
-		// push struct content into stack
-		println("\tld t0, %ld(a0)", i * sizeof(long));
-		println("\tsd t0, %ld(t1)", i * sizeof(long));
-	}
-	depth += n;
-
-	push("t1");
+	add_offset("sp", "sp", -sz);
+	depth += sz / sizeof(long);
+	copy_bytes("sp", "a0", ty->size);
 }
 
-static void push_args2(struct Node *args, bool first_pass)
+// Evaluate arguments, and push their values.
+static void push_args2(struct Node *args)
 {
 	if (!args)
 		return;
 
 	// in the right-to-left order
-	push_args2(args->next, first_pass);
-
-	if ((first_pass && !args->pass_by_stack) ||
-	   (!first_pass && args->pass_by_stack))
-		return;
+	push_args2(args->next);
 
 	gen_expr(args);
 
@@ -709,12 +714,25 @@ static void check_struct_contain_float(struct Token *tok,
 	}
 }
 
-// Load function call arguments. Arguments are already evaluated and
-// stored to the stack as local variables. What we need to do in this
-// function is to load them to registers or push them to the stack.
+// Where an argument is passed. Each of its (at most two) words is either
+// in a register or at an offset from the stack pointer at the call.
+struct ArgLoc {
+	int words;
+	bool by_ref;
+	const char *reg[2];
+	int offset[2];
+};
+
+// The registers and the stack space that are already in use.
+struct ArgState {
+	size_t g_arg;
+	size_t f_arg;
+	int stack;
+};
+
+// Here is what the spec says:
 // https://github.com/riscv-non-isa/riscv-elf-psabi-doc/releases
 //
-// Here is what the spec says:
 // - Up to 8 arguments of integral type are passed using a0-a7.
 //
 // - Up to 8 arguments of floating-point type are passed using fa0-fa7.
@@ -723,119 +741,135 @@ static void check_struct_contain_float(struct Token *tok,
 //   whether or not the integer registers have been exhausted.
 //
 // - Variadic arguments are passed according to the integer calling
-//   convention.
+//   convention. Those which are aligned to 16 bytes take an even-odd
+//   register pair.
 //
-// - If all registers of an appropriate type are already used, push an
-//   argument to the stack in the right-to-left order.
-//   float -> integer -> stack
+// - Structs and unions of up to 16 bytes, and long doubles, are passed in
+//   up to two registers, or half in a7 and half on the stack. Larger ones
+//   are passed by reference.
 //
-// - Each argument passed on the stack takes 8 bytes, and the end of
-//   the argument area must be aligned to a 16 byte boundary.
+// - If all registers of an appropriate type are already used, an argument
+//   is passed on the stack, aligned to 8 or 16 bytes.
+static struct ArgLoc locate_arg(struct ArgState *st, struct Type *ty, bool variadic)
+{
+	struct ArgLoc loc = {};
+
+	if (is_float_arg(ty) && !variadic && st->f_arg < MAX_ARG_REGS) {
+		loc.words = 1;
+		loc.reg[0] = argflt[st->f_arg++];
+		return loc;
+	}
+
+	if (is_struct_union(ty) || ty->kind == TY_LDOUBLE)
+		loc.words = align_to(ty->size, sizeof(long)) / sizeof(long);
+	else
+		loc.words = 1;
+
+	bool pair = loc.words == 2 && ty->align >= 16;
+
+	if (loc.words > 2) {
+		loc.words = 1;
+		loc.by_ref = true;
+	}
+
+	if (variadic && pair && st->g_arg % 2 == 1)
+		st->g_arg++;
+
+	for (int i = 0; i < loc.words; i++) {
+		if (st->g_arg < MAX_ARG_REGS) {
+			loc.reg[i] = argreg[st->g_arg++];
+			continue;
+		}
+
+		if (pair && i == 0)
+			st->stack = align_to(st->stack, 16);
+		loc.offset[i] = st->stack;
+		st->stack += sizeof(long);
+	}
+	return loc;
+}
+
+// Load function call arguments. All of them are evaluated first, and
+// saved on the stack in the order of the parameter list. Then they are
+// loaded to registers or copied to the stack area of the callee. Those
+// passed by reference are used in place.
 //
 // +---------------------------------------+
-// |       struct or union in stack        |
-// |---------------------------------------|<--- t1 <---+
-// |                  ...                  |            |
-// |      other args passed by stack       |            |
-// |                  ...                  |            |
-// |---------------------------------------|            |
-// | arg-pointers forwards struct or union |------------+
+// |           values of arguments         |
+// |---------------------------------------|
+// |        arguments passed by stack      |
 // +---------------------------------------+ <--- sp
-static size_t push_args(struct Node *node)
+//
+// Returns the number of words to be removed after the call.
+static int push_args(struct Node *node)
 {
-	size_t stack = 0, struct_stack = 0, g_arg = 0, f_arg = 0;
+	struct ArgState st = {};
 	struct Type *cur_params = node->func_ty->params;
+	int bottom = depth;
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
-		g_arg++;
+	bool has_buffer = node->ret_buffer && node->ty->size > 2 * (int)sizeof(long);
+	if (has_buffer)
+		st.g_arg++;
 
-	// Load as many arguments to the registers as possible.
 	for (struct Node *arg = node->args; arg; arg = arg->next) {
-		if (node->func_ty->is_variadic && cur_params == NULL) {
-			// this parameter is variadic
-			if (g_arg < MAX_ARG_REGS) {
-				g_arg++;
+		bool variadic = !cur_params;
 
-			} else {
-				arg->pass_by_stack = true;
-				stack++;
-			}
-			continue;
-		}
+		if (cur_params)
+			cur_params = cur_params->next;
+		if (is_struct_union(arg->ty))
+			check_struct_contain_float(arg->tok, arg->ty, st.g_arg);
+		locate_arg(&st, arg->ty, variadic);
+	}
 
-		cur_params = cur_params->next;
+	push_args2(node->args);
 
-		if (is_struct_union(arg->ty)) {
-			check_struct_contain_float(arg->tok, arg->ty, g_arg);
+	// fetch function address
+	gen_expr(node->lhs);
+	println("\tmv t2, a0");
 
-			int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-			if (n <= 2) {
-				// transmission struct by stack or register(s)
-				while (n--) {
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-					else
-						stack++;
-				}
-			} else {
-				// reserve stack space for the struct
-				struct_stack += n;
-				stack += n;
+	int area = align_to(st.stack, sizeof(long));
+	if ((depth + area / (int)sizeof(long)) % 2)
+		area += sizeof(long);
+	if (area)
+		add_offset("sp", "sp", -area);
+	depth += area / sizeof(long);
 
-				// push stack pointer
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
-			continue;
-		}
+	st = (struct ArgState){ has_buffer, 0, 0 };
+	cur_params = node->func_ty->params;
+	int pos = area;
 
-		if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS)) {
-			f_arg++;
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		struct ArgLoc loc = locate_arg(&st, arg->ty, !cur_params);
 
-		} else if (arg->ty->kind == TY_LDOUBLE) {
-			for (int i = 1; i <= 2; i++) {
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
+		if (cur_params)
+			cur_params = cur_params->next;
 
-		} else if (g_arg < MAX_ARG_REGS) {
-			g_arg++;
+		for (int i = 0; i < loc.words; i++) {
+			const char *reg = loc.reg[i] ? loc.reg[i] : "t3";
 
-		} else {
-			arg->pass_by_stack = true;
-			stack++;
+			if (loc.by_ref)
+				add_offset(reg, "sp", pos);
+			else
+				load_word(reg, "sp", pos + i * sizeof(long));
+
+			if (!loc.reg[i]) {
+				add_offset("t4", "sp", loc.offset[i]);
+				println("\tsd t3, 0(t4)");
+			}
 		}
-	}
 
-	if ((depth + stack) % 2 == 1) {
-		println("\taddi sp, sp, -8");
-		depth++;
-		stack++;
+		if (is_struct_union(arg->ty))
+			pos += align_to(arg->ty->size, sizeof(long));
+		else
+			pos += loc.words * sizeof(long);
 	}
 
-	// expand space for struct or union in stack
-	println("\tmv t1, sp");
-	println("\tadd sp, sp, -%ld", struct_stack * sizeof(long));
-
-	// push stack arguments
-	push_args2(node->args, true);
-	// push register arguments
-	push_args2(node->args, false);
-
-	// If the return type is a large struct/union, the caller passes
-	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long)) {
-		println("\tadd a0, fp, %d", node->ret_buffer->offset);
-		push("a0");
-	}
+	if (has_buffer)
+		add_offset("a0", "fp", node->ret_buffer->offset);
 
-	return stack;
+	return depth - bottom;
 }
 
 static void copy_ret_buffer(struct Obj *var)
@@ -844,14 +878,16 @@ static void copy_ret_buffer(struct Obj *var)
 
 	debug("copy_ret_buffer size %d", ty->size);
 
+	add_offset("t1", "fp", var->offset);
+
 	for (int i = 0; i < MIN((int)sizeof(long), ty->size); i++) {
-		println("\tsb a0, %d(fp)", var->offset + i);
+		println("\tsb a0, %d(t1)", i);
 		println("\tsrl a0, a0, 8");
 	}
 
 	if (ty->size > (int)sizeof(long)) {
 		for (int i = 8; i < MIN(16, ty->size); i++) {
-			println("\tsb a1, %d(fp)", var->offset + i);
+			println("\tsb a1, %d(t1)", i);
 			println("\tsrl a1, a1, 8");
 		}
 	}
@@ -1163,85 +1199,13 @@ static void gen_expr(struct Node *node)
 			return;
 		}
 
-		// push arguments into stack first
 		int stack_args = push_args(node);
 
-		// fetch function address
-		gen_expr(node->lhs);
-		println("\tmv t0, a0");
-
-		struct Type *cur_params = node->func_ty->params;
-		size_t g_arg = 0, f_arg = 0;
-
-		// If the return type is a large struct/union, the caller passes
-		// a pointer to a buffer as if it were the first argument.
-		if (node->ret_buffer && node->ty->size > (int)sizeof(long) * 2) {
-			debug("pop struct's pointer to a0");
-			pop(argreg[g_arg++]);
-		}
-
-		// then pop arguments from stack
-		for (struct Node *arg = node->args; arg; arg = arg->next) {
-			debug("%sarg %.*s",
-			      node->func_ty->is_variadic ? "variadic " : "",
-			      (int)arg->tok->len, arg->tok->loc);
-
-			// transfer args to variadic function with generic registers
-			if (node->func_ty->is_variadic && cur_params == NULL) {
-				if (g_arg < MAX_ARG_REGS) {
-					if (arg->ty->kind == TY_LDOUBLE) {
-						// In the context of variadic arguments,
-						// ld's first register must be even index,
-						// like a0, a2, a4, a6.
-						if (g_arg % 2 == 1)
-							g_arg++;
-
-						for (int i = 0; i < 2; i++) {
-							if (g_arg < MAX_ARG_REGS)
-								pop(argreg[g_arg++]);
-						}
-					} else {
-						pop(argreg[g_arg++]);
-					}
-
-				}
-				continue;
-			}
-
-			cur_params = cur_params->next;
-
-			if (is_struct_union(arg->ty)) {
-				int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-
-				// transmission by register(s) or stack
-				if (n <= 2) {
-					while (n--) {
-						if (g_arg >= MAX_ARG_REGS)
-							break;
-						pop(argreg[g_arg++]);
-					}
-					continue;
-				}
-			}
-
-			if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS))
-				pop(argflt[f_arg++]);
-
-			else if (arg->ty->kind == TY_LDOUBLE) {
-				for (int i = 0; i < 2; i++) {
-					if (g_arg < MAX_ARG_REGS)
-						pop(argreg[g_arg++]);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS)
-				pop(argreg[g_arg++]);
-		}
-
 		// call function
-		println("\tjalr t0");
+		println("\tjalr t2");
 
 		if (stack_args) {
-			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
+			add_offset("sp", "sp", stack_args * sizeof(long));
 			depth -= stack_args;
 		}
 
@@ -1275,7 +1239,7 @@ static void gen_expr(struct Node *node)
 		if (node->ret_buffer && node->ty->size <= 2 * (int)sizeof(long)) {
 			copy_ret_buffer(node->ret_buffer);
 			debug("mv struct's pointer to a0");
-			println("\tadd a0, fp, %d", node->ret_buffer->offset);
+			add_offset("a0", "fp", node->ret_buffer->offset);
 		}
 
 		debug("end ND_FUNCALL");
@@ -1562,12 +1526,8 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem");
 
 	debug("get struct's pointer passed by caller");
-	println("\tld a1, %d(fp)", var->offset);
-
-	for (int i = 0; i < ty->size; i++) {
-		println("\tlb t0, %d(a0)", i);
-		println("\tsb t0, %d(a1)", i);
-	}
+	load_word("a1", "fp", var->offset);
+	copy_bytes("a1", "a0", ty->size);
 
 	debug("return struct's pointer by a0");
 	println("\tmv a0, a1");
@@ -1748,61 +1708,28 @@ static void assign_lvar_offsets(struct Obj *prog)
 		// +----------------+ bottom (fp)
 		// |   local vars   |
 		// +----------------+
-		int top = 16;
+		struct ArgState st = {};
+		for (struct Obj *var = fn->params; var; var = var->next)
+			locate_arg(&st, var->ty, false);
+
+		if (fn->va_area) {
+			fn->va_size = (MAX_ARG_REGS - st.g_arg) * sizeof(long);
+			// keep the stack pointer a multiple of 16
+			int va_top = 16 + align_to(fn->va_size, 16);
+			fn->va_area->offset = va_top - fn->va_size + st.stack;
+		}
 
-		size_t g_arg = 0, f_arg = 0;
 		// initialize pass-by-stack parameters' offset
+		st = (struct ArgState){};
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			if (is_struct_union(var->ty)) {
-				int sz = align_to(var->ty->size, sizeof(long));
-				int n = sz / sizeof(long);
-
-				if (n <= 2) {
-					if ((g_arg + n) <= MAX_ARG_REGS) {
-						g_arg += n;
-						continue;
-					} else if (g_arg + 1 == MAX_ARG_REGS) {
-						error_tok(var->ty->name_pos,
-							"Not support transmit struct parameter half by register and half by stack");
-					}
-				} else {
-					// Passed by caller stack, so just skip the register.
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-				}
-			} else if (is_float_arg(var->ty)) {
-				if (f_arg < MAX_ARG_REGS) {
-					f_arg++;
-					continue;
-
-				} else if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if (g_arg + 2 <= MAX_ARG_REGS) {
-					g_arg += 2;
-					continue;
-				} else if (g_arg + 1 == MAX_ARG_REGS) {
-					error_tok(var->ty->name_pos, "Not support transmit half of long double by stack");
-				}
-			} else {
-				if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			}
+			struct ArgLoc loc = locate_arg(&st, var->ty, false);
 
-			top = align_to(top, sizeof(long));
-			var->offset = top;
+			if (loc.words == 0 || loc.by_ref || loc.reg[0])
+				continue;
+
+			var->offset = 16 + loc.offset[0];
 			debug("%s's parameter %s offset %d",
 				fn->name, var->name, var->offset);
-			top += var->ty->size;
-		}
-
-		if (fn->va_area) {
-			top = align_to(top, sizeof(long));
-			fn->va_area->offset = top;
 		}
 
 		int bottom = 0;
@@ -1817,7 +1744,7 @@ static void assign_lvar_offsets(struct Obj *prog)
 			var->offset = -bottom;
 		}
 		// initialize stack size
-		fn->stack_size = align_to(bottom, sizeof(long));
+		fn->stack_size = align_to(bottom, 16);
 	}
 }
 
@@ -1884,62 +1811,39 @@ static void emit_data(struct Obj *prog)
 	}
 }
 
-static void store_args(int r, int offset, int sz)
+// Store a word of a parameter, or what is left of it, to offset(fp).
+static void store_arg(const char *reg, int offset, int sz)
 {
-	const char *rs = "sp";
+	const char *prefix = (reg[0] == 'f') ? "f" : "";
 
-	if (beyond_instruction_offset(offset)) {
-		println("\tli t0, %d", offset);
-		println("\tadd t0, sp, t0");
-		rs = "t0";
-		offset = 0;
-	}
+	add_offset("t1", "fp", offset);
 
 	switch (sz) {
 	case sizeof(char):
-		println("\tsb %s, %d(%s)", argreg[r], offset, rs);
+		println("\tsb %s, 0(t1)", reg);
 		break;
 
 	case sizeof(short):
-		println("\tsh %s, %d(%s)", argreg[r], offset, rs);
+		println("\tsh %s, 0(t1)", reg);
 		break;
 
 	case sizeof(int):
-		println("\tsw %s, %d(%s)", argreg[r], offset, rs);
+		println("\t%ssw %s, 0(t1)", prefix, reg);
 		break;
 
 	case sizeof(long):
-		println("\tsd %s, %d(%s)", argreg[r], offset, rs);
+		println("\t%ssd %s, 0(t1)", prefix, reg);
 		break;
 
 	default:
 		for (int i = 0; i < sz; i++) {
-			println("\tsb %s, %d(%s)", argreg[r], offset + i, rs);
-			println("\tsrli %s, %s, 8", argreg[r], argreg[r]);
+			println("\tsb %s, %d(t1)", reg, i);
+			println("\tsrli %s, %s, 8", reg, reg);
 		}
 		break;
 	}
 }
 
-static void store_fltargs(size_t r, int offset, int sz)
-{
-	assert(r < MAX_ARG_REGS);
-
-	switch (sz) {
-	case sizeof(float):
-		println("\tfsw %s, %d(sp)", argflt[r], offset);
-		break;
-
-	case sizeof(double):
-		println("\tfsd %s, %d(sp)", argflt[r], offset);
-		break;
-
-	default:
-		unreachable();
-		break;
-	}
-}
-
 static void emit_text(struct Obj *prog)
 {
 	for (struct Obj *fn = prog; fn; fn = fn->next) {
@@ -1964,39 +1868,10 @@ static void emit_text(struct Obj *prog)
 		// Prologue
 		debug("Prologue");
 
-		int va_size = 0;
-		if (fn->va_area) {
-			size_t va_gp = 0, va_fp = 0;
-
-			for (struct Obj *var = fn->params; var; var = var->next) {
-				// count all used registers by all type parameters
-				struct Type *ty = var->ty;
-
-				switch (ty->kind) {
-				case TY_STRUCT:
-				case TY_UNION:
-					error_tok(var->ty->name_pos,
-						 "Not support transmit struct or union parameter in variadic function");
-					break;
-
-				case TY_FLOAT:
-				case TY_DOUBLE:
-					va_fp < MAX_ARG_REGS ? va_fp++ : va_gp++;
-					break;
-
-				default:
-					va_gp++;
-					break;
-				}
-			}
-
-			// Expand the space only when variadic parameters
-			// are transmitted by registers.
-			if (va_gp < MAX_ARG_REGS) {
-				va_size = (MAX_ARG_REGS - va_gp) * sizeof(long);
-				debug("va_area's size is %d", va_size);
-				println("\tadd sp, sp, -%d", va_size);
-			}
+		int va_size = fn->va_area ? align_to(fn->va_size, 16) : 0;
+		if (va_size) {
+			debug("va_area's size is %d", va_size);
+			println("\tadd sp, sp, -%d", va_size);
 		}
 
 		push("ra");
@@ -2008,36 +1883,30 @@ static void emit_text(struct Obj *prog)
 		// Save passed-by-register arguments to the stack
 		debug("'%s' save args into stack", fn->name);
 
-		size_t g_arg = 0, f_arg = 0;
+		struct ArgState st = {};
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			// pass-by-stack parameters are already in stack now
-			if (var->offset > 0) {
-				if (g_arg < MAX_ARG_REGS) {
-					// Skip the argument register,
-					// only when struct's size > (2 * sizeof(long))
-					assert(is_struct_union(var->ty));
-					g_arg++;
-				}
-
-			} else if (is_struct_union(var->ty)) {
-				store_args(g_arg++, var->offset,
-					   MIN(var->ty->size, (int)sizeof(long)));
+			struct ArgLoc loc = locate_arg(&st, var->ty, false);
 
-				if (var->ty->size > (int)sizeof(long))
-					store_args(g_arg++, var->offset + sizeof(long),
-							    var->ty->size - sizeof(long));
+			// pass-by-stack parameters are already in stack now
+			if (loc.words == 0 || var->offset > 0)
+				continue;
 
-			} else if (is_float_arg(var->ty) && (f_arg < MAX_ARG_REGS)) {
-				store_fltargs(f_arg++, var->offset, var->ty->size);
+			for (int i = 0; i < loc.words; i++) {
+				const char *reg = loc.reg[i];
+				int pos = i * sizeof(long);
 
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if ((g_arg + 1) < MAX_ARG_REGS) {
-					store_args(g_arg++, var->offset, 8);
-					store_args(g_arg++, var->offset + 8, 8);
+				if (!reg) {
+					reg = "t2";
+					load_word(reg, "fp", 16 + loc.offset[i]);
 				}
 
-			} else if (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, var->offset, var->ty->size);
+				if (loc.by_ref) {
+					add_offset("t3", "fp", var->offset);
+					copy_bytes("t3", reg, var->ty->size);
+				} else {
+					store_arg(reg, var->offset + pos,
+						  MIN(var->ty->size - pos, (int)sizeof(long)));
+				}
 			}
 		}
 
@@ -2050,8 +1919,8 @@ static void emit_text(struct Obj *prog)
 			int off = fn->va_area->offset;
 			debug("va_area->offset %d", fn->va_area->offset);
 
-			while (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, off, sizeof(long));
+			while (st.g_arg < MAX_ARG_REGS) {
+				store_arg(argreg[st.g_arg++], off, sizeof(long));
 				off += sizeof(long);
 			}
 
diff --git a/toycc.h b/toycc.h
index 28a8298..cfb2b0e 100644
--- a/toycc.h
+++ b/toycc.h
@@ -224,7 +224,6 @@ struct Node {
 	// function call
 	struct Type *func_ty;
 	struct Node *args;
-	bool pass_by_stack;
 	struct Obj *ret_buffer;
 
 	// Goto or labeled statement, or labels-as-values
@@ -301,6 +300,7 @@ struct Obj {
 	struct Node *body;
 	struct Obj *locals;
 	struct Obj *va_area;
+	int va_size;
 	struct Obj *alloca_bottom;
 	int stack_size;
 
-- 
2.43.0


From ab00fb86478e4cc43bc971553c5188e78fc7b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:33 +0000
Subject: [PATCH 20/80] fix: keep the stack pointer a multiple of 16 after
 alloca

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 2fd8677..e49f620 100644
--- a/codegen.c
+++ b/codegen.c
@@ -915,8 +915,10 @@ static void builtin_alloca(void)
 
 	// t2 = current sp
 	println("\tmv t2, sp");
-	// t3 = new sp
-	println("\tsub sp, sp, t0");
+	// t3 = new sp, which stays a multiple of 16
+	println("\tadd t3, t0, 15");
+	println("\tand t3, t3, -16");
+	println("\tsub sp, sp, t3");
 	println("\tmv t3, sp");
 
 	// Shift the temporary area
-- 
2.43.0


From 302ca5968351c95af9f8be8ffa07e8132cf7a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 21/80] fix: allow a member of a statement expression's struct
 value

---
 codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.c b/codegen.c
index e49f620..526223a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -293,6 +293,7 @@ static void gen_addr(struct Node *node)
 
 	case ND_ASSIGN:
 	case ND_COND:
+	case ND_STMT_EXPR:
 		if (node->ty->kind == TY_STRUCT ||
 		    node->ty->kind == TY_UNION) {
 			gen_expr(node);
-- 
2.43.0


From 3120b910ca3dd544dbacf6bd5f0de0597603d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 22/80] fix: let va_arg fetch long double and struct arguments

---
 include/stdarg.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index b68385e..5ecbdb1 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -10,10 +10,16 @@ do {				\
 
 #define va_end(ap)
 
-#define va_arg(ap, type)		\
-({					\
-	ap += sizeof(long);		\
-	*(type *)(ap - sizeof(long));	\
+// An argument takes a multiple of 8 bytes, and 16-byte aligned ones are
+// aligned; those larger than 16 bytes are passed by reference.
+#define va_arg(ap, type)						\
+({									\
+	if (sizeof(type) <= 16 && _Alignof(type) > sizeof(long))	\
+		ap = (void *)(((unsigned long)ap + 15) & -16);		\
+	ap += sizeof(type) > 16 ? sizeof(long) :			\
+		(sizeof(type) + sizeof(long) - 1) & -sizeof(long);	\
+	*(type *)(sizeof(type) > 16 ? *(void **)(ap - sizeof(long)) :	\
+		ap - ((sizeof(type) + sizeof(long) - 1) & -sizeof(long)));	\
 })
 
 #define __GNUC_VA_LIST 1
-- 
2.43.0


From 97e073c761516961818a38107bf61869bb700c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 23/80] fix: give postfix ++ and -- the old value for _Bool,
 bit-field and floating operands

---
 parser/parser.c | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 634dffd..567feab 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -499,16 +499,54 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
-// Convert A++ to `(typeof A)((A += 1) - 1)`
+// Convert A++ to `tmp = &A, old = *tmp, *tmp = old + 1, (typeof A)old`
+// If A is a bit-field S.x, tmp is &S and *tmp is (*tmp).x.
+// If A is an atomic type, convert it to `(typeof A)((A += 1) - 1)`.
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
 
-	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-	struct Node *node_to_assign = to_assign(node_add);
-	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
+	bool is_bitfield = node->kind == ND_MEMBER && node->member->is_bitfield;
 
-	return new_cast(node_minus, node->ty);
+	if (node->ty->is_atomic && !is_bitfield) {
+		struct Node *node_add = new_add(node, new_num(addend, tok), tok);
+		struct Node *node_to_assign = to_assign(node_add);
+		struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
+
+		return new_cast(node_minus, node->ty);
+	}
+
+	struct Node *obj = is_bitfield ? node->lhs : node;
+	struct Obj *tmp = new_lvar("", pointer_to(obj->ty));
+	struct Obj *old = new_lvar("", node->ty);
+
+	// tmp = &A
+	struct Node *expr1 = new_binary(ND_ASSIGN, new_var_node(tmp, tok),
+					new_unary(ND_ADDR, obj, tok), tok);
+
+	struct Node *load = new_unary(ND_DEREF, new_var_node(tmp, tok), tok);
+	struct Node *store = new_unary(ND_DEREF, new_var_node(tmp, tok), tok);
+
+	if (is_bitfield) {
+		load = new_unary(ND_MEMBER, load, tok);
+		load->member = node->member;
+		store = new_unary(ND_MEMBER, store, tok);
+		store->member = node->member;
+	}
+
+	// old = *tmp
+	struct Node *expr2 = new_binary(ND_ASSIGN, new_var_node(old, tok), load, tok);
+	// *tmp = old + 1
+	struct Node *expr3 = new_binary(ND_ASSIGN, store,
+					new_add(new_var_node(old, tok),
+						new_num(addend, tok), tok),
+					tok);
+
+	struct Node *expr4 = new_cast(new_var_node(old, tok), node->ty);
+
+	return new_binary(ND_COMMA, expr1,
+			  new_binary(ND_COMMA, expr2,
+				     new_binary(ND_COMMA, expr3, expr4, tok), tok), tok);
 }
 
 // postfix = "(" type-name ")" "{" initializer-list "}"
-- 
2.43.0


From 4e06b70192fc4288aa0532c023eeb541d50261d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:01 +0000
Subject: [PATCH 24/80] fix: update atomic struct members atomically in
 compound assignments

---
 parser/parser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 567feab..cb383e1 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -363,9 +363,8 @@ static struct Node *struct_ref(struct Node *node, struct Token *tok)
 // Convert op= operators to expressions containing an assignment.
 //
 // In general, `A op= C` is converted to ``tmp = &A, *tmp = *tmp op B`.
-// However, if a given expression is of form `A.x op= C`, the input is
-// converted to `tmp = &A, (*tmp).x = (*tmp).x op C` to handle assignments
-// to bitfields.
+// However, if a given expression is of form `A.x op= C` and x is a bitfield,
+// the input is converted to `tmp = &A, (*tmp).x = (*tmp).x op C`.
 static struct Node *to_assign(struct Node *binary)
 {
 	add_type(binary->lhs);
@@ -374,7 +373,7 @@ static struct Node *to_assign(struct Node *binary)
 	struct Token *tok = binary->tok;
 
 	// Convert `A.x op= C` to `tmp = &A, (*tmp).x = (*tmp).x op C`.
-	if (binary->lhs->kind == ND_MEMBER) {
+	if (binary->lhs->kind == ND_MEMBER && binary->lhs->member->is_bitfield) {
 		// var tmp
 		struct Obj *var = new_lvar("", pointer_to(binary->lhs->lhs->ty));
 
-- 
2.43.0


From 248704c8341730c530a0e742b09b87f6fa938875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:38 +0000
Subject: [PATCH 25/80] fix: promote bit-fields narrower than int to int

---
 type.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/type.c b/type.c
index 69cecea..fff7676 100644
--- a/type.c
+++ b/type.c
@@ -322,6 +322,17 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	return ty1;
 }
 
+// The type of an operand. If int can represent all the values of
+// a bit-field, it is converted to int.
+static struct Type *operand_type(struct Node *node)
+{
+	if (node->kind == ND_MEMBER && node->member->is_bitfield &&
+	    node->ty->size <= 4 && node->member->bit_width < 32)
+		return p_ty_int();
+
+	return node->ty;
+}
+
 // For many binary operators, we implicitly promote operands so that
 // both operands have the same type. Any integral type smaller than
 // int is always promoted to int. If the type of one operand is larger
@@ -331,7 +342,7 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 // This operation is called the "usual arithmetic conversion".
 static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 {
-	struct Type *ty = get_common_type((*lhs)->ty, (*rhs)->ty);
+	struct Type *ty = get_common_type(operand_type(*lhs), operand_type(*rhs));
 
 	*lhs = new_cast(*lhs, ty);
 	*rhs = new_cast(*rhs, ty);
@@ -340,7 +351,7 @@ static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 // Any integer type smaller than int is converted to int.
 struct Node *int_promotion(struct Node *node)
 {
-	return new_cast(node, get_common_type(p_ty_int(), node->ty));
+	return new_cast(node, get_common_type(p_ty_int(), operand_type(node)));
 }
 
 void add_type(struct Node *node)
@@ -379,7 +390,7 @@ void add_type(struct Node *node)
 		break;
 
 	case ND_NEG: {
-		struct Type *ty = get_common_type(p_ty_int(), node->lhs->ty);
+		struct Type *ty = get_common_type(p_ty_int(), operand_type(node->lhs));
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
 		break;
-- 
2.43.0


From 0c88bfb6268eb6a475dbe4fe6cc9abd0ee5bb65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:38 +0000
Subject: [PATCH 26/80] fix: give bit-field assignments the stored value, and
 handle _Bool and 64-bit wide bit-fields

---
 codegen.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/codegen.c b/codegen.c
index 526223a..5aca747 100644
--- a/codegen.c
+++ b/codegen.c
@@ -946,6 +946,19 @@ static void builtin_alloca(void)
 	println("\tsd a0, (t5)");
 }
 
+// Extract the value of a bit-field that starts at bit `offset` of a0.
+static void extract_bitfield(struct Member *mem, int offset)
+{
+	// Clear unused high bits of field member variables
+	println("\tslli a0, a0, %d", 64 - mem->bit_width - offset);
+	// Clear unused low bits of field member variables
+	if ((mem->ty->is_unsigned || mem->ty->kind == TY_BOOL) &&
+	    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
+		println("\tsrli a0, a0, %d", 64 - mem->bit_width);
+	else
+		println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1036,16 +1049,8 @@ static void gen_expr(struct Node *node)
 		load(node->ty);
 
 		struct Member *mem = node->member;
-		if (mem->is_bitfield) {
-			// Clear unused high bits of field member variables
-			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
-			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned &&
-			    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
-				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
-			else
-				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-		}
+		if (mem->is_bitfield)
+			extract_bitfield(mem, mem->bit_offset);
 		return;
 
 	case ND_DEREF:
@@ -1080,7 +1085,10 @@ static void gen_expr(struct Node *node)
 			debug("merge new value into bit_field");
 
 			println("\tmv t0, a0");
-			println("\tli t1, %ld", (1L << mem->bit_width) - 1);
+			long mask = -1;
+			if (mem->bit_width < 64)
+				mask = (1L << mem->bit_width) - 1;
+			println("\tli t1, %ld", mask);
 			println("\tand t0, t0, t1");
 
 			println("\tslli t0, t0, %d", mem->bit_offset);
@@ -1089,8 +1097,7 @@ static void gen_expr(struct Node *node)
 			println("\tld a0, (sp)");
 			load(mem->ty);
 
-			long mask = ((1L << mem->bit_width) - 1) << mem->bit_offset;
-			println("\tli t1, %ld", ~mask);
+			println("\tli t1, %ld", ~(mask << mem->bit_offset));
 
 			println("\tand a0, a0, t1");
 			println("\tor a0, a0, t0");
@@ -1098,8 +1105,9 @@ static void gen_expr(struct Node *node)
 
 			debug("merge new value into bit_field end");
 
-			// restore value of the bitfield
+			// restore value of the bitfield, as it was stored
 			println("\tmv a0, t2");
+			extract_bitfield(mem, 0);
 			debug("end ND_ASSIGN var");
 			return;
 		}
-- 
2.43.0


From 92e31b8aef7e161d912675dd237aa44504d1df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:51 +0000
Subject: [PATCH 27/80] fix: zero static objects and initialise all bit-fields
 of static structs and unions

---
 parser/initializer.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 03b321f..571ec11 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -646,6 +646,24 @@ static uint64_t read_buf(const char *buf, int sz)
 	unreachable();
 }
 
+static void write_bitfield(struct Initializer *init, struct Member *mem,
+			   char *buf, int offset)
+{
+	if (!init->expr)
+		return;
+
+	char *loc = buf + offset + mem->offset;
+
+	uint64_t oldval = read_buf(loc, mem->ty->size);
+	uint64_t newval = eval(new_cast(init->expr, mem->ty));
+	uint64_t mask = -1;
+	if (mem->bit_width < 64)
+		mask = (1L << mem->bit_width) - 1;
+	uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
+
+	write_buf(loc, combined, mem->ty->size);
+}
+
 static struct Relocation *write_gvar_data(struct Relocation *cur,
 					  struct Initializer *init,
 					  struct Type *ty, char *buf,
@@ -662,18 +680,8 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next) {
 			if (mem->is_bitfield) {
-				struct Node *expr = init->children[mem->idx]->expr;
-				if (!expr)
-					break;
-
-				char *loc = buf + offset + mem->offset;
-
-				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(new_cast(expr, mem->ty));
-				uint64_t mask = (1L << mem->bit_width) - 1;
-				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-
-				write_buf(loc, combined, mem->ty->size);
+				write_bitfield(init->children[mem->idx], mem,
+						buf, offset);
 			} else {
 				cur = write_gvar_data(cur, init->children[mem->idx],
 						mem->ty, buf, offset + mem->offset);
@@ -686,6 +694,12 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		// no handle and just leave it to caller
 		if (!init->mem)
 			return cur;
+
+		if (init->mem->is_bitfield) {
+			write_bitfield(init->children[init->mem->idx], init->mem,
+					buf, offset);
+			return cur;
+		}
 		return write_gvar_data(cur, init->children[init->mem->idx],
 					init->mem->ty, buf, offset);
 	}
@@ -729,7 +743,7 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 {
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
 	struct Relocation head = {};
-	char *buf = malloc(var->ty->size);
+	char *buf = calloc(1, var->ty->size);
 
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
-- 
2.43.0


From cb36b6821de31b58313acb2ad8def29856ebf24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 28/80] fix: convert switch labels to the promoted type of the
 controlling expression

---
 codegen.c       | 10 +++++++---
 parser/parser.c | 24 ++++++++++++++++++++----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5aca747..e9bea16 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1611,7 +1611,9 @@ static void gen_stmt(struct Node *node)
 		println("%s:", node->brk_label);
 		return;
 
-	case ND_SWITCH:
+	case ND_SWITCH: {
+		bool is_word = node->cond->ty->size == 4;
+
 		gen_expr(node->cond);
 
 		for (struct Node *n = node->case_next; n; n = n->case_next) {
@@ -1626,9 +1628,10 @@ static void gen_stmt(struct Node *node)
 			println("\tmv t1, a0");
 			println("\tli t0, %ld", n->begin);
 			// t1 = val - begin
-			println("\tsub t1, t1, t0");
+			println("\tsub%s t1, t1, t0", is_word ? "w" : "");
 			// t2 = end - begin
-			println("\tli t2, %ld", n->end - n->begin);
+			println("\tli t2, %ld", is_word ? (long)(int)(n->end - n->begin)
+							: n->end - n->begin);
 
 			// If 0 <= val - begin <= end - begin,
 			// then jump into the case label.
@@ -1645,6 +1648,7 @@ static void gen_stmt(struct Node *node)
 		gen_stmt(node->then);
 		println("%s:", node->brk_label);
 		return;
+	}
 
 	case ND_CASE:
 		println("%s:", node->label);
diff --git a/parser/parser.c b/parser/parser.c
index cb383e1..2c6e30c 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1168,6 +1168,15 @@ static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 	return node;
 }
 
+// Convert a case label to the type of the controlling expression,
+// in the form its value has in a register.
+static long case_value(long val, struct Type *ty)
+{
+	if (ty->size == 4)
+		return (int)val;
+	return val;
+}
+
 // stmt = "return" expr? ";"
 // 	| "if" "(" expr ")" stmt ("else" stmt)?
 //	| "switch" "(" expr ")" stmt
@@ -1223,6 +1232,10 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
+		add_type(n->cond);
+		if (!is_integer(n->cond->ty))
+			error_tok(n->cond->tok, "switch quantity not an integer");
+		n->cond = int_promotion(n->cond);
 		tok = skip(tok, ")");
 
 		struct Node *sw_prev = current_switch;
@@ -1244,13 +1257,16 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			error_tok(tok, "stray case");
 
 		struct Node *n = new_node(ND_CASE, tok);
-		int begin = const_expr(&tok, tok->next);
-		int end;
+		// case labels have the promoted type of the controlling expression
+		struct Type *ty = current_switch->cond->ty;
+		long begin = case_value(const_expr(&tok, tok->next), ty);
+		long end;
 
 		if (equal(tok, "...")) {
 			// [GNU] Case ranges, e.g. "case 1 ... 5:"
-			end = const_expr(&tok, tok->next);
-			if (end < begin)
+			end = case_value(const_expr(&tok, tok->next), ty);
+			if (ty->is_unsigned ? (unsigned long)end < (unsigned long)begin
+					    : end < begin)
 				error_tok(tok, "empty case range specified");
 		} else {
 			end = begin;
-- 
2.43.0


From aba955ee90f76e02585c71b56676879a89db8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 29/80] fix: lay out unnamed and union bit-fields and packed
 members as the psABI says

---
 parser/declarator.c | 63 ++++++++++++++++++++++++++++++++++++++-------
 toycc.h             |  1 +
 type.h              |  1 +
 3 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index b503b5d..ff93877 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -38,6 +38,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			mem->ty = basety;
 			mem->idx = idx++;
 			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->is_aligned = attr.align;
 			cur = cur->next = mem;
 			continue;
 		}
@@ -56,6 +57,7 @@ static void struct_members(struct Token **rest, struct Token *tok, struct Type *
 			// if _Alignas set, refer to attr.align,
 			// otherwise refer to ty->align.
 			mem->align = attr.align ? attr.align : mem->ty->align;
+			mem->is_aligned = attr.align;
 
 			if (consume(&tok, tok, ":")) {
 				mem->is_bitfield = true;
@@ -151,6 +153,12 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 	// check attribute descriptor again
 	*rest = attribute_list(tok, ty);
 
+	// members of a packed struct are not aligned unless _Alignas asks for it
+	if (ty->is_packed)
+		for (struct Member *mem = ty->members; mem; mem = mem->next)
+			if (!mem->is_aligned)
+				mem->align = 1;
+
 	// register the struct type if a name was given
 	if (tag) {
 		// If there is a redefinition, overwrite a previous type.
@@ -165,6 +173,36 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 	return ty;
 }
 
+// Unnamed bit-fields only occupy space: they cannot be referred to
+// and take no part in initialization.
+static void remove_unnamed_bitfields(struct Type *ty)
+{
+	struct Member head = {};
+	struct Member *cur = &head;
+	int idx = 0;
+
+	for (struct Member *mem = ty->members; mem; mem = mem->next) {
+		if (mem->is_bitfield && !mem->name)
+			continue;
+		mem->idx = idx++;
+		cur = cur->next = mem;
+	}
+
+	cur->next = NULL;
+	ty->members = head.next;
+}
+
+// Raise the alignment of a struct or union to what a member requires
+static void raise_align(struct Type *ty, struct Member *mem)
+{
+	// an unnamed bit-field does not affect the alignment
+	if (mem->is_bitfield && !mem->name)
+		return;
+
+	if (ty->align < mem->align)
+		ty->align = mem->align;
+}
+
 static int align_down(int n, int align)
 {
 	return align_to(n - align + 1, align);
@@ -176,7 +214,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 	struct Type *ty = struct_union_decl(rest, tok);
 	ty->kind = TY_STRUCT;
 
-	if (ty->size < 0)
+	if (ty->size < 0 || ty->is_laid_out)
 		return ty;
 
 	// Assign offsets within the struct to members
@@ -206,17 +244,17 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 				bits += mem->bit_width;
 			}
 		} else {
-			if (!ty->is_packed)
-				bits = align_to(bits, mem->align * 8);
+			bits = align_to(bits, mem->align * 8);
 			mem->offset = bits / 8;
 			bits += mem->ty->size * 8;
 		}
 
 		// align of struct is max among each member's alignment
-		if (!ty->is_packed && ty->align < mem->align)
-			ty->align = mem->align;
+		raise_align(ty, mem);
 	}
 	ty->size = align_to(bits, ty->align * 8) / 8;
+	remove_unnamed_bitfields(ty);
+	ty->is_laid_out = true;
 
 	return ty;
 }
@@ -227,19 +265,24 @@ static struct Type *union_decl(struct Token **rest, struct Token *tok)
 	struct Type *ty = struct_union_decl(rest, tok);
 	ty->kind = TY_UNION;
 
-	if (ty->size < 0)
+	if (ty->size < 0 || ty->is_laid_out)
 		return ty;
 
 	// If union, we don't have to assign offsets because they
 	// are already initialized to 0.
 	// We need to compute the alignment and the size though.
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		if (ty->align < mem->align)
-			ty->align = mem->align;
-		if (ty->size < mem->ty->size)
-			ty->size = mem->ty->size;
+		int size = mem->ty->size;
+		if (mem->is_bitfield)
+			size = align_to(mem->bit_width, 8) / 8;
+
+		raise_align(ty, mem);
+		if (ty->size < size)
+			ty->size = size;
 	}
 	ty->size = align_to(ty->size, ty->align);
+	remove_unnamed_bitfields(ty);
+	ty->is_laid_out = true;
 
 	return ty;
 }
diff --git a/toycc.h b/toycc.h
index cfb2b0e..56bc7ec 100644
--- a/toycc.h
+++ b/toycc.h
@@ -124,6 +124,7 @@ struct Member {
 	struct Token *name;
 	int idx;
 	int align;
+	bool is_aligned;	// _Alignas given
 	int offset;
 
 	// Bitfield
diff --git a/type.h b/type.h
index 5e43034..7327652 100644
--- a/type.h
+++ b/type.h
@@ -29,6 +29,7 @@ struct Type {
 	struct Member *members;
 	bool is_flexible;
 	bool is_packed;
+	bool is_laid_out;	// members have their offsets
 
 	// function type
 	struct Type *return_ty;
-- 
2.43.0


From c8e2dc25407c7b8ec7f62ad846942a62503e2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:37 +0000
Subject: [PATCH 30/80] fix: fold long double constants and accept them in
 static initialisers

---
 parser/common.c      | 43 ++++++++++++++++++++++++++++++-------------
 parser/initializer.c |  6 ++++++
 parser/parser.h      |  2 +-
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 85e51c5..c5206f6 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -251,13 +251,36 @@ int64_t eval(struct Node *node)
 }
 
 // Round a value to the precision of a floating type.
-static double round_float(struct Type *ty, double val)
+static long double round_float(struct Type *ty, long double val)
 {
 	if (ty->kind == TY_FLOAT)
 		return (float)val;
+	if (ty->kind == TY_DOUBLE)
+		return (double)val;
 	return val;
 }
 
+// Evaluate + - * / of a floating type. The operands of a float or double
+// operation are float or double values: computing in double and rounding
+// again to float gives the correctly rounded float.
+static long double eval_float_op(struct Node *node)
+{
+	long double x = eval_double(node->lhs);
+	long double y = eval_double(node->rhs);
+	bool is_ldouble = node->ty->kind == TY_LDOUBLE;
+
+	switch (node->kind) {
+	case ND_ADD:
+		return is_ldouble ? x + y : round_float(node->ty, (double)x + (double)y);
+	case ND_SUB:
+		return is_ldouble ? x - y : round_float(node->ty, (double)x - (double)y);
+	case ND_MUL:
+		return is_ldouble ? x * y : round_float(node->ty, (double)x * (double)y);
+	default:
+		return is_ldouble ? x / y : round_float(node->ty, (double)x / (double)y);
+	}
+}
+
 // Evaluate a constant expression in which every integer is an intmax_t
 // or a uintmax_t.
 int64_t eval_intmax(struct Node *node)
@@ -268,7 +291,7 @@ int64_t eval_intmax(struct Node *node)
 	return val;
 }
 
-double eval_double(struct Node *node)
+long double eval_double(struct Node *node)
 {
 	add_type(node);
 
@@ -281,20 +304,10 @@ double eval_double(struct Node *node)
 
 	switch (node->kind) {
 	case ND_ADD:
-		return round_float(node->ty,
-				eval_double(node->lhs) + eval_double(node->rhs));
-
 	case ND_SUB:
-		return round_float(node->ty,
-				eval_double(node->lhs) - eval_double(node->rhs));
-
 	case ND_MUL:
-		return round_float(node->ty,
-				eval_double(node->lhs) * eval_double(node->rhs));
-
 	case ND_DIV:
-		return round_float(node->ty,
-				eval_double(node->lhs) / eval_double(node->rhs));
+		return eval_float_op(node);
 
 	case ND_NEG:
 		return -eval_double(node->lhs);
@@ -313,10 +326,14 @@ double eval_double(struct Node *node)
 		if (node->lhs->ty->is_unsigned) {
 			if (node->ty->kind == TY_FLOAT)
 				return (float)(uint64_t)eval(node->lhs);
+			if (node->ty->kind == TY_DOUBLE)
+				return (double)(uint64_t)eval(node->lhs);
 			return (uint64_t)eval(node->lhs);
 		}
 		if (node->ty->kind == TY_FLOAT)
 			return (float)eval(node->lhs);
+		if (node->ty->kind == TY_DOUBLE)
+			return (double)eval(node->lhs);
 		return eval(node->lhs);
 
 	case ND_NUM:
diff --git a/parser/initializer.c b/parser/initializer.c
index 571ec11..b0d07fa 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -717,6 +717,12 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	if (ty->kind == TY_LDOUBLE) {
+		ldouble_bits(eval_double(new_cast(init->expr, ty)),
+			     (uint64_t *)(buf + offset));
+		return cur;
+	}
+
 	const char **label = NULL;
 	uint64_t val = eval2(new_cast(init->expr, ty), &label);
 
diff --git a/parser/parser.h b/parser/parser.h
index d5a7823..7e7e156 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,7 +8,7 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
-double eval_double(struct Node *node);
+long double eval_double(struct Node *node);
 bool eval_bool(struct Node *node);
 int64_t eval_intmax(struct Node *node);
 
-- 
2.43.0


From 5f54c8acde7ebe80ffe707f3d09ef3e9442fbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:44 +0000
Subject: [PATCH 31/80] fix: scale differences of pointers to VLAs and diagnose
 invalid operands of + and -

---
 parser/parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 2c6e30c..c750d03 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -716,6 +716,9 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 		rhs = tmp;
 	}
 
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -735,18 +738,25 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	add_type(rhs);
 
 	// num - num
-	if (is_numeric(lhs->ty) && is_numeric(lhs->ty))
+	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
 	// ptr - ptr, which returns how many elements are between the two.
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
 		node->ty = p_ty_long();
+
+		if (lhs->ty->base->kind == TY_VLA)
+			// the size of a VLA is an unsigned long variable
+			return new_binary(ND_DIV, node,
+					  new_cast(new_var_node(lhs->ty->base->vla_size, tok),
+						   p_ty_long()), tok);
+
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
 	// VLA - num
-	if (lhs->ty->base->kind == TY_VLA) {
+	if (lhs->ty->base && is_integer(rhs->ty) && lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
 				 new_var_node(lhs->ty->base->vla_size, tok),
 				 tok);
-- 
2.43.0


From af09d8dbd78642e1e9afb5a82b36a0d3844d6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:46 +0000
Subject: [PATCH 32/80] fix: give ?: of small structs, arrays and null pointers
 the right type

---
 type.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/type.c b/type.c
index fff7676..511a766 100644
--- a/type.c
+++ b/type.c
@@ -300,6 +300,12 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	if (ty2->kind == TY_FUNC)
 		return pointer_to(ty2);
 
+	if (ty2->base)
+		return pointer_to(ty2->base);
+
+	if (is_struct_union(ty1))
+		return ty1;
+
 	if (ty1->kind == TY_LDOUBLE || ty2->kind == TY_LDOUBLE)
 		return p_ty_ldouble();
 	if (ty1->kind == TY_DOUBLE || ty2->kind == TY_DOUBLE)
@@ -354,6 +360,29 @@ struct Node *int_promotion(struct Node *node)
 	return new_cast(node, get_common_type(p_ty_int(), operand_type(node)));
 }
 
+static bool is_null_pointer(struct Node *node)
+{
+	while (node->kind == ND_CAST)
+		node = node->lhs;
+
+	return node->kind == ND_NUM && node->val == 0;
+}
+
+// The type of `c ? lhs : rhs` where both are pointers: a null pointer
+// constant takes the other's type, else a pointer to void wins.
+static struct Type *cond_pointer_type(struct Node *lhs, struct Node *rhs)
+{
+	struct Type *ty1 = lhs->ty->base;
+	struct Type *ty2 = rhs->ty->base;
+
+	if (ty1->kind == TY_VOID && is_null_pointer(lhs))
+		return pointer_to(ty2);
+	if (ty2->kind == TY_VOID && !is_null_pointer(rhs))
+		return pointer_to(ty2);
+
+	return pointer_to(ty1);
+}
+
 void add_type(struct Node *node)
 {
 	if (!node || node->ty)
@@ -436,6 +465,10 @@ void add_type(struct Node *node)
 	case ND_COND:
 		if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
 			node->ty = p_ty_void();
+		} else if (node->then->ty->base && node->els->ty->base) {
+			node->ty = cond_pointer_type(node->then, node->els);
+			node->then = new_cast(node->then, node->ty);
+			node->els = new_cast(node->els, node->ty);
 		} else {
 			usual_arith_conv(&node->then, &node->els);
 			node->ty = node->then->ty;
-- 
2.43.0


From 98953eb603682af1c4ee0591810c1b1e2063d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 33/80] fix: fix the size of a VLA typedef when the typedef is
 reached

---
 parser/declarator.c | 14 ++++++++++++--
 parser/declarator.h |  3 ++-
 parser/parser.c     |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index ff93877..be7a8ae 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -897,7 +897,8 @@ struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 		node = new_binary(ND_COMMA, node,
 				compute_vla_size(ty->base, tok), tok);
 
-	if (ty->kind != TY_VLA)
+	// the size of a typedef'd VLA has already been computed
+	if (ty->kind != TY_VLA || ty->vla_size)
 		return node;
 
 	struct Node *base_sz;
@@ -1013,7 +1014,10 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 	return node;
 }
 
-struct Token *parse_typedef(struct Token *tok, struct Type *basety)
+// In a block, `cur` is where to append the computation of the VLA sizes,
+// which are fixed when the typedef is reached.
+struct Token *parse_typedef(struct Token *tok, struct Type *basety,
+			    struct Node **cur)
 {
 	bool first = true;
 
@@ -1027,6 +1031,12 @@ struct Token *parse_typedef(struct Token *tok, struct Type *basety)
 			error_tok(ty->name_pos, "typedef name omitted");
 
 		push_scope(get_ident(ty->name))->type_def = ty;
+
+		if (cur) {
+			*cur = (*cur)->next =
+				new_unary(ND_EXPR_STMT, compute_vla_size(ty, tok), tok);
+			add_type(*cur);
+		}
 	}
 
 	return tok;
diff --git a/parser/declarator.h b/parser/declarator.h
index c67944a..7a3dbd4 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -16,7 +16,8 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty);
 struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
-struct Token *parse_typedef(struct Token *tok, struct Type *basety);
+struct Token *parse_typedef(struct Token *tok, struct Type *basety,
+			    struct Node **cur);
 void declare_builtin_functions(void);
 struct Node *compute_vla_size(struct Type *ty, struct Token *tok);
 
diff --git a/parser/parser.c b/parser/parser.c
index c750d03..90d7746 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1632,7 +1632,7 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 			struct Type *basety = declspec(&tok, tok, &attr);
 
 			if (attr.is_typedef) {
-				tok = parse_typedef(tok, basety);
+				tok = parse_typedef(tok, basety, &cur);
 				continue;
 			}
 
@@ -1674,7 +1674,7 @@ struct Obj *parser(struct Token *tok)
 
 		// typedef
 		if (attr.is_typedef) {
-			tok = parse_typedef(tok, basety);
+			tok = parse_typedef(tok, basety, NULL);
 			continue;
 		}
 
-- 
2.43.0


From a73ddb22b71ec57dcbffe8253f0e316fa90c5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:04 +0000
Subject: [PATCH 34/80] fix: honour _Alignas and _Thread_local on static locals

---
 parser/declarator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/declarator.c b/parser/declarator.c
index be7a8ae..b29980c 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -959,6 +959,10 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
 
+			var->is_tls = attr->is_tls;
+			if (attr->align)
+				var->align = attr->align;
+
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
 			continue;
-- 
2.43.0


From a9e0680fd629f57c36b3ebd3ebc3eeff19c6d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:27 +0000
Subject: [PATCH 35/80] fix: follow the standard for ##, #, empty arguments,
 __VA_OPT__ and white space in macro expansion

---
 preprocessor/preprocess.c | 191 ++++++++++++++++++++++++--------------
 toycc.h                   |   1 +
 2 files changed, 121 insertions(+), 71 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index d1ebaf3..729f270 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -40,6 +40,7 @@ struct MacroArg {
 	const char *name;	// the name points to parameter's name
 	bool is_va_args;
 	struct Token *tok;
+	struct Token *expanded;	// `tok` after macro expansion, NULL if not needed yet
 };
 
 struct CondIncl {
@@ -56,7 +57,8 @@ static int include_next_idx;
 
 static bool is_hash(struct Token *tok)
 {
-	return tok->at_bol && equal(tok, "#");
+	// A "#" that comes from a macro never starts a directive.
+	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
 // Some preprocessor directives such as #include allow extraneous
@@ -72,6 +74,13 @@ static struct Token *skip_line(struct Token *tok)
 	return tok;
 }
 
+// `tok` stands where `tmpl` stood.
+static void copy_spacing(struct Token *tok, struct Token *tmpl)
+{
+	tok->at_bol = tmpl->at_bol;
+	tok->has_space = tmpl->has_space;
+}
+
 static struct Token *copy_token(struct Token *tok)
 {
 	struct Token *t = malloc(sizeof(struct Token));
@@ -449,7 +458,7 @@ static const char *join_tokens(struct Token *tok, struct Token *end)
 	// Compute the length of the resulting token.
 	int len = 1;
 	for (struct Token *t = tok; t != end && t->kind != TK_EOF; t = t->next) {
-		if (t != tok && t->has_space)
+		if (t != tok && (t->has_space || t->at_bol))
 			len++;
 		len += t->len;
 	}
@@ -459,7 +468,7 @@ static const char *join_tokens(struct Token *tok, struct Token *end)
 	// Copy token texts.
 	int pos = 0;
 	for (struct Token *t = tok; t != end && t->kind != TK_EOF; t = t->next) {
-		if (t != tok && t->has_space)
+		if (t != tok && (t->has_space || t->at_bol))
 			buf[pos++] = ' ';
 
 		strncpy(buf + pos, t->loc, t->len);
@@ -509,46 +518,92 @@ static struct Token *stringize(struct Token *hash, struct Token *arg)
 	// source location for error reporting function, so we use a macro
 	// name token as a template.
 	const char *s = join_tokens(arg, NULL);
-	return new_str_token(s, hash);
+	struct Token *tok = new_str_token(s, hash);
+	copy_spacing(tok, hash);
+	return tok;
+}
+
+// A placemarker stands for an empty argument until the end of the
+// substitution.
+static struct Token *new_placemarker(struct Token *tmpl)
+{
+	struct Token *t = copy_token(tmpl);
+	t->kind = TK_PLACEMARKER;
+	t->len = 0;
+	return t;
 }
 
 // Concatenate two tokens to create a new token.
 static struct Token *paste(struct Token *lhs, struct Token *rhs)
 {
+	struct Token *tok;
+
+	if (lhs->kind == TK_PLACEMARKER || rhs->kind == TK_PLACEMARKER) {
+		tok = copy_token(lhs->kind == TK_PLACEMARKER ? rhs : lhs);
+		copy_spacing(tok, lhs);
+		return tok;
+	}
+
 	// Paste the two tokens.
 	const char *buf = format("%.*s%.*s",
 				(int)lhs->len, lhs->loc,
 				(int)rhs->len, rhs->loc);
 
 	// Tokenize the resulting string.
-	struct Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
+	tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
+	copy_spacing(tok, lhs);
 	return tok;
 }
 
-// check macro's arguments for __VA_ARGS__
-static bool has_varargs(struct MacroArg *args)
+// Macro arguments are completely macro-expanded before they are
+// substituted into a macro body. The argument itself is left alone
+// because # and ## need it as it was written.
+static struct Token *expand_arg(struct MacroArg *arg)
 {
-	for (struct MacroArg *ap = args; ap; ap = ap->next) {
-		if (!strcmp(ap->name, "__VA_ARGS__")) {
-			// check the first argument
-			return ap->tok->kind != TK_EOF;
-		}
-	}
-	return false;
+	if (!arg->expanded)
+		arg->expanded = preprocess2(append(arg->tok, new_eof(arg->tok)));
+	return arg->expanded;
+}
+
+// check macro's arguments for variadic ones
+static struct MacroArg *find_varargs(struct MacroArg *args)
+{
+	for (struct MacroArg *ap = args; ap; ap = ap->next)
+		if (ap->is_va_args)
+			return ap;
+	return NULL;
+}
+
+// Append copies of `tok`, which stands for `tmpl`, to the list ending with
+// `cur` and return the new end. An empty list leaves a placemarker.
+static struct Token *link_tokens(struct Token *cur, struct Token *tok,
+				 struct Token *tmpl)
+{
+	struct Token *last = cur;
+
+	for (; tok->kind != TK_EOF; tok = tok->next)
+		cur = cur->next = copy_token(tok);
+
+	if (cur == last)
+		cur = cur->next = new_placemarker(tmpl);
+
+	copy_spacing(last->next, tmpl);
+	return cur;
 }
 
 // Replace func-like macro parameters with given arguments.
-static struct Token *subst(struct Token *tok, struct MacroArg *args)
+static struct Token *subst(struct Token *tok, struct MacroArg *args,
+			   bool is_objlike)
 {
 	struct Token head = {};
 	struct Token *cur = &head;
 
 	while (tok->kind != TK_EOF) {
 		// "#" followed by a parameter is replaced with stringized actuals.
-		if (equal(tok, "#")) {
+		if (!is_objlike && equal(tok, "#")) {
 			struct MacroArg *arg = find_arg(args, tok->next);
 			if (!arg)
 				error_tok(tok->next, "'#' is not followed by a macro parameter");
@@ -569,6 +624,7 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 				// macro's arguments
 				if (arg->tok->kind == TK_EOF) {
 					// just ignore
+					cur = cur->next = new_placemarker(tok);
 					tok = tok->next->next->next;
 
 				} else {
@@ -612,62 +668,34 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 		// match args' param->name in the macro's body
 		struct MacroArg *arg = find_arg(args, tok);
 
+		// the operand of ## is not expanded,
+		// leave the rest job to forward code
 		if (arg && equal(tok->next, "##")) {
-			struct Token *rhs = tok->next->next;
-
-			// arg is null, directly link rhs' tokens
-			if (arg->tok->kind == TK_EOF) {
-				struct MacroArg *arg2 = find_arg(args, rhs);
-				if (arg2) {
-					for (struct Token *t = arg2->tok; t->kind != TK_EOF; t = t->next)
-						cur = cur->next = copy_token(t);
-				} else {
-					cur = cur->next = copy_token(rhs);
-				}
-
-				tok = rhs->next;
-				continue;
-			}
-
-			for (struct Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
-				cur = cur->next = copy_token(t);
-
+			cur = link_tokens(cur, arg->tok, tok);
 			tok = tok->next;
-			// Just link the arg's tokens,
-			// leave the rest job to forward code
 			continue;
 		}
 
 		// If __VA_ARG__ is empty, __VA_OPT__(x) is expanded to the
 		// empty token list. Otherwise, __VA_OPT__(x) is expanded to x.
-		if (equal(tok, "__VA_OPT__") && equal(tok->next, "(")) {
+		struct MacroArg *va = find_varargs(args);
+		if (va && equal(tok, "__VA_OPT__") && equal(tok->next, "(")) {
+			struct Token *start = tok;
 			// read x argument
 			struct MacroArg *arg_x = read_macro_arg_one(&tok, tok->next->next, true);
 
-			// check macro's arguments for __VA_ARGS__
-			if (has_varargs(args))
-				// expand and insert into token list
-				for (struct Token *t = arg_x->tok; t->kind != TK_EOF; t = t->next)
-					cur = cur->next = t;
+			if (expand_arg(va)->kind == TK_EOF)
+				cur = cur->next = new_placemarker(start);
+			else
+				cur = link_tokens(cur, subst(arg_x->tok, args, false), start);
 
 			tok = skip(tok, ")");
 			continue;
 		}
 
 		// Handle a macro token.
-		// Macro arguments are completely macro-expanded
-		// before they are substituted into a macro body.
 		if (arg) {
-			// expand the macro
-			struct Token *t = preprocess2(arg->tok);
-			t->at_bol = tok->at_bol;
-			t->has_space = tok->has_space;
-
-			for (; t->kind != TK_EOF; t = t->next) {
-				cur->next = copy_token(t);
-				cur = cur->next;
-			}
-
+			cur = link_tokens(cur, expand_arg(arg), tok);
 			tok = tok->next;
 			continue;
 		}
@@ -684,6 +712,38 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 	return head.next;
 }
 
+// Put the substituted body of the macro `macro_token` in front of `rest`.
+// The first token takes the place of the macro. Placemarkers go away,
+// but the white space before them is kept.
+static struct Token *splice_body(struct Token *body, struct Token *rest,
+				 struct Token *macro_token)
+{
+	struct Token head = {};
+	struct Token *cur = &head;
+	bool has_space = false;
+
+	if (body->kind == TK_EOF)
+		has_space = macro_token->has_space || macro_token->at_bol;
+	else
+		copy_spacing(body, macro_token);
+
+	for (struct Token *t = body; t->kind != TK_EOF; t = t->next) {
+		if (t->kind == TK_PLACEMARKER) {
+			has_space = has_space || t->has_space || t->at_bol;
+			continue;
+		}
+
+		cur = cur->next = copy_token(t);
+		cur->origin = macro_token;
+		cur->has_space = cur->has_space || has_space;
+		has_space = false;
+	}
+
+	rest->has_space = rest->has_space || has_space;
+	cur->next = rest;
+	return head.next;
+}
+
 // If tok is a macro, expand it and return true.
 // Otherwise, do nothing and return false.
 static bool expand_macro(struct Token **rest, struct Token *tok)
@@ -701,6 +761,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// Built-in dynamic macro application such as __FILE__ & __LINE__
 	if (m->handler) {
 		*rest = m->handler(tok);
+		copy_spacing(*rest, tok);
 		(*rest)->next = tok->next;
 		return true;
 	}
@@ -709,15 +770,9 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	if (m->is_objlike) {
 		// add macro to the tok's hideset
 		struct Hideset *hs = hideset_union(tok->hideset, new_hideset(m->name));
-		struct Token *body = add_hideset(m->body, hs);
-
-		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-			t->origin = tok;
-
-		*rest = append(body, tok->next);
-		(*rest)->at_bol = tok->at_bol;
-		(*rest)->has_space = tok->has_space;
+		struct Token *body = add_hideset(subst(m->body, NULL, true), hs);
 
+		*rest = splice_body(body, tok->next, tok);
 		return true;
 	}
 
@@ -743,16 +798,10 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// add self into hide-set
 	hs = hideset_union(hs, new_hideset(m->name));
 
-	struct Token *body = subst(m->body, args);
+	struct Token *body = subst(m->body, args, false);
 	body = add_hideset(body, hs);
 
-	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-		t->origin = macro_token;
-
-	*rest = append(body, tok->next);
-	(*rest)->at_bol = macro_token->at_bol;
-	(*rest)->has_space = macro_token->has_space;
-
+	*rest = splice_body(body, tok->next, macro_token);
 	return true;
 }
 
diff --git a/toycc.h b/toycc.h
index 56bc7ec..52ce5e5 100644
--- a/toycc.h
+++ b/toycc.h
@@ -39,6 +39,7 @@ enum TokenKind {
 	TK_STR,		// String literals
 	TK_NUM,		// numeric literals
 	TK_PP_NUM,	// Preprocessing numbers
+	TK_PLACEMARKER,	// Empty operand of ## during macro expansion
 	TK_EOF,		// End-of-file markers
 };
 
-- 
2.43.0


From b33fe77878d20d37d1da5384e6adbe6753c6a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:27 +0000
Subject: [PATCH 36/80] fix: keep every string literal, pp-number and token
 boundary in -E output; allow #line inside #if

---
 main.c                    | 11 ++++++-----
 preprocessor/preprocess.c | 22 +++++++++++++++-------
 toycc.h                   |  1 +
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/main.c b/main.c
index 9d40ae3..7a1227a 100644
--- a/main.c
+++ b/main.c
@@ -467,17 +467,17 @@ static void run_cc1(int argc, const char **argv,
 static void print_tokens(struct Token *tok)
 {
 	FILE *out = open_file(opt_o ? opt_o : "-");
-	bool first_line = true;
+	struct Token *prev = NULL;
 
 	for (; tok->kind != TK_EOF; tok = tok->next) {
-		if (!first_line && tok->at_bol)
+		if (prev && tok->at_bol)
 			fprintf(out, "\n");
-
-		if (tok->has_space && !tok->at_bol)
+		// Tokens that did not touch in the source must not merge.
+		else if (tok->has_space || (prev && prev->loc + prev->len != tok->loc))
 			fprintf(out, " ");
 		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 
-		first_line = false;
+		prev = tok;
 	}
 	fprintf(out, "\n");
 }
@@ -606,6 +606,7 @@ static void cc1(void)
 		return;
 	}
 
+	convert_tokens(tok);
 	struct Obj *prog = parser(tok);
 
 	// Open a temporary output buffer.
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 729f270..f7c52fe 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1042,11 +1042,15 @@ static const char *search_include_next(const char *filename)
 	return NULL;
 }
 
+static struct Token *preprocess2(struct Token *tok);
+static void join_adjacent_string_literals(struct Token *tok);
 // Read #line arguments
 static void read_line_marker(struct Token **rest, struct Token *tok)
 {
 	struct Token *start = tok;
-	tok = preprocessor(copy_line(rest, tok));
+	tok = preprocess2(copy_line(rest, tok));
+	convert_pp_tokens(tok);
+	join_adjacent_string_literals(tok);
 
 	if (tok->kind != TK_NUM || tok->ty->kind != TY_INT)
 		error_tok(tok, "invalid line marker");
@@ -1354,6 +1358,15 @@ struct Token *preprocessor(struct Token *tok)
 	if (cond_incl)
 		error_tok(cond_incl->tok, "unterminated conditional directive");
 
+	for (struct Token *t = tok; t; t = t->next)
+		t->line_no += t->line_delta;
+
+	return tok;
+}
+
+// Convert preprocessing tokens to tokens.
+void convert_tokens(struct Token *tok)
+{
 	// pp-number:
 	// After all replacements due to macro expansion and
 	// the defined unary operator have been performed,
@@ -1363,9 +1376,4 @@ struct Token *preprocessor(struct Token *tok)
 	// each preprocessing token is converted into a token.
 	convert_pp_tokens(tok);
 	join_adjacent_string_literals(tok);
-
-	for (struct Token *t = tok; t; t = t->next)
-		t->line_no += t->line_delta;
-
-	return tok;
-};
+}
diff --git a/toycc.h b/toycc.h
index 52ce5e5..3925f6d 100644
--- a/toycc.h
+++ b/toycc.h
@@ -139,6 +139,7 @@ void init_macros(void);
 void define_macro(const char *name, const char *buf);
 void undef_macro(const char *name);
 struct Token *preprocessor(struct Token *tok);
+void convert_tokens(struct Token *tok);
 bool file_exists(const char *path);
 const char *search_include_paths(const char *filename);
 
-- 
2.43.0


From f62c689269ef37463104d6f8c09a5a7696873a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:49 +0000
Subject: [PATCH 37/80] fix: recognise null directives and skip extra tokens
 after directives

---
 preprocessor/preprocess.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index f7c52fe..0bd1610 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -61,6 +61,12 @@ static bool is_hash(struct Token *tok)
 	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
+// Is `tok` the "#" of the directive `name`? A "#" alone on its line is not.
+static bool is_directive(struct Token *tok, const char *name)
+{
+	return is_hash(tok) && !tok->next->at_bol && equal(tok->next, name);
+}
+
 // Some preprocessor directives such as #include allow extraneous
 // tokens before newline. This function skips such tokens.
 static struct Token *skip_line(struct Token *tok)
@@ -69,7 +75,7 @@ static struct Token *skip_line(struct Token *tok)
 		return tok;
 
 	warn_tok(tok, "extra token");
-	while (tok->at_bol)
+	while (!tok->at_bol)
 		tok = tok->next;
 	return tok;
 }
@@ -237,15 +243,14 @@ static struct CondIncl *push_cond_incl(struct Token *tok, bool included)
 static struct Token *skip_cond_incl2(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
-		if (is_hash(tok) && equal(tok->next, "endif"))
+		if (is_directive(tok, "endif"))
 			return tok->next->next;
 
 		tok = tok->next;
@@ -258,19 +263,17 @@ static struct Token *skip_cond_incl2(struct Token *tok)
 static struct Token *skip_cond_incl(struct Token *tok)
 {
 	while (tok->kind != TK_EOF) {
-		if (is_hash(tok) &&
-		   (equal(tok->next, "if") ||
-		    equal(tok->next, "ifdef") ||
-		    equal(tok->next, "ifndef"))) {
+		if (is_directive(tok, "if") ||
+		    is_directive(tok, "ifdef") ||
+		    is_directive(tok, "ifndef")) {
 			tok = skip_cond_incl2(tok->next->next);
 			continue;
 		}
 
 		// end with #else or #endif
-		if (is_hash(tok) &&
-		   (equal(tok->next, "elif") ||
-		    equal(tok->next, "else") ||
-		    equal(tok->next, "endif")))
+		if (is_directive(tok, "elif") ||
+		    is_directive(tok, "else") ||
+		    is_directive(tok, "endif"))
 			break;
 
 		tok = tok->next;
@@ -1094,6 +1097,10 @@ static struct Token *preprocess2(struct Token *tok)
 		struct Token *start = tok;
 		tok = tok->next;
 
+		// `#`-only line is legal. It's called a null directive.
+		if (tok->at_bol)
+			continue;
+
 		if (equal(tok, "include")) {
 			bool is_dquote;
 			const char *filename =
@@ -1232,10 +1239,6 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "error"))
 			error_tok(tok, "error");
 
-		// `#`-only line is legal. It's called a null directive.
-		if (tok->at_bol)
-			continue;
-
 		error_tok(tok, "invalid preprocessor directive");
 	}
 
-- 
2.43.0


From 71a818da0dadacb6e3dc78263d203a906571655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:14 +0000
Subject: [PATCH 38/80] fix: do not insert a key before its own entry when a
 deleted slot precedes it

---
 hashmap.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hashmap.c b/hashmap.c
index 4947695..bf64389 100644
--- a/hashmap.c
+++ b/hashmap.c
@@ -92,6 +92,7 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 	}
 
 	uint64_t hash = fnv_hash(key, keylen);
+	struct HashEntry *tombstone = NULL;
 
 	for (int i = 0; i < map->capacity; i++) {
 		struct HashEntry *ent = &map->buckets[(hash + i) % map->capacity];
@@ -99,16 +100,20 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 		if (match(ent, key, keylen))
 			return ent;
 
+		// The key may still follow, so only remember the slot.
 		if (ent->key == TOMBSTONE) {
-			ent->key = key;
-			ent->keylen = keylen;
-			return ent;
+			if (!tombstone)
+				tombstone = ent;
+			continue;
 		}
 
 		if (ent->key == NULL) {
+			if (tombstone)
+				ent = tombstone;
+			else
+				map->used++;
 			ent->key = key;
 			ent->keylen = keylen;
-			map->used++;
 			return ent;
 		}
 
-- 
2.43.0


From d644a0f8f901feac0dccd222d844fd0484f14b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 39/80] fix: take a file as include-guarded only if one #ifndef
 group spans all of it

---
 preprocessor/preprocess.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 0bd1610..34ab12f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -949,7 +949,7 @@ bool file_exists(const char *path)
 static const char *detect_include_guard(struct Token *tok)
 {
 	// Detect the first two lines.
-	if (!is_hash(tok) || !equal(tok->next, "ifndef"))
+	if (!is_directive(tok, "ifndef"))
 		return NULL;
 
 	tok = tok->next->next;
@@ -959,26 +959,15 @@ static const char *detect_include_guard(struct Token *tok)
 	const char *macro = strndup(tok->loc, tok->len);
 	tok = tok->next;
 
-	if (!is_hash(tok) ||
-	    !equal(tok->next, "define") ||
+	if (!is_directive(tok, "define") ||
 	    !equal(tok->next->next, macro))
 		return NULL;
 
-	// Read until the end of the file.
-	while (tok->kind != TK_EOF) {
-		if (!is_hash(tok)) {
-			tok = tok->next;
-			continue;
-		}
-
-		if (equal(tok->next, "endif") && tok->next->next->kind == TK_EOF)
-			return macro;
-
-		if (equal(tok, "if") || equal(tok, "ifdef") || equal(tok, "ifndef"))
-			tok = skip_cond_incl(tok->next);
-		else
-			tok = tok->next;
-	}
+	// The whole file is guarded if the group ends with an #endif
+	// that ends the file.
+	tok = skip_cond_incl(tok);
+	if (is_directive(tok, "endif") && tok->next->next->kind == TK_EOF)
+		return macro;
 	return NULL;
 }
 
-- 
2.43.0


From 93516180d18c22fc4f69a70ed8ecd112abaf4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 40/80] fix: apply #pragma once to the file, not to one
 spelling of its path

---
 preprocessor/preprocess.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 34ab12f..d845298 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -971,11 +971,21 @@ static const char *detect_include_guard(struct Token *tok)
 	return NULL;
 }
 
+// The same file may be reached through different spellings of its path.
+static const char *file_identity(const char *path)
+{
+	struct stat st;
+
+	if (stat(path, &st))
+		return path;
+	return format("%lu:%lu", (unsigned long)st.st_dev, (unsigned long)st.st_ino);
+}
+
 static struct Token *include_file(struct Token *tok, const char *path,
 				  struct Token *filename_tok)
 {
 	// Check for "#pragma once"
-	if (hashmap_get(&pragma_once, path))
+	if (hashmap_get(&pragma_once, file_identity(path)))
 		return tok;
 
 	// If we read the same file before, and if the file was guarded
@@ -1213,7 +1223,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "pragma") && equal(tok->next, "once")) {
 			// put current file name into pragma_once
-			hashmap_put(&pragma_once, tok->file->name, (void *)1);
+			hashmap_put(&pragma_once, file_identity(tok->file->name), (void *)1);
 			tok = skip_line(tok->next->next);
 			continue;
 		}
-- 
2.43.0


From 0bfb69b3520a0aee0fb47cf2bfc14c0affff18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 41/80] fix: let #include_next continue after the directory of
 the current file

---
 preprocessor/preprocess.c | 47 ++++++++++++++++-----------------------
 toycc.h                   |  3 +++
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index d845298..a0cf423 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -53,7 +53,6 @@ struct CondIncl {
 static struct HashMap macros;
 static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
-static int include_next_idx;
 
 static bool is_hash(struct Token *tok)
 {
@@ -981,8 +980,9 @@ static const char *file_identity(const char *path)
 	return format("%lu:%lu", (unsigned long)st.st_dev, (unsigned long)st.st_ino);
 }
 
+// `next_idx` is where #include_next of the file continues in the include paths.
 static struct Token *include_file(struct Token *tok, const char *path,
-				  struct Token *filename_tok)
+				  struct Token *filename_tok, int next_idx)
 {
 	// Check for "#pragma once"
 	if (hashmap_get(&pragma_once, file_identity(path)))
@@ -1001,6 +1001,8 @@ static struct Token *include_file(struct Token *tok, const char *path,
 		error_tok(filename_tok, "%s: cannot open file: %s",
 			  path, strerror(errno));
 
+	tok_header->file->include_next_idx = next_idx;
+
 	guard_name = detect_include_guard(tok_header);
 	if (guard_name)
 		hashmap_put(&include_guards, path, (void *)guard_name);
@@ -1008,40 +1010,28 @@ static struct Token *include_file(struct Token *tok, const char *path,
 	return append(tok_header, tok);
 }
 
-const char *search_include_paths(const char *filename)
+// Search a file from the include paths, starting at `*idx`.
+// `*idx` is set to the index that follows the one where the file is found.
+static const char *search_include_from(const char *filename, int *idx)
 {
 	if (filename[0] == '/')
 		return filename;
 
-	static struct HashMap cache;
-
-	const char *cached = hashmap_get(&cache, filename);
-	if (cached)
-		return cached;
-
-	// Search a file from the include paths.
-	for (int i = 0; i < get_include_paths()->len; i++) {
+	for (int i = *idx; i < get_include_paths()->len; i++) {
 		const char *path = format("%s/%s", get_include_paths()->data[i], filename);
 		if (!file_exists(path))
 			continue;
 
-		hashmap_put(&cache, filename, (void *)path);
-		include_next_idx = i + 1;
+		*idx = i + 1;
 		return path;
 	}
 	return NULL;
 }
 
-static const char *search_include_next(const char *filename)
+const char *search_include_paths(const char *filename)
 {
-	for (; include_next_idx < get_include_paths()->len; include_next_idx++) {
-		const char *path = format("%s/%s",
-					   get_include_paths()->data[include_next_idx],
-					   filename);
-		if (file_exists(path))
-			return path;
-	}
-	return NULL;
+	int idx = 0;
+	return search_include_from(filename, &idx);
 }
 
 static struct Token *preprocess2(struct Token *tok);
@@ -1109,22 +1099,23 @@ static struct Token *preprocess2(struct Token *tok)
 				// search under current directory
 				const char *path = format("%s/%s", dirname(strdup(start->file->name)), filename);
 				if (file_exists(path)) {
-					tok = include_file(tok, path, start->next->next);
+					tok = include_file(tok, path, start->next->next, 0);
 					continue;
 				}
 			}
 
-			const char *path = search_include_paths(filename);
-			tok = include_file(tok, path ? path : filename, start->next->next);
+			int idx = 0;
+			const char *path = search_include_from(filename, &idx);
+			tok = include_file(tok, path ? path : filename, start->next->next, idx);
 			continue;
 		}
 
 		if (equal(tok, "include_next")) {
 			bool ignore;
 			const char *filename = read_include_filename(&tok, tok->next, &ignore);
-			const char *path = search_include_next(filename);
-
-			tok = include_file(tok, path ? path : filename, start->next->next);
+			int idx = start->file->include_next_idx;
+			const char *path = search_include_from(filename, &idx);
+			tok = include_file(tok, path ? path : filename, start->next->next, idx);
 			continue;
 		}
 
diff --git a/toycc.h b/toycc.h
index 3925f6d..e1d4754 100644
--- a/toycc.h
+++ b/toycc.h
@@ -75,6 +75,9 @@ struct File {
 	// For #line directive
 	const char *display_name;
 	int line_delta;
+
+	// Where #include_next continues in the include paths
+	int include_next_idx;
 };
 
 bool consume(struct Token **rest, struct Token *tok, const char *str);
-- 
2.43.0


From 0318acdef58a0a8e9104f6eb42c95c80b303c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 42/80] fix: search -I before and -idirafter after the standard
 include directories

---
 main.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/main.c b/main.c
index 7a1227a..345ff52 100644
--- a/main.c
+++ b/main.c
@@ -27,6 +27,7 @@ static const char *base_file;
 static struct StringArray input_paths;
 static struct StringArray tmpfiles;
 static struct StringArray include_paths;
+static struct StringArray idirafter;
 static struct StringArray opt_include;
 static struct StringArray ld_extra_args;
 static struct StringArray std_include_paths;
@@ -161,8 +162,6 @@ static void parse_args(int argc, const char **argv)
 			if (!argv[++i])
 				usage(1);
 
-	struct StringArray idirafter = {};
-
 	for (i = 1; i < argc; i++) {
 		if (!strcmp(argv[i], "-###")) {
 			opt_hash_hash_hash = true;
@@ -212,6 +211,11 @@ static void parse_args(int argc, const char **argv)
 			continue;
 		}
 
+		if (!strcmp(argv[i], "-I")) {
+			strarray_push(&include_paths, argv[++i]);
+			continue;
+		}
+
 		if (!strncmp(argv[i], "-I", 2)) {
 			strarray_push(&include_paths, argv[i] + 2);
 			continue;
@@ -330,7 +334,7 @@ static void parse_args(int argc, const char **argv)
 		}
 
 		if (!strcmp(argv[i], "-idirafter")) {
-			strarray_push(&idirafter, argv[i++]);
+			strarray_push(&idirafter, argv[++i]);
 			continue;
 		}
 
@@ -389,9 +393,6 @@ static void parse_args(int argc, const char **argv)
 		strarray_push(&input_paths, argv[i]);
 	}
 
-	for (int i = 0; i < idirafter.len; i++)
-		strarray_push(&include_paths, idirafter.data[i]);
-
 	if (input_paths.len == 0)
 		error("no input files");
 
@@ -783,18 +784,21 @@ static void add_default_include_paths(const char *argv0)
 {
 	// We expect that toycc-specific include files
 	// are installed to ./include relative to argv[0].
-	strarray_push(&include_paths,
+	strarray_push(&std_include_paths,
 		      format("%s/include", dirname(strdup(argv0))));
 
 	// Add standard include paths.
-	strarray_push(&include_paths, "/usr/local/include");
-	strarray_push(&include_paths, "/usr/riscv64-linux-gnu/include");
-	strarray_push(&include_paths, "/usr/include/riscv64-linux-gnu");
-	strarray_push(&include_paths, "/usr/include");
-
-	// Keep a copy of the standard include paths for -MMD option.
-	for (int i = 0; i < include_paths.len; i++)
-		strarray_push(&std_include_paths, include_paths.data[i]);
+	strarray_push(&std_include_paths, "/usr/local/include");
+	strarray_push(&std_include_paths, "/usr/riscv64-linux-gnu/include");
+	strarray_push(&std_include_paths, "/usr/include/riscv64-linux-gnu");
+	strarray_push(&std_include_paths, "/usr/include");
+
+	// The standard include paths follow those of -I and
+	// precede those of -idirafter.
+	for (int i = 0; i < std_include_paths.len; i++)
+		strarray_push(&include_paths, std_include_paths.data[i]);
+	for (int i = 0; i < idirafter.len; i++)
+		strarray_push(&include_paths, idirafter.data[i]);
 }
 
 static enum FileType get_file_type(const char *filename)
@@ -827,8 +831,8 @@ int main(int argc, const char **argv)
 
 	atexit(cleanup);
 	init_macros();
-	add_default_include_paths(argv[0]);
 	parse_args(argc, argv);
+	add_default_include_paths(argv[0]);
 
 	if (opt_cc1) {
 		cc1();
-- 
2.43.0


From ea39addd79e49c99e9726b713f79472bc3282b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 43/80] fix: list each dependency once, quoted, and give phony
 targets to the listed headers only

---
 main.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index 345ff52..358bcab 100644
--- a/main.c
+++ b/main.c
@@ -527,6 +527,19 @@ static bool in_std_include_path(const char *path)
 	return false;
 }
 
+// Is files[i] to be listed as a dependency?
+static bool is_dependency(struct File **files, int i)
+{
+	if (opt_MMD && in_std_include_path(files[i]->name))
+		return false;
+
+	// A file that is included repeatedly is listed once.
+	for (int j = 0; j < i; j++)
+		if (!strcmp(files[j]->name, files[i]->name))
+			return false;
+	return true;
+}
+
 // If -M options is given, the compiler write a list of input files to
 // stdout in a format that "make" command can read.
 // This feature is used to automate file dependency management.
@@ -550,16 +563,15 @@ static void print_dependencies(void)
 
 	struct File **files = get_input_files();
 
-	for (int i = 0; files[i]; i++) {
-		if (opt_MMD && in_std_include_path(files[i]->name))
-			continue;
-		fprintf(out, " \\\n\t%s", files[i]->name);
-	}
+	for (int i = 0; files[i]; i++)
+		if (is_dependency(files, i))
+			fprintf(out, " \\\n\t%s", quote_makefile(files[i]->name));
 	fprintf(out, "\n");
 
 	if (opt_MP)
-		for (int i = 1; files[i]; i++)
-			fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+		for (int i = 0; files[i]; i++)
+			if (is_dependency(files, i) && strcmp(files[i]->name, base_file))
+				fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
 }
 
 static void cc1(void)
-- 
2.43.0


From afb7a8c3796b4b418680bc5fcf7a0bfba500ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 44/80] fix: diagnose a missing argument of -D, -U, -L and -MQ
 instead of crashing

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 358bcab..ca5005f 100644
--- a/main.c
+++ b/main.c
@@ -83,6 +83,10 @@ static bool take_arg(const char *arg)
 		"-x",
 		"-MF",
 		"-MT",
+		"-MQ",
+		"-D",
+		"-U",
+		"-L",
 		"-Xlinker",
 	};
 
-- 
2.43.0


From eb91e5dc97e736876f21b9382be4a71b6da1f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 45/80] fix: fail when an input cannot be read, e.g. because it
 is a directory

---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 4295744..9be8473 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -756,6 +756,10 @@ static char *read_file(const char *path)
 		fwrite(buf2, 1, n, out);
 	}
 
+	// e.g. the path names a directory
+	if (ferror(fp))
+		return NULL;
+
 	if (fp != stdin)
 		fclose(fp);
 
-- 
2.43.0


From 5fe6406e97507e42fcbd07a9e951edb28d6da11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 46/80] fix: skip directories when searching for an included
 file

---
 preprocessor/preprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index a0cf423..47c28db 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -932,11 +932,11 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	error_tok(tok, "expected a filename");
 }
 
-// Returns true if a given file exists.
+// Returns true if a given file exists. A directory is not a file.
 bool file_exists(const char *path)
 {
 	struct stat st;
-	return !stat(path, &st);
+	return !stat(path, &st) && !S_ISDIR(st.st_mode);
 }
 
 // Detect the following "include guard" pattern.
-- 
2.43.0


From 02cf702536cb84a82838ac5b27d580497d0c6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 47/80] fix: link assembled .s inputs, and do not link with -c,
 -S, -E or -M

---
 main.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/main.c b/main.c
index ca5005f..4d313bd 100644
--- a/main.c
+++ b/main.c
@@ -897,9 +897,17 @@ int main(int argc, const char **argv)
 
 		// handle .s
 		if (type == FILE_ASM) {
-			if (!opt_S)
-				// .s -> .o
-				assemble(input, output);
+			if (opt_S)
+				continue;
+
+			if (!opt_c) {
+				// assemble and link
+				output = create_tmpfile();
+				strarray_push(&ld_args, output);
+			}
+
+			// .s -> .o
+			assemble(input, output);
 			continue;
 		}
 
@@ -936,7 +944,8 @@ int main(int argc, const char **argv)
 		strarray_push(&ld_args, tmp2);
 	}
 
-	if (ld_args.len)
+	// -E, -M, -S and -c do not link.
+	if (ld_args.len && !opt_E && !opt_M && !opt_S && !opt_c)
 		run_linker(&ld_args, opt_o ? opt_o : "a.out");
 
 	return 0;
-- 
2.43.0


From c8a4e7ec7d175a6e635a58e081f4e3faa87c2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 48/80] fix: fail when writing the output fails

---
 main.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 4d313bd..96b6220 100644
--- a/main.c
+++ b/main.c
@@ -418,6 +418,15 @@ static FILE *open_file(const char *path)
 	return out;
 }
 
+// A write error may only show up when the file is flushed.
+static void close_file(FILE *out)
+{
+	if (fflush(out) || ferror(out))
+		error("cannot write output file: %s", strerror(errno));
+	if (out != stdout)
+		fclose(out);
+}
+
 static void run_subprocess(const char **argv)
 {
 	// if -### is given, dump the subprocess's command line
@@ -485,6 +494,7 @@ static void print_tokens(struct Token *tok)
 		prev = tok;
 	}
 	fprintf(out, "\n");
+	close_file(out);
 }
 
 static struct Token *must_tokenize_file(const char *path)
@@ -576,6 +586,8 @@ static void print_dependencies(void)
 		for (int i = 0; files[i]; i++)
 			if (is_dependency(files, i) && strcmp(files[i]->name, base_file))
 				fprintf(out, "%s:\n\n", quote_makefile(files[i]->name));
+
+	close_file(out);
 }
 
 static void cc1(void)
@@ -638,7 +650,7 @@ static void cc1(void)
 	// Write the assembly text to a file.
 	FILE *out = open_file(output_file);
 	fwrite(buf, buflen, 1, out);
-	fclose(out);
+	close_file(out);
 }
 
 static void cleanup(void)
-- 
2.43.0


From e623b849a406a9ba32f2ab065ea58e9b3c90a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 49/80] fix: follow the initializer rules for unions, anonymous
 members, strings and designators

---
 parser/initializer.c | 121 ++++++++++++++++++++++++++++---------------
 1 file changed, 78 insertions(+), 43 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index b0d07fa..3a25a43 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -48,14 +48,27 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
-		tok = skip_excess_element(tok->next);
-		return skip(tok, "}");
+		tok = tok->next;
+		for (bool first = true; !consume_end(&tok, tok); first = false) {
+			if (!first)
+				tok = skip(tok, ",");
+			tok = skip_excess_element(tok);
+		}
+		return tok;
 	}
 
 	assign(&tok, tok);
 	return tok;
 }
 
+// A string literal initializes an array of characters as a whole.
+static bool is_string_initializer(struct Token *tok, struct Initializer *init)
+{
+	return init->ty->kind == TY_ARRAY && tok->kind == TK_STR &&
+	       is_integer(init->ty->base) &&
+	       init->ty->base->size == tok->ty->base->size;
+}
+
 // string-initializer = string-literal
 static void string_initializer(struct Token **rest, struct Token *tok,
 			       struct Initializer *init)
@@ -150,8 +163,8 @@ static struct Member *struct_designator(struct Token **rest,
 		error_tok(tok, "expected a field designator");
 
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		// Anonymous struct member
-		if (mem->ty->kind == TY_STRUCT && !mem->name) {
+		// Anonymous struct or union member
+		if (!mem->name) {
 			// search the member's children
 			if (get_struct_member(mem->ty, tok)) {
 				*rest = start;
@@ -175,9 +188,23 @@ static struct Member *struct_designator(struct Token **rest,
 static void array_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, int i);
 static void struct_initializer2(struct Token **rest, struct Token *tok,
-				struct Initializer *init, struct Member *mem);
+				struct Initializer *init, struct Member *mem,
+				bool first);
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init);
+
+// Only one member of a union is initialized: the last one that is named.
+static struct Initializer *select_union_member(struct Initializer *init,
+					       struct Member *mem)
+{
+	if (init->mem != mem)
+		init->children[mem->idx] = new_initializer(mem->ty, false);
+
+	init->mem = mem;
+	init->expr = NULL;
+	return init->children[mem->idx];
+}
+
 // designation = ("[" const-expr "]" | "." ident)* "="? initializer
 static void designation(struct Token **rest, struct Token *tok, struct Initializer *init)
 {
@@ -205,15 +232,14 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 		init->expr = NULL;
 
 		// init following member
-		struct_initializer2(rest, tok, init, mem->next);
+		struct_initializer2(rest, tok, init, mem->next, false);
 		return;
 	}
 
 	if (equal(tok, ".") && init->ty->kind == TY_UNION) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
-		init->mem = mem;
 
-		designation(rest, tok, init->children[mem->idx]);
+		designation(rest, tok, select_union_member(init, mem));
 		return;
 	}
 
@@ -368,10 +394,9 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 
 // struct-initializer2 = initializer ("," initializer)*
 static void struct_initializer2(struct Token **rest, struct Token *tok,
-				struct Initializer *init, struct Member *mem)
+				struct Initializer *init, struct Member *mem,
+				bool first)
 {
-	bool first = true;
-
 	for (; mem && !is_end(tok); mem = mem->next) {
 		struct Token *start = tok;
 
@@ -398,30 +423,28 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 static void union_initializer(struct Token **rest, struct Token *tok,
 			      struct Initializer *init)
 {
-	bool parentheses = equal(tok, "{");
-
-	if (parentheses && equal(tok->next, ".")) {
-		struct Member *mem = struct_designator(&tok, tok->next, init->ty);
-		init->mem = mem;
+	// set initializer's first member in default
+	struct Member *mem = init->ty->members;
 
-		designation(&tok, tok, init->children[mem->idx]);
-		*rest = skip(tok, "}");
+	if (!equal(tok, "{")) {
+		initializer2(rest, tok, select_union_member(init, mem));
 		return;
 	}
 
-	// set initializer's first member in default
-	init->mem = init->ty->members;
-
-	if (parentheses)
-		tok = tok->next;
-
-	initializer2(&tok, tok, init->children[0]);
+	tok = tok->next;
+	for (bool first = true; !consume_end(rest, tok); first = false) {
+		if (!first)
+			tok = skip(tok, ",");
 
-	if (parentheses) {
-		consume(&tok, tok, ",");
-		*rest = skip(tok, "}");
-	} else {
-		*rest = tok;
+		if (equal(tok, ".")) {
+			struct Member *m = struct_designator(&tok, tok, init->ty);
+			designation(&tok, tok, select_union_member(init, m));
+		} else if (first && mem) {
+			initializer2(&tok, tok, select_union_member(init, mem));
+		} else {
+			// ignore excess elements
+			tok = skip_excess_element(tok);
+		}
 	}
 }
 
@@ -431,11 +454,19 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init)
 {
-	if (init->ty->kind == TY_ARRAY && tok->kind == TK_STR) {
+	if (is_string_initializer(tok, init)) {
 		string_initializer(rest, tok, init);
 		return;
 	}
 
+	// A string literal for an array can be surrounded by braces.
+	if (equal(tok, "{") && is_string_initializer(tok->next, init) &&
+	    is_end(tok->next->next)) {
+		string_initializer(&tok, tok->next, init);
+		consume_end(rest, tok);
+		return;
+	}
+
 	if (init->ty->kind == TY_ARRAY) {
 		if (equal(tok, "{"))
 			array_initializer1(rest, tok, init);
@@ -444,23 +475,26 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
-	if (init->ty->kind == TY_STRUCT) {
-		if (equal(tok, "{")) {
-			struct_initializer1(rest, tok, init);
-			return;
-		}
-
-		// A struct can be initialized with another struct. E.g.
-		// `struct T x = y;` where y is a variable of type `struct T`.
-		// Handle that case first.
+	// A struct can be initialized with another struct. E.g.
+	// `struct T x = y;` where y is a variable of type `struct T`.
+	// Handle that case first.
+	if (is_struct_union(init->ty) && !equal(tok, "{")) {
 		struct Node *expr = assign(rest, tok);
 		add_type(expr);
-		if (expr->ty->kind == TY_STRUCT) {
+		if (is_compatible(expr->ty, init->ty)) {
 			init->expr = expr;
 			return;
 		}
+	}
+
+	if (init->ty->kind == TY_STRUCT) {
+		init->expr = NULL;
+		if (equal(tok, "{")) {
+			struct_initializer1(rest, tok, init);
+			return;
+		}
 
-		struct_initializer2(rest, tok, init, init->ty->members);
+		struct_initializer2(rest, tok, init, init->ty->members, true);
 		return;
 	}
 
@@ -474,6 +508,7 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// braces.
 		// E.g. `int x = {3};`. Handle that case.
 		initializer2(&tok, tok->next, init);
+		consume(&tok, tok, ",");
 		*rest = skip(tok, "}");
 		return;
 	}
@@ -574,7 +609,7 @@ static struct Node *create_lvar_init(struct Initializer *init, struct Type *ty,
 		return node;
 	}
 
-	if (ty->kind == TY_UNION) {
+	if (ty->kind == TY_UNION && !init->expr) {
 		// set initializer's first member in default
 		struct Member *mem = init->mem ? init->mem : ty->members;
 		struct InitDesg desg2 = { desg, 0, mem, NULL };
-- 
2.43.0


From 2bf67e660088c89ac7a5cec13fb4906dd56aeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:32 +0000
Subject: [PATCH 50/80] fix: let arrays of unknown length grow with designated
 and unbraced initializers

---
 parser/initializer.c | 106 ++++++++++++++++++-------------------------
 1 file changed, 43 insertions(+), 63 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 3a25a43..56112e1 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -45,6 +45,28 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 	return init;
 }
 
+// Whether an array has an element to initialize at index `i`. An array
+// whose length is not known grows with its initializers.
+static bool has_element(struct Initializer *init, int i)
+{
+	return init->is_flexible || i < init->ty->array_len;
+}
+
+static struct Initializer *element(struct Initializer *init, int i)
+{
+	int len = MAX(init->ty->array_len, 0);
+
+	if (init->is_flexible && i >= len) {
+		init->children = realloc(init->children,
+					 (i + 1) * sizeof(struct Initializer *));
+		for (; len <= i; len++)
+			init->children[len] = new_initializer(init->ty->base, false);
+		init->ty = array_of(init->ty->base, len);
+	}
+
+	return init->children[i];
+}
+
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
@@ -73,28 +95,28 @@ static bool is_string_initializer(struct Token *tok, struct Initializer *init)
 static void string_initializer(struct Token **rest, struct Token *tok,
 			       struct Initializer *init)
 {
-	if (init->is_flexible)
-		*init = *new_initializer(array_of(init->ty->base, tok->ty->array_len), false);
+	int len = tok->ty->array_len;
 
-	int len = MIN(init->ty->array_len, tok->ty->array_len);
+	if (!init->is_flexible)
+		len = MIN(init->ty->array_len, len);
 
 	switch (init->ty->base->size) {
 	case 1: {
 		const char *str = tok->str;
 		for (int i = 0; i < len; i++)
-			init->children[i]->expr = new_num(str[i], tok);
+			element(init, i)->expr = new_num(str[i], tok);
 		break;
 	}
 	case 2: {
 		uint16_t *str = (uint16_t *)tok->str;
 		for (int i = 0; i < len; i++)
-			init->children[i]->expr = new_num(str[i], tok);
+			element(init, i)->expr = new_num(str[i], tok);
 		break;
 	}
 	case 4: {
 		uint32_t *str = (uint32_t *)tok->str;
 		for (int i = 0; i < len; i++)
-			init->children[i]->expr = new_num(str[i], tok);
+			element(init, i)->expr = new_num(str[i], tok);
 		break;
 	}
 	default:
@@ -132,15 +154,15 @@ static void string_initializer(struct Token **rest, struct Token *tok,
 //
 // array-range designator = "[" const-expr ("..." const-expr)? "]"
 static void array_designator(struct Token **rest, struct Token *tok,
-			     struct Type *ty, int *begin, int *end)
+			     struct Initializer *init, int *begin, int *end)
 {
 	*begin = const_expr(&tok, tok->next);
-	if (*begin >= ty->array_len)
+	if (*begin < 0 || !has_element(init, *begin))
 		error_tok(tok, "array designator index exceeds array bounds");
 
 	if (equal(tok, "...")) {
 		*end = const_expr(&tok, tok->next);
-		if (*end >= ty->array_len)
+		if (!has_element(init, *end))
 			error_tok(tok, "array designator index exceeds array bounds");
 		if (*end < *begin)
 			error_tok(tok, "array designator range [%d, %d] is empty", *begin, *end);
@@ -214,11 +236,11 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 			error_tok(tok, "array index in non-array initializer");
 
 		int begin, end;
-		array_designator(&tok, tok, init->ty, &begin, &end);
+		array_designator(&tok, tok, init, &begin, &end);
 
 		struct Token *tok2;
 		for (int i = begin; i <= end; i++)
-			designation(&tok2, tok, init->children[i]);
+			designation(&tok2, tok, element(init, i));
 
 		// initialize the rest index
 		array_initializer2(rest, tok2, init, end + 1);
@@ -253,43 +275,6 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 	initializer2(rest, tok, init);
 }
 
-// An array length can be omitted if an array has an initializer
-// (e.g. `int x[] = {1,2,3}`). If it's omitted, count the number
-// of initializer elements.
-static int count_array_init_elements(struct Token *tok, struct Type *ty)
-{
-	bool first = true;
-	struct Initializer *dummy = new_initializer(ty->base, true);
-	int i = 0, max = 0;
-
-	while (!consume_end(&tok, tok)) {
-		if (!first)
-			tok = skip(tok, ",");
-		first = false;
-
-		if (equal(tok, "[")) {
-			i = const_expr(&tok, tok->next);
-
-			if (equal(tok, "..."))
-				// [start...end]
-				// i = end
-				i = const_expr(&tok, tok->next);
-
-			tok = skip(tok, "]");
-			designation(&tok, tok, dummy);
-
-		} else {
-			// just count forward
-			initializer2(&tok, tok, dummy);
-		}
-		i++;
-
-		// select max of all array-initializers
-		max = MAX(max, i);
-	}
-	return max;
-}
-
 static bool is_end(struct Token *tok)
 {
 	return equal(tok, "}") || (equal(tok, ",") && equal(tok->next, "}"));
@@ -302,10 +287,10 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 	tok = skip(tok, "{");
 	bool first = true;
 
-	if (init->is_flexible) {
-		int len = count_array_init_elements(tok, init->ty);
-		*init = *new_initializer(array_of(init->ty->base, len), false);
-	}
+	// An array length can be omitted if an array has an initializer
+	// (e.g. `int x[] = {1,2,3}`).
+	if (init->is_flexible && init->ty->array_len < 0)
+		init->ty = array_of(init->ty->base, 0);
 
 	for (int i = 0; !consume_end(rest, tok); i++) {
 		if (!first)
@@ -315,18 +300,18 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 		// there is designator in the array
 		if (equal(tok, "[")) {
 			int begin, end;
-			array_designator(&tok, tok, init->ty, &begin, &end);
+			array_designator(&tok, tok, init, &begin, &end);
 
 			struct Token *tok2;
 			for (int j = begin; j <= end; j++)
-				designation(&tok2, tok, init->children[j]);
+				designation(&tok2, tok, element(init, j));
 			tok = tok2;
 			i = end;
 			continue;
 		}
 
-		if (i < init->ty->array_len)
-			initializer2(&tok, tok, init->children[i]);
+		if (has_element(init, i))
+			initializer2(&tok, tok, element(init, i));
 		else
 			// ignore excess elements
 			tok = skip_excess_element(tok);
@@ -337,12 +322,7 @@ static void array_initializer1(struct Token **rest, struct Token *tok,
 static void array_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, int i)
 {
-	if (init->is_flexible) {
-		int len = count_array_init_elements(tok, init->ty);
-		*init = *new_initializer(array_of(init->ty->base, len), false);
-	}
-
-	for (; i < init->ty->array_len && !is_end(tok); i++) {
+	for (; has_element(init, i) && !is_end(tok); i++) {
 		struct Token *start = tok;
 
 		if (i > 0)
@@ -355,7 +335,7 @@ static void array_initializer2(struct Token **rest, struct Token *tok,
 			return;
 		}
 
-		initializer2(&tok, tok, init->children[i]);
+		initializer2(&tok, tok, element(init, i));
 	}
 
 	*rest = tok;
-- 
2.43.0


From ba390aa498d6997cae0eefc048cd46661656129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 51/80] fix: a pp-number may contain any identifier character

---
 tokenize.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 9be8473..7efa2bd 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -614,12 +614,16 @@ struct Token *tokenize(struct File *file)
 		if (isdigit(*p) || (*p == '.' && isdigit(p[1]))) {
 			const char *q = p++;
 			for (;;) {
+				const char *next;
+
 				if (p[0] && p[1] &&
 					strchr("eEpP", p[0]) &&
 					strchr("+-", p[1]))
 					p += 2;
-				else if (isalnum(*p) || *p == '.')
+				else if (*p == '.')
 					p++;
+				else if (is_ident2(decode_utf8(&next, p)))
+					p = next;
 				else
 					break;
 			}
-- 
2.43.0


From a24c6916634ea42324fbe40007ad134987cc0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 52/80] fix: reject the concatenation of u8 and u strings

---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 47c28db..65be1ca 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1246,7 +1246,7 @@ enum StringKind {
 
 static enum StringKind getStringKind(struct Token *tok)
 {
-	if (!strcmp(tok->loc, "u8"))
+	if (!strncmp(tok->loc, "u8", 2))
 		return STR_UTF8;
 
 	switch (tok->loc[0]) {
-- 
2.43.0


From 6930d0ba83bec4f46aa1f4d41272dc6edf6f9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 53/80] fix: reject 08 and 0x1.8 as numeric constants

---
 tokenize.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 7efa2bd..4cd627c 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -517,6 +517,15 @@ static void convert_pp_number(struct Token *tok)
 	char *end;
 	long double val = strtold(tok->loc, &end);
 
+	// which needs a point, an exponent (if hexadecimal) or an 'f'
+	bool hex = !strncasecmp(tok->loc, "0x", 2);
+	bool has_mark = *end == 'f' || *end == 'F';
+	for (size_t i = 0; i < tok->len; i++)
+		if (strchr(hex ? "pP" : ".eE", tok->loc[i]))
+			has_mark = true;
+	if (!has_mark)
+		error_tok(tok, "invalid numeric constant");
+
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
 		// round once, to the precision of the type
-- 
2.43.0


From 88d53dae22aea5f40808f20dcbe9c58becf0b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 54/80] fix: U'\xffffffff' is not negative

---
 tokenize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenize.c b/tokenize.c
index 4cd627c..52b5c58 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -713,6 +713,7 @@ struct Token *tokenize(struct File *file)
 		// utf-32 => wide character
 		if (startwith(p, "U'")) {
 			cur = cur->next = read_char_literal(p, p + 1, p_ty_uint());
+			cur->val = (uint32_t)cur->val;
 			p += cur->len;
 			continue;
 		}
-- 
2.43.0


From 678b16d1f8a8a686e79b447246df8cd75b21374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 55/80] fix: a char literal ends on its line and is not empty

---
 tokenize.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 52b5c58..4c9024f 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -395,8 +395,10 @@ static struct Token *read_char_literal(const char *start,
 					struct Type *ty)
 {
 	const char *p = quote + 1;
-	if (*p == '\0')
+	if (*p == '\n' || *p == '\0')
 		error_at(start, "unclosed char literal");
+	if (*p == '\'')
+		error_at(start, "empty char literal");
 
 	int c;
 	if (*p == '\\')
@@ -404,12 +406,18 @@ static struct Token *read_char_literal(const char *start,
 	else
 		c = decode_utf8(&p, p);
 
-	const char *end = strchr(p, '\'');
-	if (!end)
-		error_at(p, "unclosed char literal");
+	// the rest of a multi-character constant does not matter
+	for (; *p != '\''; p++) {
+		if (*p == '\n' || *p == '\0')
+			error_at(start, "unclosed char literal");
+
+		if (*p == '\\' && p[1])
+			// skip next char
+			p++;
+	}
 
 	// skip '\''
-	struct Token *tok = new_token(TK_NUM, start, end + 1);
+	struct Token *tok = new_token(TK_NUM, start, p + 1);
 	tok->val = c;
 	tok->ty = ty;
 	return tok;
-- 
2.43.0


From f95b915d655b5e5674956ab0a8b2e5aca40acb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 56/80] fix: comments and strings of -D texts end with the text

---
 tokenize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 4c9024f..b386766 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -257,7 +257,7 @@ static const char *string_literal_end(const char *start)
 			// continue;
 			error_at(start, "unclosed string literal");
 
-		if (*p == '\\')
+		if (*p == '\\' && p[1])
 			// skip next char
 			p++;
 	}
@@ -584,7 +584,7 @@ struct Token *tokenize(struct File *file)
 		// Skip line comments
 		if (startwith(p, "//")) {
 			p += 2;
-			while (*p != '\n')
+			while (*p && *p != '\n')
 				p++;
 
 			has_space = true;
-- 
2.43.0


From 14e08b74d1bd115dd6a75a1a64940df80c27fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 57/80] fix: pasting to a comment opener is an error, not a
 crash

---
 preprocessor/preprocess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 65be1ca..dbfed82 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -552,6 +552,9 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 				(int)rhs->len, rhs->loc);
 
 	// Tokenize the resulting string.
+	if (!strncmp(buf, "//", 2) || !strncmp(buf, "/*", 2))
+		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
+
 	tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
-- 
2.43.0


From db0a39260d9bcd7f2de55fff535cada12d113ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:11 +0000
Subject: [PATCH 58/80] fix: diagnostics name the presumed file and line of
 every token

After #line they mixed the real file with the presumed line, macro bodies
took the #line of their use, and pasted, stringised and built-in tokens
and the end of a directive were on line 1 or on the next line.
---
 preprocessor/preprocess.c | 59 +++++++++++++++++++++++++++++++--------
 utils.c                   |  8 +++---
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index dbfed82..451c532 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -134,16 +134,46 @@ static struct Token *copy_line(struct Token **rest, struct Token *tok)
 		cur = cur->next;
 	}
 
-	// end with token whose kind is TK_EOF
-	cur->next = new_eof(tok);
+	// end with token whose kind is TK_EOF, located on the line
+	struct Token *eof = new_eof(tok);
+	if (cur != &head) {
+		eof->file = cur->file;
+		eof->loc = cur->loc + cur->len;
+		eof->line_no = cur->line_no;
+	}
+	cur->next = eof;
 	*rest = tok;
 	return head.next;
 }
 
+// Set the presumed location of `tok`, which #line may have changed.
+static void locate(struct Token *tok)
+{
+	// What a macro gave was located where it was written.
+	if (tok->origin)
+		return;
+
+	tok->line_delta = tok->file->line_delta;
+	tok->filename = tok->file->display_name;
+}
+
+// Tokenize `buf`, which stands in the place of `tmpl`.
+static struct Token *tokenize_at(const char *buf, struct Token *tmpl)
+{
+	struct File *file = new_file(tmpl->file->name, tmpl->file->file_no, buf);
+	file->display_name = tmpl->file->display_name;
+	file->line_delta = tmpl->file->line_delta;
+
+	struct Token *tok = tokenize(file);
+	tok->line_no = tmpl->line_no;
+	tok->line_delta = tmpl->line_delta;
+	tok->filename = tmpl->filename;
+	return tok;
+}
+
 struct Token *new_num_token(int val, struct Token *tmpl)
 {
-	const char *buf = format("%d", val);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	return tokenize_at(format("%d", val), tmpl);
 }
 
 static struct Macro *find_macro(struct Token *tok);
@@ -362,6 +392,8 @@ static struct MacroArg *read_macro_arg_one(struct Token **rest,
 	int level = 0;
 
 	while (1) {
+		locate(tok);
+
 		if (level == 0 && equal(tok, ")"))
 			// over
 			break;
@@ -508,8 +540,7 @@ static const char *quote_string(const char *str)
 
 struct Token *new_str_token(const char *str, struct Token *tmpl)
 {
-	const char *buf = quote_string(str);
-	return tokenize(new_file(tmpl->file->name, tmpl->file->file_no, buf));
+	return tokenize_at(quote_string(str), tmpl);
 }
 
 // Concatenates all tokens in `arg` and returns a new string token.
@@ -555,7 +586,7 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	if (!strncmp(buf, "//", 2) || !strncmp(buf, "/*", 2))
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
-	tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
+	tok = tokenize_at(buf, lhs);
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
@@ -1070,15 +1101,14 @@ static struct Token *preprocess2(struct Token *tok)
 	struct Token *cur = &head;
 
 	while (tok->kind != TK_EOF) {
+		locate(tok);
+
 		// If it is a macro, expand it.
 		if (expand_macro(&tok, tok))
 			continue;
 
 		// Pass through if it is not a "#".
 		if (!is_hash(tok)) {
-			tok->line_delta = tok->file->line_delta;
-			tok->filename = tok->file->display_name;
-
 			cur->next = tok;
 			cur = cur->next;
 
@@ -1087,7 +1117,9 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		struct Token *start = tok;
-		tok = tok->next;
+		for (tok = tok->next; !tok->at_bol && tok->kind != TK_EOF; tok = tok->next)
+			locate(tok);
+		tok = start->next;
 
 		// `#`-only line is legal. It's called a null directive.
 		if (tok->at_bol)
@@ -1235,6 +1267,7 @@ static struct Token *preprocess2(struct Token *tok)
 		error_tok(tok, "invalid preprocessor directive");
 	}
 
+	locate(tok);
 	cur->next = tok;
 	return head.next;
 }
@@ -1354,8 +1387,10 @@ struct Token *preprocessor(struct Token *tok)
 	if (cond_incl)
 		error_tok(cond_incl->tok, "unterminated conditional directive");
 
-	for (struct Token *t = tok; t; t = t->next)
+	for (struct Token *t = tok; t; t = t->next) {
 		t->line_no += t->line_delta;
+		t->line_delta = 0;
+	}
 
 	return tok;
 }
diff --git a/utils.c b/utils.c
index 6774de4..2396b9b 100644
--- a/utils.c
+++ b/utils.c
@@ -6,8 +6,8 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
-		  tok->line_no, tok->loc, fmt, ap);
+	verror_at(tok->filename, tok->file->contents,
+		  tok->line_no + tok->line_delta, tok->loc, fmt, ap);
 	va_end(ap);
 }
 
@@ -70,8 +70,8 @@ error_tok(struct Token *tok, const char *fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
-	verror_at(tok->file->name, tok->file->contents,
-		  tok->line_no, tok->loc, fmt, ap);
+	verror_at(tok->filename, tok->file->contents,
+		  tok->line_no + tok->line_delta, tok->loc, fmt, ap);
 	va_end(ap);
 	exit(1);
 }
-- 
2.43.0


From 91f9c22d42d2275933afedd421f3c2e7db745e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:11 +0000
Subject: [PATCH 59/80] fix: static struct objects initialised by a
 non-constant are an error; excess initialisers are type-checked

---
 parser/initializer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index 56112e1..a422de9 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -79,7 +79,7 @@ static struct Token *skip_excess_element(struct Token *tok)
 		return tok;
 	}
 
-	assign(&tok, tok);
+	add_type(assign(&tok, tok));
 	return tok;
 }
 
@@ -692,6 +692,9 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	if (is_struct_union(ty) && init->expr)
+		error_tok(init->expr->tok, "not a compile-time constant");
+
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next) {
 			if (mem->is_bitfield) {
-- 
2.43.0


From 8405bd1d1a75833b287f77e5c398a5813dd63e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:11 +0000
Subject: [PATCH 60/80] fix: duplicate labels are an error

---
 parser/parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 90d7746..76b755d 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1435,11 +1435,15 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 		struct Node *node = new_node(ND_LABEL, tok);
 
 		node->label = strndup(tok->loc, tok->len);
+		for (struct Node *n = labels; n; n = n->goto_next)
+			if (!strcmp(n->label, node->label))
+				error_tok(tok, "duplicate label");
+
 		node->unique_label = new_unique_name();
-		// skip ":"
-		node->lhs = stmt(rest, tok->next->next);
 		node->goto_next = labels;
 		labels = node;
+		// skip ":"
+		node->lhs = stmt(rest, tok->next->next);
 		return node;
 	}
 
-- 
2.43.0


From 054d82803280f212772b07391bf9947e3d460631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:11 +0000
Subject: [PATCH 61/80] fix: every declarator of a list may declare a function;
 nested definitions are an error

---
 parser/declarator.c |  6 ++++
 parser/declarator.h |  2 ++
 parser/parser.c     | 69 ++++++++++++++++++++-------------------------
 3 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index b29980c..78f3496 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -951,6 +951,12 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 		if (ty->kind == TY_VOID)
 			error_tok(start, "variable declared void");
 
+		if (ty->kind == TY_FUNC) {
+			struct VarAttr none = {};
+			declare_function(ty, tok, attr ? attr : &none, false);
+			continue;
+		}
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
diff --git a/parser/declarator.h b/parser/declarator.h
index 7a3dbd4..638f948 100644
--- a/parser/declarator.h
+++ b/parser/declarator.h
@@ -16,6 +16,8 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty);
 struct Node *declaration(struct Token **rest, struct Token *tok,
 			 struct Type *basety, struct VarAttr *attr);
+struct Obj *declare_function(struct Type *ty, struct Token *tok,
+			     const struct VarAttr *attr, bool is_definition);
 struct Token *parse_typedef(struct Token *tok, struct Type *basety,
 			    struct Node **cur);
 void declare_builtin_functions(void);
diff --git a/parser/parser.c b/parser/parser.c
index 76b755d..ee6915c 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1453,17 +1453,6 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	return expr_stmt(rest, tok);
 }
 
-static bool is_function(struct Token *tok)
-{
-	if (equal(tok, ";"))
-		return false;
-
-	struct Type dummy = {};
-	struct Type *ty = declarator(&tok, tok, &dummy);
-
-	return ty->kind == TY_FUNC;
-}
-
 static void create_param_lvars(struct Type *param)
 {
 	if (param) {
@@ -1513,10 +1502,10 @@ static void mark_live(struct Obj *var)
 	}
 }
 
-static struct Token *function(struct Token *tok, struct Type *basety,
-			      const struct VarAttr *attr)
+// Declare a function of type `ty`, or define it if `is_definition`.
+struct Obj *declare_function(struct Type *ty, struct Token *tok,
+			     const struct VarAttr *attr, bool is_definition)
 {
-	struct Type *ty = declarator(&tok, tok, basety);
 	if (!ty->name)
 		error_tok(ty->name_pos, "function name omitted");
 
@@ -1527,27 +1516,28 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 		// Redeclaration
 		if (!fn->is_function)
 			error_tok(tok, "re-declared as a different kind of symbol");
-		if (fn->is_definition && equal(tok, "{"))
+		if (fn->is_definition && is_definition)
 			error_tok(tok, "redefinition of %s", name_str);
 		if (!fn->is_static && attr->is_static)
 			error_tok(tok, "static declaration follows a non-static declaration");
 
-		fn->is_definition = fn->is_definition || equal(tok, "{");
+		fn->is_definition = fn->is_definition || is_definition;
 
 	} else {
 		fn = new_gvar(name_str, ty);
 		fn->is_function = true;
-		fn->is_definition = equal(tok, "{");
+		fn->is_definition = is_definition;
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
 		fn->is_inline = attr->is_inline;
 	}
 	fn->is_root = !(fn->is_static && fn->is_inline);
+	return fn;
+}
 
-	// if it's declaration, return
-	if (consume(&tok, tok, ";"))
-		return tok;
-	// else it's definition, continue
-
+// the body of a function definition, from its "{" on
+static struct Token *function_body(struct Token *tok, struct Obj *fn,
+				   struct Type *ty)
+{
 	current_fn = fn;
 	// initialize local variables list
 	init_locals();
@@ -1588,17 +1578,30 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	return tok;
 }
 
-static struct Token *global_variable(struct Token *tok, struct Type *basety,
-				     struct VarAttr *attr)
+// The declarators of a declaration at file scope or with `extern`. Each of
+// them declares a function or a variable; the first may define a function
+// if it is at file scope.
+static struct Token *global_declaration(struct Token *tok, struct Type *basety,
+					struct VarAttr *attr, bool file_scope)
 {
 	bool first = true;
 
 	while (!consume(&tok, tok, ";")) {
 		if (!first)
 			tok = skip(tok, ",");
-		first = false;
 
 		struct Type *ty = declarator(&tok, tok, basety);
+		if (ty->kind == TY_FUNC) {
+			bool is_definition = first && file_scope && equal(tok, "{");
+			struct Obj *fn = declare_function(ty, tok, attr, is_definition);
+
+			if (is_definition)
+				return function_body(tok, fn, ty);
+			first = false;
+			continue;
+		}
+		first = false;
+
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
@@ -1640,13 +1643,8 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 				continue;
 			}
 
-			if (is_function(tok)) {
-				tok = function(tok, basety, &attr);
-				continue;
-			}
-
 			if (attr.is_extern) {
-				tok = global_variable(tok, basety, &attr);
+				tok = global_declaration(tok, basety, &attr, false);
 				continue;
 			}
 
@@ -1682,13 +1680,8 @@ struct Obj *parser(struct Token *tok)
 			continue;
 		}
 
-		if (is_function(tok)) {
-			// function
-			tok = function(tok, basety, &attr);
-		} else {
-			// global variable
-			tok = global_variable(tok, basety, &attr);
-		}
+		// functions and global variables
+		tok = global_declaration(tok, basety, &attr, true);
 	}
 
 	for (struct Obj *var = ret_globals(); var; var = var->next)
-- 
2.43.0


From 108cd0ff6037adc3bdfe95c9a947387c334eda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:44 +0000
Subject: [PATCH 62/80] fix: typedef with one storage class specifier is an
 error

---
 parser/declarator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 78f3496..768a51a 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -532,7 +532,7 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 				attr->is_tls = true;
 
 			if (attr->is_typedef &&
-			    attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 1)
+			    attr->is_static + attr->is_extern + attr->is_inline + attr->is_tls > 0)
 				error_tok(tok, "typedef may not be used together with "
 					       "static, extern, inline, __thread or _Thread_local");
 
-- 
2.43.0


From f91dd2312a5cfcf4de7087e751c9941586108414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:19 +0000
Subject: [PATCH 63/80] fix: a list in braces does not begin with a comma

---
 parser/common.c      | 10 ++++++++++
 parser/declarator.c  |  2 +-
 parser/initializer.c |  8 ++++----
 parser/parser.h      |  1 +
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index c5206f6..4429b7b 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -1,6 +1,16 @@
 #include <parser.h>
 #include <type.h>
 
+// Skip the "{" of a list; only its last item may be followed by
+// a comma without another one.
+struct Token *begin_list(struct Token *tok)
+{
+	tok = skip(tok, "{");
+	if (equal(tok, ","))
+		error_tok(tok, "expected a list item");
+	return tok;
+}
+
 bool consume_end(struct Token **rest, struct Token *tok)
 {
 	if (equal(tok, "}")) {
diff --git a/parser/declarator.c b/parser/declarator.c
index 768a51a..64df593 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -314,7 +314,7 @@ static struct Type *enum_specifier(struct Token **rest, struct Token *tok)
 	}
 
 	// enum definition
-	tok = skip(tok, "{");
+	tok = begin_list(tok);
 
 	// read an enum-list
 	int i = 0, val = 0;
diff --git a/parser/initializer.c b/parser/initializer.c
index a422de9..d4feaf4 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -70,7 +70,7 @@ static struct Initializer *element(struct Initializer *init, int i)
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
-		tok = tok->next;
+		tok = begin_list(tok);
 		for (bool first = true; !consume_end(&tok, tok); first = false) {
 			if (!first)
 				tok = skip(tok, ",");
@@ -284,7 +284,7 @@ static bool is_end(struct Token *tok)
 static void array_initializer1(struct Token **rest, struct Token *tok,
 				struct Initializer *init)
 {
-	tok = skip(tok, "{");
+	tok = begin_list(tok);
 	bool first = true;
 
 	// An array length can be omitted if an array has an initializer
@@ -345,7 +345,7 @@ static void array_initializer2(struct Token **rest, struct Token *tok,
 static void struct_initializer1(struct Token **rest, struct Token *tok,
 				struct Initializer *init)
 {
-	tok = skip(tok, "{");
+	tok = begin_list(tok);
 
 	bool first = true;
 	struct Member *mem = init->ty->members;
@@ -411,7 +411,7 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 		return;
 	}
 
-	tok = tok->next;
+	tok = begin_list(tok);
 	for (bool first = true; !consume_end(rest, tok); first = false) {
 		if (!first)
 			tok = skip(tok, ",");
diff --git a/parser/parser.h b/parser/parser.h
index 7e7e156..6e21440 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -4,6 +4,7 @@
 #include <toycc.h>
 
 // common
+struct Token *begin_list(struct Token *tok);
 bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
-- 
2.43.0


From 81a68ebeb573d48ed9216890adc3c54ccf538b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:56 +0000
Subject: [PATCH 64/80] fix: a function declared with the name of a file-scope
 variable is an error

---
 parser/parser.c | 4 ++--
 parser/scope.c  | 9 +++------
 parser/scope.h  | 2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ee6915c..3828fcc 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1496,7 +1496,7 @@ static void mark_live(struct Obj *var)
 	var->is_live = true;
 
 	for (int i = 0; i < var->refs.len; i++) {
-		struct Obj *fn = find_func(var->refs.data[i]);
+		struct Obj *fn = find_global(var->refs.data[i]);
 		if (fn)
 			mark_live(fn);
 	}
@@ -1510,7 +1510,7 @@ struct Obj *declare_function(struct Type *ty, struct Token *tok,
 		error_tok(ty->name_pos, "function name omitted");
 
 	const char *name_str = get_ident(ty->name);
-	struct Obj *fn = find_func(name_str);
+	struct Obj *fn = find_global(name_str);
 
 	if (fn) {
 		// Redeclaration
diff --git a/parser/scope.c b/parser/scope.c
index 26b2013..1d6ca6a 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -66,19 +66,16 @@ struct Type *find_tag(struct Token *tok)
 	return NULL;
 }
 
-struct Obj *find_func(const char *name)
+// Find a function or variable by name at file scope.
+struct Obj *find_global(const char *name)
 {
 	struct Scope *sc = scope;
 
-	// search function in the outermost of file scope
 	while (sc->next)
 		sc = sc->next;
 
 	struct VarScope *sc2 = hashmap_get(&sc->vars, name);
-	if (sc2 && sc2->var && sc2->var->is_function)
-		return sc2->var;
-
-	return NULL;
+	return sc2 ? sc2->var : NULL;
 }
 
 struct Type *overwrite_tag(struct Token *tag, struct Type *ty)
diff --git a/parser/scope.h b/parser/scope.h
index d0245f9..8db2a82 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -32,7 +32,7 @@ void enter_scope(void);
 void leave_scope(void);
 
 struct Type *find_tag(struct Token *tok);
-struct Obj *find_func(const char *name);
+struct Obj *find_global(const char *name);
 
 void push_tag_scope(struct Token *tok, struct Type *ty);
 struct VarScope *push_scope(const char *name);
-- 
2.43.0


From 9f7525169a81c3b22e91dd79fc90d5a424717189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:45 +0000
Subject: [PATCH 65/80] fix: a call, assignment or conditional of scalar type
 is not an lvalue

---
 codegen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index e9bea16..be47875 100644
--- a/codegen.c
+++ b/codegen.c
@@ -287,18 +287,18 @@ static void gen_addr(struct Node *node)
 		break;
 
 	case ND_FUNCALL:
-		if (node->ret_buffer)
-			gen_expr(node);
+		if (!node->ret_buffer)
+			error_tok(node->tok, "not a lvalue");
+		gen_expr(node);
 		break;
 
 	case ND_ASSIGN:
 	case ND_COND:
 	case ND_STMT_EXPR:
-		if (node->ty->kind == TY_STRUCT ||
-		    node->ty->kind == TY_UNION) {
-			gen_expr(node);
-			return;
-		}
+		if (node->ty->kind != TY_STRUCT &&
+		    node->ty->kind != TY_UNION)
+			error_tok(node->tok, "not a lvalue");
+		gen_expr(node);
 		break;
 
 	case ND_VLA_PTR:
-- 
2.43.0


From b6aa1f5017165ed79ae2f222e7114cfeced41c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 66/80] fix: directives end with their line; #include of
 something else than a file name is an error

---
 preprocessor/preprocess.c | 52 +++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 451c532..28f70a1 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -79,6 +79,24 @@ static struct Token *skip_line(struct Token *tok)
 	return tok;
 }
 
+// The first operand of a directive, which is on the same line.
+static struct Token *operand(struct Token *directive)
+{
+	if (directive->next->at_bol)
+		error_tok(directive, "operand expected");
+	return directive->next;
+}
+
+// The macro name a directive applies to.
+static struct Token *macro_name(struct Token *directive)
+{
+	struct Token *tok = operand(directive);
+
+	if (tok->kind != TK_IDENT)
+		error_tok(tok, "macro name must be an identifier");
+	return tok;
+}
+
 // `tok` stands where `tmpl` stood.
 static void copy_spacing(struct Token *tok, struct Token *tmpl)
 {
@@ -900,24 +918,21 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 
 static void read_macro_definition(struct Token **rest, struct Token *tok)
 {
-	if (tok->kind != TK_IDENT)
-		error_tok(tok, "macro name must be an identifier");
-
 	const char *name = strndup(tok->loc, tok->len);
-	tok = tok->next;
+	tok = copy_line(rest, tok->next);
 
 	if (!tok->has_space && equal(tok, "(")) {
 		// function-like macro
 		const char *va_args_name = NULL;
 		struct MacroParam *params = read_macro_params(&tok, tok->next, &va_args_name);
 
-		struct Macro *m = add_macro(name, false, copy_line(rest, tok));
+		struct Macro *m = add_macro(name, false, tok);
 		m->params = params;
 		m->va_args_name = va_args_name;
 
 	} else {
 		// object-like macro
-		add_macro(name, true, copy_line(rest, tok));
+		add_macro(name, true, tok);
 	}
 }
 
@@ -945,9 +960,9 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 		struct Token *start = tok;
 
 		// Find closing ">".
-		for (; !equal(tok, ">"); tok = tok->next)
+		for (; tok->at_bol || !equal(tok, ">"); tok = tok->next)
 			if (tok->at_bol || tok->kind == TK_EOF)
-				error_tok(tok, "expected '>'");
+				error_tok(start, "expected '>'");
 
 		*is_dquote = false;
 
@@ -960,6 +975,8 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	// a single string token or a sequence of "<" ... ">".
 	if (tok->kind == TK_IDENT) {
 		struct Token *tok2 = preprocess2(copy_line(rest, tok));
+		if (tok2->kind != TK_STR && !equal(tok2, "<"))
+			error_tok(tok, "expected a filename");
 		return read_include_filename(&tok2, tok2, is_dquote);
 	}
 
@@ -1128,7 +1145,7 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "include")) {
 			bool is_dquote;
 			const char *filename =
-				read_include_filename(&tok, tok->next, &is_dquote);
+				read_include_filename(&tok, operand(tok), &is_dquote);
 
 			if (filename[0] != '/' && is_dquote) {
 				// search under current directory
@@ -1147,7 +1164,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "include_next")) {
 			bool ignore;
-			const char *filename = read_include_filename(&tok, tok->next, &ignore);
+			const char *filename = read_include_filename(&tok, operand(tok), &ignore);
 			int idx = start->file->include_next_idx;
 			const char *path = search_include_from(filename, &idx);
 			tok = include_file(tok, path ? path : filename, start->next->next, idx);
@@ -1155,15 +1172,12 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "define")) {
-			read_macro_definition(&tok, tok->next);
+			read_macro_definition(&tok, macro_name(tok));
 			continue;
 		}
 
 		if (equal(tok, "undef")) {
-			tok = tok->next;
-			if (tok->kind != TK_IDENT)
-				error_tok(tok, "macro name must be an identifier");
-
+			tok = macro_name(tok);
 			undef_macro(strndup(tok->loc, tok->len));
 			tok = skip_line(tok->next);
 
@@ -1180,7 +1194,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifdef")) {
-			bool defined = find_macro(tok->next);
+			bool defined = find_macro(macro_name(tok));
 
 			push_cond_incl(tok, defined);
 			tok = skip_line(tok->next->next);
@@ -1191,7 +1205,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifndef")) {
-			bool defined = find_macro(tok->next);
+			bool defined = find_macro(macro_name(tok));
 
 			push_cond_incl(tok, !defined);
 			tok = skip_line(tok->next->next);
@@ -1238,7 +1252,7 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "line")) {
-			read_line_marker(&tok, tok->next);
+			read_line_marker(&tok, operand(tok));
 			continue;
 		}
 
@@ -1247,7 +1261,7 @@ static struct Token *preprocess2(struct Token *tok)
 			continue;
 		}
 
-		if (equal(tok, "pragma") && equal(tok->next, "once")) {
+		if (equal(tok, "pragma") && equal(tok->next, "once") && !tok->next->at_bol) {
 			// put current file name into pragma_once
 			hashmap_put(&pragma_once, file_identity(tok->file->name), (void *)1);
 			tok = skip_line(tok->next->next);
-- 
2.43.0


From 64d9234786d4626739a80211292d6dea5444ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:28 +0000
Subject: [PATCH 67/80] fix: conditionals end in the file they begin in

---
 preprocessor/preprocess.c | 48 +++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 28f70a1..72c3014 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -287,13 +287,13 @@ static struct CondIncl *push_cond_incl(struct Token *tok, bool included)
 	return ci;
 }
 
-static struct Token *skip_cond_incl2(struct Token *tok)
+static struct Token *skip_cond_incl2(struct Token *tok, struct File *file)
 {
-	while (tok->kind != TK_EOF) {
+	while (tok->kind != TK_EOF && tok->file == file) {
 		if (is_directive(tok, "if") ||
 		    is_directive(tok, "ifdef") ||
 		    is_directive(tok, "ifndef")) {
-			tok = skip_cond_incl2(tok->next->next);
+			tok = skip_cond_incl2(tok->next->next, file);
 			continue;
 		}
 
@@ -307,13 +307,14 @@ static struct Token *skip_cond_incl2(struct Token *tok)
 
 // Skip until next `#else`, `#elif` or `#endif`.
 // Nested #if and #endif are skipped.
-static struct Token *skip_cond_incl(struct Token *tok)
+// Conditionals begin and end in the same file.
+static struct Token *skip_cond_incl(struct Token *tok, struct File *file)
 {
-	while (tok->kind != TK_EOF) {
+	while (tok->kind != TK_EOF && tok->file == file) {
 		if (is_directive(tok, "if") ||
 		    is_directive(tok, "ifdef") ||
 		    is_directive(tok, "ifndef")) {
-			tok = skip_cond_incl2(tok->next->next);
+			tok = skip_cond_incl2(tok->next->next, file);
 			continue;
 		}
 
@@ -328,6 +329,23 @@ static struct Token *skip_cond_incl(struct Token *tok)
 	return tok;
 }
 
+// Skip the rest of a group of the current conditional.
+static struct Token *skip_group(struct Token *tok)
+{
+	struct File *file = cond_incl->tok->file;
+
+	tok = skip_cond_incl(tok, file);
+	if (tok->kind == TK_EOF || tok->file != file)
+		error_tok(cond_incl->tok, "unterminated conditional directive");
+	return tok;
+}
+
+// Is `tok` in a conditional of its file?
+static bool in_conditional(struct Token *tok)
+{
+	return cond_incl && cond_incl->tok->file == tok->file;
+}
+
 static struct Macro *find_macro(struct Token *tok)
 {
 	if (tok->kind != TK_IDENT)
@@ -1015,7 +1033,7 @@ static const char *detect_include_guard(struct Token *tok)
 
 	// The whole file is guarded if the group ends with an #endif
 	// that ends the file.
-	tok = skip_cond_incl(tok);
+	tok = skip_cond_incl(tok, tok->file);
 	if (is_directive(tok, "endif") && tok->next->next->kind == TK_EOF)
 		return macro;
 	return NULL;
@@ -1189,7 +1207,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 			push_cond_incl(start, val);
 			if (!val)
-				tok = skip_cond_incl(tok);
+				tok = skip_group(tok);
 			continue;
 		}
 
@@ -1200,7 +1218,7 @@ static struct Token *preprocess2(struct Token *tok)
 			tok = skip_line(tok->next->next);
 
 			if (!defined)
-				tok = skip_cond_incl(tok);
+				tok = skip_group(tok);
 			continue;
 		}
 
@@ -1211,38 +1229,38 @@ static struct Token *preprocess2(struct Token *tok)
 			tok = skip_line(tok->next->next);
 
 			if (defined)
-				tok = skip_cond_incl(tok);
+				tok = skip_group(tok);
 			continue;
 		}
 
 		if (equal(tok, "elif")) {
-			if (!cond_incl || cond_incl->ctx == IN_ELSE)
+			if (!in_conditional(start) || cond_incl->ctx == IN_ELSE)
 				error_tok(start, "stray #elif");
 
 			cond_incl->ctx = IN_ELIF;
 			if (!cond_incl->included && eval_const_expr(&tok, tok))
 				cond_incl->included = true;
 			else
-				tok = skip_cond_incl(tok);
+				tok = skip_group(tok);
 
 			continue;
 		}
 
 		if (equal(tok, "else")) {
-			if (!cond_incl || cond_incl->ctx == IN_ELSE)
+			if (!in_conditional(start) || cond_incl->ctx == IN_ELSE)
 				error_tok(start, "stray #else");
 
 			cond_incl->ctx = IN_ELSE;
 			tok = skip_line(tok->next);
 
 			if (cond_incl->included)
-				tok = skip_cond_incl(tok);
+				tok = skip_group(tok);
 
 			continue;
 		}
 
 		if (equal(tok, "endif")) {
-			if (!cond_incl)
+			if (!in_conditional(start))
 				error_tok(start, "stray #endif");
 
 			// pop
-- 
2.43.0


From 1785bc46c99a6abd767a2a1b5591fe331ccafb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:34 +0000
Subject: [PATCH 68/80] fix: the end of a directive is located in its file

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 72c3014..afbae83 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -158,6 +158,8 @@ static struct Token *copy_line(struct Token **rest, struct Token *tok)
 		eof->file = cur->file;
 		eof->loc = cur->loc + cur->len;
 		eof->line_no = cur->line_no;
+		eof->line_delta = cur->line_delta;
+		eof->filename = cur->filename;
 	}
 	cur->next = eof;
 	*rest = tok;
-- 
2.43.0


From ad6aa99831622339c9108adf5ba13a6cd6a4d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:49 +0000
Subject: [PATCH 69/80] fix: floating constants in #if expressions are an error

---
 preprocessor/preprocess.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index afbae83..6bf5cec 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -263,7 +263,9 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 
 	// In #if, all integers act as if they were intmax_t or uintmax_t.
 	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next) {
-		if (t->kind == TK_NUM && is_integer(t->ty))
+		if (t->kind == TK_NUM && !is_integer(t->ty))
+			error_tok(t, "floating constant in an #if expression");
+		if (t->kind == TK_NUM)
 			t->ty = t->ty->is_unsigned ? p_ty_ulong() : p_ty_long();
 	}
 
-- 
2.43.0


From 00137d7041fdd5a13f8c098925a8247a2dd8efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:15 +0000
Subject: [PATCH 70/80] fix: alloca may be declared

---
 parser/parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 3828fcc..e051c60 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1512,10 +1512,11 @@ struct Obj *declare_function(struct Type *ty, struct Token *tok,
 	const char *name_str = get_ident(ty->name);
 	struct Obj *fn = find_global(name_str);
 
-	if (fn) {
+	if (fn && fn->ty->kind != TY_FUNC)
+		error_tok(tok, "re-declared as a different kind of symbol");
+
+	if (fn && fn->is_function) {
 		// Redeclaration
-		if (!fn->is_function)
-			error_tok(tok, "re-declared as a different kind of symbol");
 		if (fn->is_definition && is_definition)
 			error_tok(tok, "redefinition of %s", name_str);
 		if (!fn->is_static && attr->is_static)
-- 
2.43.0


From 896be40e1df59af25cbed680231c7343ff17955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:49 +0000
Subject: [PATCH 71/80] fix: a struct or union tag is declared before its
 members, and by 'struct tag;' in the current scope

---
 parser/declarator.c | 24 ++++++++++++++----------
 parser/scope.c      |  9 +++------
 parser/scope.h      |  2 +-
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 64df593..2954671 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -136,7 +136,8 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 	if (tag && !equal(tok, "{")) {
 		*rest = tok;
 
-		struct Type *ty2 = find_tag(tag);
+		// `struct tag;` declares the tag in the current scope
+		struct Type *ty2 = equal(tok, ";") ? find_local_tag(tag) : find_tag(tag);
 		if (ty2)
 			return ty2;
 
@@ -148,8 +149,16 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 
 	tok = skip(tok, "{");
 
+	// The tag is visible, as an incomplete type, in its own definition.
+	struct Type *prev = tag ? find_local_tag(tag) : NULL;
+	if (tag && !prev) {
+		ty->size = -1;
+		push_tag_scope(tag, ty);
+	}
+
 	// Construct a struct object
 	struct_members(&tok, tok, ty);
+	ty->size = 0;
 	// check attribute descriptor again
 	*rest = attribute_list(tok, ty);
 
@@ -159,15 +168,10 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 			if (!mem->is_aligned)
 				mem->align = 1;
 
-	// register the struct type if a name was given
-	if (tag) {
-		// If there is a redefinition, overwrite a previous type.
-		struct Type *ret = overwrite_tag(tag, ty);
-		if (ret)
-			return ret;
-
-		// Otherwise, register the struct type.
-		push_tag_scope(tag, ty);
+	// If there is a redefinition, overwrite a previous type.
+	if (prev) {
+		*prev = *ty;
+		return prev;
 	}
 
 	return ty;
diff --git a/parser/scope.c b/parser/scope.c
index 1d6ca6a..e7292ec 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -78,13 +78,10 @@ struct Obj *find_global(const char *name)
 	return sc2 ? sc2->var : NULL;
 }
 
-struct Type *overwrite_tag(struct Token *tag, struct Type *ty)
+// Find a tag in the current scope only.
+struct Type *find_local_tag(struct Token *tok)
 {
-	struct Type *ty2 = hashmap_get2(&scope->tags, tag->loc, tag->len);
-	if (ty2)
-		*ty2 = *ty;
-
-	return ty2;
+	return hashmap_get2(&scope->tags, tok->loc, tok->len);
 }
 
 void push_tag_scope(struct Token *tok, struct Type *ty)
diff --git a/parser/scope.h b/parser/scope.h
index 8db2a82..12b921a 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -36,7 +36,7 @@ struct Obj *find_global(const char *name);
 
 void push_tag_scope(struct Token *tok, struct Type *ty);
 struct VarScope *push_scope(const char *name);
-struct Type *overwrite_tag(struct Token *tok, struct Type *ty);
+struct Type *find_local_tag(struct Token *tok);
 
 struct Obj *new_lvar(const char *name, struct Type *ty);
 struct Obj *new_gvar(const char *name, struct Type *ty);
-- 
2.43.0


From 2e8c0f34a4cc29349cd113c848cbe542dc28a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:05 +0000
Subject: [PATCH 72/80] fix: a function declared in a block hides outer locals
 of its name

---
 parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index e051c60..2cbbd06 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1524,6 +1524,10 @@ struct Obj *declare_function(struct Type *ty, struct Token *tok,
 
 		fn->is_definition = fn->is_definition || is_definition;
 
+		// it hides what is declared in the enclosing blocks
+		if (!is_global_scope())
+			push_scope(name_str)->var = fn;
+
 	} else {
 		fn = new_gvar(name_str, ty);
 		fn->is_function = true;
-- 
2.43.0


From da2c982ffcdfe512b340909b93f331f397dcccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:38 +0000
Subject: [PATCH 73/80] fix: of several tentative definitions one is kept;
 thread-local objects may have several; extern with an initialiser is a
 definition

---
 codegen.c       |  2 +-
 parser/parser.c |  7 ++++---
 parser/scope.c  | 14 +++++++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index be47875..7bf2a87 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1774,7 +1774,7 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".global %s", var->name);
 
-		if (get_opt_fcommon() && var->is_tentative) {
+		if (get_opt_fcommon() && var->is_tentative && !var->is_tls) {
 			// common symbol
 			println(".comm %s, %d, %d",
 				var->name, var->ty->size, var->align);
diff --git a/parser/parser.c b/parser/parser.c
index 2cbbd06..040b124 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1619,11 +1619,12 @@ static struct Token *global_declaration(struct Token *tok, struct Type *basety,
 		if (attr->align)
 			var->align = attr->align;
 
-		if (equal(tok, "="))
+		if (equal(tok, "=")) {
+			var->is_definition = true;
 			gvar_initializer(&tok, tok->next, var);
-
-		else if (!attr->is_extern && !attr->is_tls)
+		} else if (!attr->is_extern) {
 			var->is_tentative = true;
+		}
 	}
 	return tok;
 }
diff --git a/parser/scope.c b/parser/scope.c
index e7292ec..143356c 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -162,12 +162,20 @@ void scan_globals(void)
 			continue;
 		}
 
-		// Find another definition of the same identifier.
+		// Find another definition of the same identifier:
+		// the last of several tentative ones, which is the
+		// first of the list, is kept.
 		struct Obj *var2 = globals;
-		for (; var2; var2 = var2->next)
-			if (var != var2 && var2->is_definition &&
+		bool is_later = true;
+		for (; var2; var2 = var2->next) {
+			if (var2 == var) {
+				is_later = false;
+				continue;
+			}
+			if (var2->is_definition && (!var2->is_tentative || is_later) &&
 			   !strcmp(var->name, var2->name))
 				break;
+		}
 
 		// If there's another definition, the tentative definition
 		// is redundant
-- 
2.43.0


From c75e3166e18162c3175e14f836361d3cf6066122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:46 +0000
Subject: [PATCH 74/80] fix: redeclared arrays of unknown length keep their
 length; tentative ones have one element

---
 parser/parser.c | 15 +++++++++++++--
 parser/scope.c  | 10 +++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 040b124..d466765 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1610,10 +1610,21 @@ static struct Token *global_declaration(struct Token *tok, struct Type *basety,
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
-		struct Obj *var = new_gvar(get_ident(ty->name), ty);
+		const char *name = get_ident(ty->name);
+		struct VarScope *sc = find_var(ty->name);
+		// what this declares again, unless that is hidden
+		struct Obj *prev = sc && sc->var && !strcmp(sc->var->name, name) &&
+				   !sc->var->is_local ? sc->var : NULL;
+
+		// an array of unknown length keeps a length it had
+		if (prev && ty->kind == TY_ARRAY && ty->size < 0 && !equal(tok, "="))
+			ty = prev->ty;
+
+		struct Obj *var = new_gvar(name, ty);
 
 		var->is_definition = !attr->is_extern;
-		var->is_static = attr->is_static;
+		var->is_static = attr->is_static ||
+				 (attr->is_extern && prev && prev->is_static);
 		var->is_tls = attr->is_tls;
 
 		if (attr->align)
diff --git a/parser/scope.c b/parser/scope.c
index 143356c..7c0cfcf 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -179,10 +179,14 @@ void scan_globals(void)
 
 		// If there's another definition, the tentative definition
 		// is redundant
-		if (!var2)
-			cur = cur->next = var;
+		if (var2)
+			continue;
+
+		// An array of unknown length has one element.
+		if (var->ty->kind == TY_ARRAY && var->ty->size < 0)
+			var->ty = array_of(var->ty->base, 1);
 
-		// pass var definition
+		cur = cur->next = var;
 	}
 
 	cur->next = NULL;
-- 
2.43.0


From 66c966ef0a9f702264a80d024799ec5717dda51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:48 +0000
Subject: [PATCH 75/80] fix: inline functions declared extern are external;
 references of file-scope initialisers and static locals of unused inline
 functions are resolved

---
 codegen.c           |  4 ++++
 parser/declarator.c |  1 +
 parser/parser.c     | 17 ++++++++++++++++-
 parser/parser.h     |  1 +
 toycc.h             |  2 ++
 5 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 7bf2a87..8cfc704 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1769,6 +1769,10 @@ static void emit_data(struct Obj *prog)
 		if (var->is_function || !var->is_definition)
 			continue;
 
+		// goes with its function
+		if (var->fn && !var->fn->is_live)
+			continue;
+
 		if (var->is_static)
 			println(".local %s", var->name);
 		else
diff --git a/parser/declarator.c b/parser/declarator.c
index 2954671..814426c 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -969,6 +969,7 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
 
+			var->fn = ret_current_fn();
 			var->is_tls = attr->is_tls;
 			if (attr->align)
 				var->align = attr->align;
diff --git a/parser/parser.c b/parser/parser.c
index d466765..02cf8b1 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -20,6 +20,11 @@
 // Points to the function object the parser is currently parsing.
 static struct Obj *current_fn;
 
+struct Obj *ret_current_fn(void)
+{
+	return current_fn;
+}
+
 // funcall = (assign ("," assign)*)? ")"
 static struct Node *funcall(struct Token **rest, struct Token *tok, struct Node *fn)
 {
@@ -1524,6 +1529,14 @@ struct Obj *declare_function(struct Type *ty, struct Token *tok,
 
 		fn->is_definition = fn->is_definition || is_definition;
 
+		// An inline function is external as well if a declaration
+		// at file scope says so.
+		if (fn->is_inline_only && is_global_scope() &&
+		    (!attr->is_inline || attr->is_extern)) {
+			fn->is_inline_only = false;
+			fn->is_static = false;
+		}
+
 		// it hides what is declared in the enclosing blocks
 		if (!is_global_scope())
 			push_scope(name_str)->var = fn;
@@ -1534,8 +1547,9 @@ struct Obj *declare_function(struct Type *ty, struct Token *tok,
 		fn->is_definition = is_definition;
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
 		fn->is_inline = attr->is_inline;
+		fn->is_inline_only = attr->is_inline && !attr->is_static && !attr->is_extern;
 	}
-	fn->is_root = !(fn->is_static && fn->is_inline);
+	fn->is_root = fn->is_root || !(fn->is_static && fn->is_inline);
 	return fn;
 }
 
@@ -1580,6 +1594,7 @@ static struct Token *function_body(struct Token *tok, struct Obj *fn,
 	leave_scope();
 
 	resolve_goto_labels();
+	current_fn = NULL;
 	return tok;
 }
 
diff --git a/parser/parser.h b/parser/parser.h
index 6e21440..04e34c5 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -27,6 +27,7 @@ const char *new_unique_name(void);
 struct Node *new_ulong(long val, struct Token *tok);
 
 // parser
+struct Obj *ret_current_fn(void);
 bool is_typename(struct Token *tok);
 struct Type *typename(struct Token **rest, struct Token *tok);
 
diff --git a/toycc.h b/toycc.h
index e1d4754..30b34df 100644
--- a/toycc.h
+++ b/toycc.h
@@ -299,9 +299,11 @@ struct Obj {
 	bool is_tls;
 	const char *init_data;
 	struct Relocation *rel;
+	struct Obj *fn;		// function of a static local variable
 
 	// function
 	bool is_inline;
+	bool is_inline_only;	// inline, neither static nor extern
 	struct Obj *params;
 	struct Node *body;
 	struct Obj *locals;
-- 
2.43.0


From be57c41b2a126eccd72f3ee53dad97c32357bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:50 +0000
Subject: [PATCH 76/80] fix: atomic operations on objects of every size, sign
 and kind; operands may call functions; A++ of atomic _Bool and floating types
 has the old value

---
 codegen.c           | 211 +++++++++++++++++++++++++++++++++-----------
 parser/declarator.c |   1 +
 parser/parser.c     |  18 ++--
 type.c              |  15 +++-
 4 files changed, 187 insertions(+), 58 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8cfc704..515aedb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -959,6 +959,164 @@ static void extract_bitfield(struct Member *mem, int offset)
 		println("\tsrai a0, a0, %d", 64 - mem->bit_width);
 }
 
+// Atomic operations use lr/sc or amo on the object. As those exist for
+// 4 and 8 bytes only, smaller objects are a field of the aligned word
+// around them, which is kept as it is otherwise.
+//
+// in: t0: address of the object, t3: new value
+// a1: address of the word, t5: position of the field, t6: mask of the field
+static void atomic_field(int sz)
+{
+	println("\tandi a1, t0, -4");
+	println("\tandi t5, t0, 3");
+	println("\tslli t5, t5, 3");
+	println("\tli t6, %d", sz == sizeof(char) ? 0xff : 0xffff);
+	println("\tsll t6, t6, t5");
+	println("\tsll t3, t3, t5");
+	println("\tand t3, t3, t6");
+}
+
+// Move a floating-point value to an integer register of the same size.
+static void float_to_bits(struct Type *ty)
+{
+	if (is_float_arg(ty))
+		println("\tfmv.x.%s a0, fa0", ty->kind == TY_FLOAT ? "w" : "d");
+}
+
+static void gen_cas(struct Node *node)
+{
+	struct Type *ty = node->cas_addr->ty->base;
+	const char *w = (ty->size == sizeof(long)) ? "d" : "w";
+	bool is_field = ty->size < (int)sizeof(int);
+	int c = count();
+
+	gen_expr(node->cas_addr);
+	push("a0");
+	gen_expr(node->cas_old);
+	push("a0");
+	gen_expr(node->cas_new);
+	float_to_bits(ty);
+
+	// t0: A addr
+	// t1: B addr
+	// t3: C value
+	println("\tmv t3, a0");
+	pop("t1");
+	pop("t0");
+
+	// t2: B value
+	switch (ty->size) {
+	case sizeof(char):
+		println("\tlbu t2, (t1)");
+		break;
+	case sizeof(short):
+		println("\tlhu t2, (t1)");
+		break;
+	case sizeof(int):
+		println("\tlw t2, (t1)");
+		break;
+	default:
+		println("\tld t2, (t1)");
+		break;
+	}
+
+	if (is_field) {
+		atomic_field(ty->size);
+		println("\tsll t2, t2, t5");
+	}
+
+	println(".L.cas_retry.%d:", c);
+
+	// lr(Load-Reserved):
+	// Load and Reserved control of the memory address.
+	//
+	// sc(Store-Conditional):
+	// Writes a value from a register to a specified memory
+	// address, the write operation takes effect only if the
+	// memory address is still reserved by the processor.
+	//
+	// aq(acquisition), rl(release):
+	// No memory operation of this hardware thread is moved over
+	// the atomic one.
+
+	// t4: A value
+	if (is_field) {
+		println("\tlr.w.aqrl a2, (a1)");
+		println("\tand t4, a2, t6");
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\txor a2, a2, t4");
+		println("\tor a2, a2, t3");
+		println("\tsc.w.aqrl a0, a2, (a1)");
+	} else {
+		println("\tlr.%s.aqrl t4, (t0)", w);
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\tsc.%s.aqrl a0, t3, (t0)", w);
+	}
+	println("\tbnez a0, .L.cas_retry.%d", c);
+
+	println(".L.cas_return.%d:", c);
+	// compare A value and B value
+	println("\txor t2, t4, t2");
+	println("\tseqz a0, t2");
+	println("\tbeqz t2, .L.cas_end.%d", c);
+
+	// if not equals, write B addr with A value
+	if (is_field)
+		println("\tsrl t4, t4, t5");
+
+	switch (ty->size) {
+	case sizeof(char):
+		println("\tsb t4, (t1)");
+		break;
+	case sizeof(short):
+		println("\tsh t4, (t1)");
+		break;
+	case sizeof(int):
+		println("\tsw t4, (t1)");
+		break;
+	default:
+		println("\tsd t4, (t1)");
+		break;
+	}
+	println(".L.cas_end.%d:", c);
+}
+
+static void gen_exch(struct Node *node)
+{
+	struct Type *ty = node->ty;
+
+	gen_expr(node->lhs);
+	push("a0");
+	gen_expr(node->rhs);
+	float_to_bits(ty);
+	println("\tmv t3, a0");
+	pop("t0");
+
+	if (ty->size >= (int)sizeof(int)) {
+		println("\tamoswap.%s.aqrl a0, t3, (t0)",
+			ty->size == sizeof(long) ? "d" : "w");
+	} else {
+		int c = count();
+		int bits = 64 - ty->size * 8;
+
+		atomic_field(ty->size);
+		println(".L.exch_retry.%d:", c);
+		println("\tlr.w.aqrl t4, (a1)");
+		println("\tand t2, t4, t6");
+		println("\txor a2, t4, t2");
+		println("\tor a2, a2, t3");
+		println("\tsc.w.aqrl a0, a2, (a1)");
+		println("\tbnez a0, .L.exch_retry.%d", c);
+
+		println("\tsrl a0, t2, t5");
+		println("\tslli a0, a0, %d", bits);
+		println("\t%s a0, a0, %d", ty->is_unsigned ? "srli" : "srai", bits);
+	}
+
+	if (is_float_arg(ty))
+		println("\tfmv.%s.x fa0, a0", ty->kind == TY_FLOAT ? "w" : "d");
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1261,60 +1419,11 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_CAS:
-		// t0: A addr
-		gen_expr(node->cas_addr);
-		println("\tmv t0, a0");
-		// t1: B addr
-		gen_expr(node->cas_old);
-		println("\tmv t1, a0");
-		// t2: B value
-		load(node->cas_old->ty->base);
-		println("\tmv t2, a0");
-		// t3: C value
-		gen_expr(node->cas_new);
-		println("\tmv t3, a0");
-
-		c = count();
-		println(".L.cas_retry.%d:", c);
-
-		// lr(Load-Reserved):
-		// Load and Reserved control of the memory address.
-		//
-		// aq(acquisition):
-		// If the AQ bit is set, any memory operations in this
-		// hardware thread that occur after an atomic memory
-		// operation(AMO) will not occur before the AMO.
-
-		// t4: A value
-		println("\tlr.w.aq t4, (t0)");
-		println("\tbne t4, t2, .L.cas_return.%d", c);
-
-		// sc(Store-Conditional):
-		// Writes a value from a register to a specified memory
-		// address, the write operation takes effect only if the
-		// memory address is still reserved by the processor.
-		println("\tsc.w.aq a0, t3, (t0)");
-		println("\tbnez a0, .L.cas_retry.%d", c);
-
-		println(".L.cas_return.%d:", c);
-		// compare A value and B value
-		println("\tsubw t2, t4, t2");
-		println("\tseqz a0, t2");
-		println("\tbeqz t2, .L.cas_end.%d", c);
-
-		// if not equals, write B addr with A value
-		println("\tsw t4, (t1)");
-		println(".L.cas_end.%d:", c);
+		gen_cas(node);
 		return;
 
 	case ND_EXCH:
-		gen_expr(node->lhs);
-		push("a0");
-		gen_expr(node->rhs);
-		pop("a1");
-
-		size_t sz = node->lhs->ty->base->size;
-		println("amoswap.%s.aq a0, a0, (a1)", sz <= sizeof(int) ? "w" : "d");
+		gen_exch(node);
 		return;
 
 	default:
diff --git a/parser/declarator.c b/parser/declarator.c
index 814426c..4fa668f 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -560,6 +560,7 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 			if (equal(tok , "(")) {
 				ty = typename(&tok, tok->next);
 				tok = skip(tok, ")");
+				counter += OTHER;
 			}
 			is_atomic = true;
 			continue;
diff --git a/parser/parser.c b/parser/parser.c
index 02cf8b1..9c3af9a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -370,7 +370,9 @@ static struct Node *struct_ref(struct Node *node, struct Token *tok)
 // In general, `A op= C` is converted to ``tmp = &A, *tmp = *tmp op B`.
 // However, if a given expression is of form `A.x op= C` and x is a bitfield,
 // the input is converted to `tmp = &A, (*tmp).x = (*tmp).x op C`.
-static struct Node *to_assign(struct Node *binary)
+//
+// The value is that of A before if `is_old` (only of atomic types).
+static struct Node *to_assign2(struct Node *binary, bool is_old)
 {
 	add_type(binary->lhs);
 	add_type(binary->rhs);
@@ -477,7 +479,8 @@ static struct Node *to_assign(struct Node *binary)
 
 		cur = cur->next = loop;
 		// return new
-		cur = cur->next = new_unary(ND_EXPR_STMT, new_var_node(new, tok), tok);
+		cur = cur->next = new_unary(ND_EXPR_STMT,
+					    new_var_node(is_old ? old : new, tok), tok);
 
 		//  ({ ... })
 		struct Node *node = new_node(ND_STMT_EXPR, tok);
@@ -503,9 +506,14 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
+static struct Node *to_assign(struct Node *binary)
+{
+	return to_assign2(binary, false);
+}
+
 // Convert A++ to `tmp = &A, old = *tmp, *tmp = old + 1, (typeof A)old`
 // If A is a bit-field S.x, tmp is &S and *tmp is (*tmp).x.
-// If A is an atomic type, convert it to `(typeof A)((A += 1) - 1)`.
+// If A is an atomic type, convert it to `A += 1` with the old value.
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
@@ -514,10 +522,8 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 
 	if (node->ty->is_atomic && !is_bitfield) {
 		struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-		struct Node *node_to_assign = to_assign(node_add);
-		struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
 
-		return new_cast(node_minus, node->ty);
+		return new_cast(to_assign2(node_add, true), node->ty);
 	}
 
 	struct Node *obj = is_bitfield ? node->lhs : node;
diff --git a/type.c b/type.c
index 511a766..84504d3 100644
--- a/type.c
+++ b/type.c
@@ -383,6 +383,15 @@ static struct Type *cond_pointer_type(struct Node *lhs, struct Node *rhs)
 	return pointer_to(ty1);
 }
 
+// Atomic operations work on scalars of up to 8 bytes.
+static void check_atomic(struct Node *ptr)
+{
+	struct Type *ty = ptr->ty->base;
+
+	if (!(is_numeric(ty) || ty->kind == TY_PTR) || ty->size > (int)sizeof(long))
+		error_tok(ptr->tok, "unsupported atomic type");
+}
+
 void add_type(struct Node *node)
 {
 	if (!node || node->ty)
@@ -532,13 +541,17 @@ void add_type(struct Node *node)
 		if (node->cas_old->ty->kind != TY_PTR)
 			error_tok(node->cas_old->tok, "pointer expected");
 
+		check_atomic(node->cas_addr);
+		node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
 		node->ty = p_ty_bool();
 		break;
 
 	case ND_EXCH:
 		if (node->lhs->ty->kind != TY_PTR)
-			error_tok(node->cas_addr->tok, "pointer expected");
+			error_tok(node->lhs->tok, "pointer expected");
 
+		check_atomic(node->lhs);
+		node->rhs = new_cast(node->rhs, node->lhs->ty->base);
 		node->ty = node->lhs->ty->base;
 		break;
 
-- 
2.43.0


From 79547506d6f1a70fa415650cbbd147120afd39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:12 +0000
Subject: [PATCH 77/80] fix: atomic_fetch_* have the old value

---
 include/stdatomic.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/stdatomic.h b/include/stdatomic.h
index 22da14f..e6ae0f1 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -34,17 +34,27 @@ enum memory_order {
 #define atomic_load_explicit(addr, order) (*(addr))
 #define atomic_store_explicit(addr, val, order) (*(addr) = (val))
 
-#define atomic_fetch_add(obj, val) (*(obj) += (val))
-#define atomic_fetch_sub(obj, val) (*(obj) -= (val))
-#define atomic_fetch_or(obj, val) (*(obj) |= (val))
-#define atomic_fetch_xor(obj, val) (*(obj) ^= (val))
-#define atomic_fetch_and(obj, val) (*(obj) &= (val))
+// the value is that of *obj before
+#define __atomic_fetch_op(obj, op, val) ({				\
+	typeof(obj) __obj = (obj);					\
+	typeof(val) __val = (val);					\
+	typeof(*__obj) __old = *__obj;					\
+	while (!__builtin_compare_and_swap(__obj, &__old, __old op __val)) \
+		;							\
+	__old;								\
+})
 
-#define atomic_fetch_add_explicit(obj, val, order) (*(obj) += (val))
-#define atomic_fetch_sub_explicit(obj, val, order) (*(obj) -= (val))
-#define atomic_fetch_or_explicit(obj, val, order) (*(obj) |= (val))
-#define atomic_fetch_xor_explicit(obj, val, order) (*(obj) ^= (val))
-#define atomic_fetch_and_explicit(obj, val, order) (*(obj) &= (val))
+#define atomic_fetch_add(obj, val) __atomic_fetch_op((obj), +, (val))
+#define atomic_fetch_sub(obj, val) __atomic_fetch_op((obj), -, (val))
+#define atomic_fetch_or(obj, val) __atomic_fetch_op((obj), |, (val))
+#define atomic_fetch_xor(obj, val) __atomic_fetch_op((obj), ^, (val))
+#define atomic_fetch_and(obj, val) __atomic_fetch_op((obj), &, (val))
+
+#define atomic_fetch_add_explicit(obj, val, order) __atomic_fetch_op((obj), +, (val))
+#define atomic_fetch_sub_explicit(obj, val, order) __atomic_fetch_op((obj), -, (val))
+#define atomic_fetch_or_explicit(obj, val, order) __atomic_fetch_op((obj), |, (val))
+#define atomic_fetch_xor_explicit(obj, val, order) __atomic_fetch_op((obj), ^, (val))
+#define atomic_fetch_and_explicit(obj, val, order) __atomic_fetch_op((obj), &, (val))
 
 // __builtin_compare_and_swap(pa, pb, c_val)
 // if (*pa == *pb) then *pa = c_val, return true
-- 
2.43.0


From ca6c4a4c8dac8ce38d93f463415d285f720905e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 78/80] fix: thread-local objects beyond the first 2 KiB are
 addressed relative to the thread pointer

---
 codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 515aedb..a04792d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -214,9 +214,11 @@ static void gen_addr(struct Node *node)
 		// Thread-local variable
 		if (node->var->is_tls) {
 			// HI20
-			println("\tauipc a0, %%tprel_hi(%s)", node->var->name);
+			println("\tlui a0, %%tprel_hi(%s)", node->var->name);
+			// thread pointer
+			println("\tadd a0, a0, tp, %%tprel_add(%s)", node->var->name);
 			// LO12
-			println("\tadd a0, a0, %%tprel_lo(%s)", node->var->name);
+			println("\taddi a0, a0, %%tprel_lo(%s)", node->var->name);
 			return;
 		}
 
-- 
2.43.0


From 480bc1cf5544d96c507c88eaad5c9bde118f4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:47 +0000
Subject: [PATCH 79/80] fix: function types without a name in type names and
 parameters

---
 parser/declarator.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 4fa668f..941cc2e 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -366,6 +366,14 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 
 static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 				struct Type *ty);
+
+// Without a name, "()" and "(" type-name begin a list of parameters.
+static bool is_func_suffix(struct Token *tok)
+{
+	return equal(tok, "(") &&
+	       (equal(tok->next, ")") || is_typename(tok->next));
+}
+
 // abstract_declarator = pointers ("(" abstract-declarator ")")? type-suffix
 static struct Type *abstract_declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 {
@@ -373,7 +381,7 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 	ty = pointers(&tok, tok, ty);
 
 	// like "sizeof(char(*)[4])"
-	if (equal(tok, "(")) {
+	if (equal(tok, "(") && !is_func_suffix(tok)) {
 		struct Token *start = tok->next;
 		struct Type dummy = {};
 
@@ -710,6 +718,9 @@ struct Type *declspec(struct Token **rest, struct Token *tok,
 	return ty;
 }
 
+static struct Type *param_declarator(struct Token **rest, struct Token *tok,
+				     struct Type *ty);
+
 // func-params = ("void" | param ("," param)* ("," "...")?)? ")"
 // param = declspec declarator
 static struct Type *func_params(struct Token **rest, struct Token *tok, struct Type *ty)
@@ -735,7 +746,7 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		}
 
 		struct Type *basety = declspec(&tok, tok, NULL);
-		struct Type *ty2 = declarator(&tok, tok, basety);
+		struct Type *ty2 = param_declarator(&tok, tok, basety);
 
 		struct Token *name = ty2->name;
 
@@ -857,23 +868,24 @@ static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 }
 
 // declarator = "*"* ("(" ident ")" | "(" declarator ")" | ident) (type-suffix)?
-struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
+static struct Type *declarator2(struct Token **rest, struct Token *tok,
+				struct Type *ty, bool is_param)
 {
 	ty = pointers(&tok, tok, ty);
 
-	if (equal(tok, "(")) {
+	if (equal(tok, "(") && !(is_param && is_func_suffix(tok))) {
 		struct Token *start = tok->next;
 		struct Type dummy = {};
 
 		// get the token of type_suffix firstly
-		declarator(&tok, start, &dummy);
+		declarator2(&tok, start, &dummy, is_param);
 		tok = skip(tok, ")");
 
 		// get the type of declarator, and update 'rest'
 		ty = type_suffix(rest, tok, ty);
 
 		// process 'start' token, and keep the 'rest' & return it
-		return declarator(&tok, start, ty);
+		return declarator2(&tok, start, ty, is_param);
 	}
 
 	struct Token *name = NULL;
@@ -892,6 +904,17 @@ struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 	return ty;
 }
 
+struct Type *declarator(struct Token **rest, struct Token *tok, struct Type *ty)
+{
+	return declarator2(rest, tok, ty, false);
+}
+
+static struct Type *param_declarator(struct Token **rest, struct Token *tok,
+				     struct Type *ty)
+{
+	return declarator2(rest, tok, ty, true);
+}
+
 static struct Obj *builtin_alloca;
 
 // Generate code for computing a VLA size.
-- 
2.43.0


From 1e2f525b331c1e61565206b939709899fc72ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 80/80] fix: array types of unknown length are compatible with
 those of a known length

---
 type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 84504d3..f202f4b 100644
--- a/type.c
+++ b/type.c
@@ -230,7 +230,8 @@ bool is_compatible(struct Type *t1, struct Type *t2)
 		if (!is_compatible(t1->base, t2->base))
 			return false;
 
-		return t1->array_len >= 0 && t2->array_len >= 0 &&
+		// an array of unknown length is compatible with any length
+		return t1->array_len < 0 || t2->array_len < 0 ||
 			t1->array_len == t2->array_len;
 
 	default:
-- 
2.43.0

