From 5629df3f5e44031ec73ac7b7ea044d68149e9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 01/20] fix: static initializer of a 64-bit wide bit-field was
 stored as 0

(1L << 64) is undefined; on x86 the mask became zero.
---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 227a82b..4cfdf7e 100644
--- a/parse.c
+++ b/parse.c
@@ -2077,7 +2077,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
           uint64_t newval = eval(&init_expr);
-          uint64_t mask = (1L << mem->bit_width) - 1;
+          uint64_t mask = mem->bit_width < 64 ? (1ULL << mem->bit_width) - 1 : UINT64_MAX;
           uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
           memcpy(loc, &combined, mem->ty->size);
           continue;
-- 
2.43.0


From be39172cb1a48f55e68246358ce7dc43e56f422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 02/20] fix: convert static bit-field initializers to the type
 of the member

The cast was to the enclosing struct, so '_Bool b : 1 = 2' stored 0.
---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index 4cfdf7e..ea91dce 100644
--- a/parse.c
+++ b/parse.c
@@ -2072,7 +2072,7 @@ write_gvar_data(Relocation *cur, Initializer *init, Type *ty, char *buf, int off
         if (mem->is_bitfield &&
           ((init2->kind == INIT_EXPR || init2->kind == INIT_TOK))) {
           Node *node = init_num_tok(init2, &(Node){.kind = ND_NUM, .tok = init2->tok});
-          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = ty};
+          Node init_expr = {.kind = ND_CAST, .tok = node->tok, .lhs = node, .ty = mem->ty};
 
           char *loc = buf + offset + mem->offset;
           uint64_t oldval = read_buf(loc, mem->ty->size);
-- 
2.43.0


From 8254e6ef20ab7aba43ecf8a4b682be526c9f4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 03/20] fix: long double to short, unsigned short and unsigned
 int conversions

---
 codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9748ec2..e31ebbb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1068,10 +1068,10 @@ static char f64f80[] = "sub $8, %rsp; movsd %xmm0, (%rsp); fldl (%rsp); add $8,
 
 static char f80i8[] = FROM_F80_1 "fistps" FROM_F80_2 "movsbl (%rsp), %eax" FROM_F80_3;
 static char f80u8[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movzbl (%rsp), %eax" FROM_F80_3;
-static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80i16[] = FROM_F80_1 "fistps" FROM_F80_2 "movswl (%rsp), %eax" FROM_F80_3;
+static char f80u16[] = FROM_F80_1 "fistpl" FROM_F80_2 "movzwl (%rsp), %eax" FROM_F80_3;
 static char f80i32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
-static char f80u32[] = FROM_F80_1 "fistpl" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
+static char f80u32[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %eax" FROM_F80_3;
 static char f80i64[] = FROM_F80_1 "fistpq" FROM_F80_2 "mov (%rsp), %rax" FROM_F80_3;
 static char f80u64[] =
   "sub $16, %rsp; movl $0x5f000000, 12(%rsp); flds 12(%rsp); fucomi %st(1), %st; setbe %al;"
-- 
2.43.0


From 08a4aa7ae8335dce87926f78ae6bb813100485ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 04/20] fix: reject 08 and 09 instead of reading them as
 floating constants

---
 tokenize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 3554614..b5679d4 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -613,6 +613,10 @@ Type *convert_pp_number(Token *tok, int64_t *res_val, long double *res_fval) {
   if (&buf[len] != end)
     error_tok(tok, "invalid numeric constant");
 
+  // "09" is an invalid octal constant rather than a floating one.
+  if (ty != ty_float && !strpbrk(buf, ".eEpP"))
+    error_tok(tok, "invalid numeric constant");
+
   *res_fval = val;
   return ty;
 }
-- 
2.43.0


From 6bd73fe1e245b74d96f8d0474f568b363e57033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 05/20] fix: evaluate #if arithmetic in intmax_t and uintmax_t

Number tokens kept their C type, so "#if 1 << 40" was false.
---
 preprocess.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 673b28c..2d4f5d9 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -321,7 +321,7 @@ static Token *new_num_token(int val, Token *tmpl) {
 static Token *to_int_token(Token *tok, int64_t val) {
   tok->kind = TK_INT_NUM;
   tok->ival = val;
-  tok->ty = ty_int;
+  tok->ty = ty_long;
   return tok;
 }
 
@@ -357,6 +357,17 @@ static Token *read_const_expr(Token *tok) {
     else if (tok->kind == TK_IDENT)
       to_int_token(tok, 0);
 
+    // All integers act as if they were intmax_t or uintmax_t.
+    if (tok->kind == TK_PP_NUM || tok->kind == TK_INT_NUM) {
+      int64_t val;
+      Type *ty = convert_pp_number(tok, &val, &(long double){0});
+      if (is_integer(ty)) {
+        to_int_token(tok, val);
+        if (ty->is_unsigned)
+          tok->ty = ty_ulong;
+      }
+    }
+
     cur = cur->next = tok;
     tok = tok->next;
   }
-- 
2.43.0


From 76e165706aa9f252fe498c2fe8c485e70be6c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 06/20] fix: \\u after an escaped backslash is not a universal
 character name

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index b5679d4..3d1ae49 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -918,6 +918,8 @@ static void convert_universal_chars(char *p) {
         q += encode_utf8(q, c);
         continue;
       }
+    } else if (startswith2(p, '\\', '\\')) {
+      *q++ = *p++;
     }
     *q++ = *p++;
   }
-- 
2.43.0


From bbc24cedbdb0b5020f462335d4762c99391b7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 07/20] fix: a line comment ending in a splice at the end of
 the file read past the text

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index 3d1ae49..6b4062d 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -676,7 +676,7 @@ Token *tokenize(File *file, Token **end) {
     // Skip line comments.
     if (startswith2(p, '/', '/')) {
       p += 2;
-      while (*p != '\n')
+      while (*p && *p != '\n')
         p++;
       has_space = true;
       continue;
-- 
2.43.0


From f814889f8e5ce15e716a7c7632ca3939dddf0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 08/20] fix: joining a u8 string with a u string corrupted the
 heap

---
 preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocess.c b/preprocess.c
index 2d4f5d9..0154c4c 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1749,7 +1749,7 @@ typedef enum {
 } StringKind;
 
 static StringKind getStringKind(Token *tok) {
-  if (!strcmp(tok->loc, "u8"))
+  if (!strncmp(tok->loc, "u8", 2))
     return STR_UTF8;
 
   switch (tok->loc[0]) {
-- 
2.43.0


From 0c797ee556934be419beb493260a66c535aa327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 09/20] fix: convert the assigned value to the type of an
 atomic object

---
 parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.c b/parse.c
index ea91dce..0fa10ba 100644
--- a/parse.c
+++ b/parse.c
@@ -3277,7 +3277,7 @@ static Node *assign(Token **rest, Token *tok) {
   if (equal(tok, "=") && node->ty->is_atomic) {
     Node *rhs = assign(rest, tok->next);
     add_type(rhs);
-    Obj *tmp = new_lvar(NULL, rhs->ty);
+    Obj *tmp = new_lvar(NULL, unqual(node->ty));
     Node *expr = new_binary(ND_ASSIGN, new_var_node(tmp, tok), rhs, tok);
     chain_expr(&expr, new_binary(ND_EXCH, new_unary(ND_ADDR, node, tok),
                                           new_var_node(tmp, tok),
-- 
2.43.0


From b02f95ef93ae0a286682f79ab4126e8202c9b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 10/20] fix: atomic exchange and compare-and-swap convert their
 operand and result

---
 codegen.c | 14 ++++++++++++--
 type.c    |  4 ++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index e31ebbb..9b7c3f4 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1821,8 +1821,18 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->rhs);
     char *reg = pop_inreg(tmpreg64[0]);
 
-    int sz = node->lhs->ty->base->size;
-    Printftn("xchg %s, (%s)", reg_ax(sz), reg);
+    Type *ty = node->lhs->ty->base;
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%xmm0, %%rax"); break;
+    case TY_FLOAT: Printstn("movd %%xmm0, %%eax"); break;
+    }
+    Printftn("xchg %s, (%s)", reg_ax(ty->size), reg);
+    switch (ty->kind) {
+    case TY_DOUBLE: Printstn("movq %%rax, %%xmm0"); return;
+    case TY_FLOAT: Printstn("movd %%eax, %%xmm0"); return;
+    }
+    if (ty->size < 4)
+      cast_extend_int32(ty, reg_ax(ty->size), "%eax");
     return;
   }
   case ND_ALLOCA:
diff --git a/type.c b/type.c
index 4f2e385..503e91e 100644
--- a/type.c
+++ b/type.c
@@ -557,10 +557,14 @@ void add_type(Node *node) {
       error_tok(node->cas_addr->tok, "pointer expected");
     if (node->cas_old->ty->kind != TY_PTR)
       error_tok(node->cas_old->tok, "pointer expected");
+    if (is_numeric(node->cas_addr->ty->base))
+      node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
     return;
   case ND_EXCH:
     if (node->lhs->ty->kind != TY_PTR)
       error_tok(node->cas_addr->tok, "pointer expected");
+    if (is_numeric(node->lhs->ty->base))
+      node->rhs = new_cast(node->rhs, node->lhs->ty->base);
     node->ty = node->lhs->ty->base;
     return;
   case ND_VA_START:
-- 
2.43.0


From 8f42ec0d6ab478f728f9f100b1de3cdb7d99ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 11/20] fix: dereference at a constant offset beyond 2 GiB read
 a truncated address

---
 codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 9b7c3f4..556cafa 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2945,11 +2945,13 @@ static bool gen_expr_opt(Node *node) {
     int64_t ofs = 0;
     gen_deref_opt(node->lhs, &ofs);
 
-    if (is_scalar(ty)) {
+    if (is_scalar(ty) && in_imm_range(ofs)) {
       load2(ty, ofs, "%rax");
       return true;
     }
     imm_add("%rax", "%rdx", ofs);
+    if (is_scalar(ty))
+      load2(ty, 0, "%rax");
     return true;
   }
 
-- 
2.43.0


From 24d6a1b501432d521199312548fcc0f70540d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 12/20] fix: compare-and-swap reloaded its address over the
 register holding the expected-value pointer

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 556cafa..9723792 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1791,7 +1791,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_expr(node->cas_new);
 
     char *old = pop_inreg(tmpreg64[0]);
-    char *addr = pop_inreg(tmpreg64[1]);
+    char *addr = pop_inreg("%rcx");
 
     Type *ty = node->cas_addr->ty->base;
     char *ax = reg_ax(ty->size);
-- 
2.43.0


From 08dda0b21270d85e0ba4ff1e69d8fb7cd8c7a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 13/20] fix: dereference of a pointer cast from a narrow
 integer skipped the conversion

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 9723792..ab3c49a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2769,7 +2769,8 @@ static bool gen_load_opt_gp(Node *node, Reg r) {
 
 static void gen_deref_opt(Node *node, int64_t *ofs) {
   for (;; node = node->lhs) {
-    if (node->kind == ND_CAST && node->ty->base)
+    if (node->kind == ND_CAST && node->ty->base &&
+      (node->lhs->ty->base || node->lhs->ty->size == 8))
       continue;
 
     if (node->kind == ND_DEREF && node->ty->kind == TY_ARRAY)
-- 
2.43.0


From b69b2cf7392e8fe7145431e84881b8d59408bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 14/20] fix: compound assignment to a bit-field did not promote
 it

---
 codegen.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index ab3c49a..63e99f0 100644
--- a/codegen.c
+++ b/codegen.c
@@ -969,8 +969,17 @@ static void gen_var_assign(Obj *var, Node *expr) {
   gen_void_assign(&node);
 }
 
-static void gen_expr_null_lhs(NodeKind kind, Type *ty, Node *rhs) {
+static void gen_expr_null_lhs(NodeKind kind, Node *lhs, Node *rhs) {
+  Type *ty = lhs->ty;
   Node null = {.kind = ND_NULL_EXPR, .ty = ty, .tok = rhs->tok};
+  // A bit-field promotes according to its width
+  if (is_bitfield(lhs)) {
+    int width = lhs->member->bit_width;
+    if (width < 32 || (width == 32 && !ty->is_unsigned))
+      null.ty = ty_int;
+    else if (width == 32)
+      null.ty = ty_uint;
+  }
   Node expr = {.kind = kind, .lhs = &null, .rhs = rhs,.tok = rhs->tok};
   add_type(&expr);
   gen_expr(new_cast(&expr, ty));
@@ -1685,7 +1694,7 @@ static void gen_expr2(Node *node, bool is_void) {
     gen_addr(node->lhs);
     push();
     load(node->lhs, 0);
-    gen_expr_null_lhs(node->arith_kind, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(node->arith_kind, node->lhs, node->rhs);
     store(node->lhs, is_void);
     return;
   case ND_POST_INCDEC:
@@ -1694,7 +1703,7 @@ static void gen_expr2(Node *node, bool is_void) {
     load(node->lhs, 0);
     push_by_ty(node->lhs->ty);
     push_from("%rcx");
-    gen_expr_null_lhs(ND_ADD, node->lhs->ty, node->rhs);
+    gen_expr_null_lhs(ND_ADD, node->lhs, node->rhs);
     store(node->lhs, true);
     pop_by_ty(node->lhs->ty);
     return;
-- 
2.43.0


From 0bd0216837fb1dfb8028ecb10cb50def24ee3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 15/20] fix: 8, 16 and 32-bit wide fields of a 64-bit type were
 not extended to 64 bits

---
 codegen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 63e99f0..4fe1a2c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -643,11 +643,22 @@ static void gen_cmp_setcc(NodeKind kind, bool is_unsigned) {
   Printstn("movzbl %%al, %%eax");
 }
 
+// A field of a 64-bit type is loaded and assigned as a 64-bit value
+static void extend_bitfield64(Member *mem) {
+  int shft = 64 - mem->bit_width;
+  if (mem->ty->size == 8 && shft) {
+    Printftn("shl $%d, %%rax", shft);
+    Printftn("%s $%d, %%rax", (mem->ty->is_unsigned ? "shr" : "sar"), shft);
+  }
+}
+
 static void gen_bitfield_load(Node *node, int ofs) {
   Member *mem = node->member;
   Type *alt_ty = bitwidth_to_ty(mem->bit_width, mem->ty->is_unsigned);
   if (alt_ty && (mem->bit_offset == (mem->bit_offset / 8 * 8))) {
     load2(alt_ty, ofs + mem->bit_offset / 8, "%rax");
+    if (!mem->ty->is_unsigned)
+      extend_bitfield64(mem);
     return;
   }
   load2(mem->ty, ofs, "%rax");
@@ -667,8 +678,11 @@ static void gen_bitfield_store(Node *node, bool is_void) {
     char *reg = pop_inreg(tmpreg64[0]);
     store2(alt_ty, mem->bit_offset / 8, reg);
 
-    if (!is_void && alt_ty->size < 4)
-      cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+    if (!is_void) {
+      if (alt_ty->size < 4)
+        cast_extend_int32(alt_ty, reg_ax(alt_ty->size), "%eax");
+      extend_bitfield64(mem);
+    }
     return;
   }
 
-- 
2.43.0


From 8fba1374574edf4f1bf41fbc209f232846d1cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 16/20] fix: scale the difference of pointers to variable
 length arrays by the array size

---
 parse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.c b/parse.c
index 0fa10ba..8a07fbc 100644
--- a/parse.c
+++ b/parse.c
@@ -3562,9 +3562,13 @@ static Node *new_sub(Node *lhs, Node *rhs, Token *tok) {
 
   // ptr - ptr, which returns how many elements are between the two.
   if (lhs->ty->base && rhs->ty->base) {
-    int sz = lhs->ty->base->size;
+    Node *sz;
+    if (lhs->ty->base->kind == TY_VLA)
+      sz = new_cast(new_var_node(lhs->ty->base->vla_size, tok), ty_intptr_t);
+    else
+      sz = new_num(lhs->ty->base->size, tok);
     Node *node = new_binary(ND_SUB, new_cast(lhs, ty_intptr_t), new_cast(rhs, ty_intptr_t), tok);
-    return new_cast(new_binary(ND_DIV, node, new_num(sz, tok), tok), ty_ptrdiff_t);
+    return new_cast(new_binary(ND_DIV, node, sz, tok), ty_ptrdiff_t);
   }
 
   error_tok(tok, "invalid operands");
-- 
2.43.0


From 0e0dc2fd59926b0a30a6761aef3aeae9d2ad5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 17/20] fix: type the right operand of a compound assignment to
 an atomic object

---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index 8a07fbc..047fa1b 100644
--- a/parse.c
+++ b/parse.c
@@ -3201,6 +3201,8 @@ static Node *atomic_op(Node *binary, bool return_old) {
   Node head = {0};
   Node *cur = &head;
 
+  add_type(binary->rhs);
+
   Obj *addr = new_lvar(NULL, pointer_to(binary->lhs->ty));
   Obj *val = new_lvar(NULL, binary->rhs->ty);
   Obj *old = new_lvar(NULL, binary->lhs->ty);
-- 
2.43.0


From 09cb462e6644ea0412d3d2f4115bfbc3a03b8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 18/20] fix: lay out structs larger than 256 MiB

The running bit offset was an int and overflowed, leaving the type with a
negative size.
---
 parse.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parse.c b/parse.c
index 047fa1b..e4759a6 100644
--- a/parse.c
+++ b/parse.c
@@ -183,8 +183,12 @@ static Node *compute_vla_size(Type *ty, Token *tok);
 static int64_t const_expr2(Token **rest, Token *tok, Type **ty);
 static Node *new_node(NodeKind kind, Token *tok);
 
-static int align_down(int n, int align) {
-  return align_to(n - align + 1, align);
+static int64_t align_to64(int64_t n, int64_t align) {
+  return (n + align - 1) / align * align;
+}
+
+static int64_t align_down(int64_t n, int64_t align) {
+  return align_to64(n - align + 1, align);
 }
 
 static void enter_scope(void) {
@@ -3829,7 +3833,7 @@ static Type *struct_union_decl(Token **rest, Token *tok, TypeKind kind) {
 }
 
 static Type *struct_decl(Type *ty, int alt_align) {
-  int bits = 0;
+  int64_t bits = 0;
   Member head = {0};
   Member *cur = &head;
 
@@ -3843,17 +3847,17 @@ static Type *struct_decl(Type *ty, int alt_align) {
     if (mem->alt_align)
       if (mem->alt_align > mem->ty->align ||
         (mem->ty->kind != TY_STRUCT && mem->ty->kind != TY_UNION))
-        bits = align_to(bits, mem->alt_align * 8);
+        bits = align_to64(bits, mem->alt_align * 8);
 
     if (mem->is_bitfield) {
       if (mem->bit_width == 0) {
-        bits = align_to(bits, mem->ty->size * 8);
+        bits = align_to64(bits, mem->ty->size * 8);
         continue;
       }
       int sz = mem->ty->size;
       if (!ty->is_packed)
         if (bits / (sz * 8) != (bits + mem->bit_width - 1) / (sz * 8))
-          bits = align_to(bits, sz * 8);
+          bits = align_to64(bits, sz * 8);
 
       mem->offset = align_down(bits / 8, sz);
       mem->bit_offset = bits % (sz * 8);
@@ -3861,9 +3865,9 @@ static Type *struct_decl(Type *ty, int alt_align) {
       continue;
     }
     if (ty->is_packed)
-      bits = align_to(bits, 8);
+      bits = align_to64(bits, 8);
     else
-      bits = align_to(bits, mem->ty->align * 8);
+      bits = align_to64(bits, mem->ty->align * 8);
 
     mem->offset = bits / 8;
     bits += mem->ty->size * 8;
@@ -3875,9 +3879,9 @@ static Type *struct_decl(Type *ty, int alt_align) {
   if (alt_align)
     ty->align = alt_align;
   if (!alt_align && ty->is_packed)
-    ty->size = align_to(bits, 8) / 8;
+    ty->size = align_to64(bits, 8) / 8;
   else
-    ty->size = align_to(bits, ty->align * 8) / 8;
+    ty->size = align_to64(bits, ty->align * 8) / 8;
   return ty;
 }
 
@@ -3891,9 +3895,9 @@ static Type *union_decl(Type *ty, int alt_align) {
         alt_align = MAX(alt_align, mem->ty->align);
       alt_align = MAX(alt_align, mem->alt_align);
     }
-    int sz;
+    int64_t sz;
     if (mem->is_bitfield)
-      sz = align_to(mem->bit_width, 8) / 8;
+      sz = align_to64(mem->bit_width, 8) / 8;
     else
       sz = mem->ty->size;
     ty->size = MAX(ty->size, sz);
@@ -3904,7 +3908,7 @@ static Type *union_decl(Type *ty, int alt_align) {
 
   if (alt_align)
     ty->align = alt_align;
-  ty->size = align_to(ty->size, ty->align);
+  ty->size = align_to64(ty->size, ty->align);
   return ty;
 }
 
-- 
2.43.0


From cb5cda342c632f986ec96fef68699cfccea2c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 19/20] fix: promote the controlling expression of a switch

Labels are converted to the promoted type, so a narrow unsigned operand
must not make negative labels and ranges unsigned.
---
 parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.c b/parse.c
index e4759a6..567ccf9 100644
--- a/parse.c
+++ b/parse.c
@@ -2533,6 +2533,8 @@ static Node *stmt(Token **rest, Token *tok, Token *label_list) {
     add_type(node->cond);
     if (!is_integer(node->cond->ty))
       error_tok(tok, "controlling expression not integer");
+    node->cond = new_unary(ND_POS, node->cond, tok);
+    add_type(node->cond);
 
     JumpContext ctx = {.next = jump_ctx, .switch_node = node};
     jump_ctx = &ctx;
-- 
2.43.0


From 47b9450ec012f266794b250cfd593d13cb7e5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 20/20] fix: escape quotes and backslashes in file names

__FILE__, __BASE_FILE__, line markers and .file directives spliced the
name between quotes as it is.
---
 codegen.c    |  2 +-
 main.c       |  2 +-
 preprocess.c |  4 ++--
 slimcc.h     |  1 +
 strings.c    | 12 ++++++++++++
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index 4fe1a2c..c381011 100644
--- a/codegen.c
+++ b/codegen.c
@@ -4283,7 +4283,7 @@ int codegen(Obj *prog, FILE *out) {
   if (opt_g) {
     File **files = get_input_files();
     for (int i = 0; files[i]; i++)
-      Printftn(".file %d \"%s\"", files[i]->file_no, files[i]->name);
+      Printftn(".file %d \"%s\"", files[i]->file_no, escape_string(files[i]->name));
   }
 
   for (Obj *var = prog; var; var = var->next) {
diff --git a/main.c b/main.c
index 8bfae0a..df60fc7 100644
--- a/main.c
+++ b/main.c
@@ -650,7 +650,7 @@ static void print_tokens(Token *tok, char *path) {
       char *name = orig->file->name;
       if (!strcmp(name, "-"))
         name = "<stdin>";
-      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, name);
+      fprintf(out, "\n# %d \"%s\"\n", orig->line_no, escape_string(name));
     }
 
     if (line > 1 && tok->at_bol)
diff --git a/preprocess.c b/preprocess.c
index 0154c4c..bfc3c42 100644
--- a/preprocess.c
+++ b/preprocess.c
@@ -1498,7 +1498,7 @@ static Token *file_macro(Token *start) {
   Token *tok = start;
   if (tok->origin)
     tok = tok->origin;
-  tok = new_str_token(tok->file->display_file->name, tok);
+  tok = new_str_token(escape_string(tok->file->display_file->name), tok);
   tok->next = start->next;
   return tok;
 }
@@ -1540,7 +1540,7 @@ static Token *timestamp_macro(Token *start) {
 }
 
 static Token *base_file_macro(Token *start) {
-  Token *tok = new_str_token(base_file, start);
+  Token *tok = new_str_token(escape_string(base_file), start);
   tok->next = start->next;
   return tok;
 }
diff --git a/slimcc.h b/slimcc.h
index 8590058..c6e941a 100644
--- a/slimcc.h
+++ b/slimcc.h
@@ -130,6 +130,7 @@ typedef struct {
   int len;
 } StringArray;
 
+char *escape_string(char *s);
 void strarray_push(StringArray *arr, char *s);
 char *format(char *fmt, ...) FMTCHK(1,2);
 
diff --git a/strings.c b/strings.c
index 2ac4382..fe20d62 100644
--- a/strings.c
+++ b/strings.c
@@ -29,3 +29,15 @@ char *format(char *fmt, ...) {
   fclose(out);
   return buf;
 }
+
+// Escapes backslashes and double quotes so that the result can be placed
+// between double quotes in C source or assembly.
+char *escape_string(char *s) {
+  char *buf = calloc(1, strlen(s) * 2 + 1);
+  for (int i = 0, j = 0; s[i]; i++) {
+    if (s[i] == '\\' || s[i] == '"')
+      buf[j++] = '\\';
+    buf[j++] = s[i];
+  }
+  return buf;
+}
-- 
2.43.0

