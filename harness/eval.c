// C01: contract of constant folding (eval2 / eval / eval_sign_extend / eval_ctx
// / is_const_expr) over the real text of parse.c and type.c.
#include "vf.h"
#include "parse.c"
#include "model_mem.h"
#include "types_spec.h"

// Rejection stubs: these functions do not return.
static int rejected_ok; // harness says whether a rejection is legal here
void error_tok(Token *t, char *f, ...) { CHECK(rejected_ok, "constant expression rejected although it has a value"); CUT(); }
void verror_at_tok(Token *t, char *f, va_list ap) { CHECK(rejected_ok, "constant expression rejected although it has a value"); CUT(); }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error reached for a well-formed expression"); CUT(); }

// ---- ghost sub-expressions ------------------------------------------------
// An arbitrary sub-expression C_i is characterised by its type, whether it is
// an integer constant, and its value; this is exactly what the contract of
// eval2 promises about it.
typedef struct { Node node; int64_t val; bool cst; Node sub; } Child;
static Child A, B, C3;
static bool g_recover;

static bool is_child(Node *n) { return n == &A.node || n == &B.node || n == &C3.node; }
static Child *child_of(Node *n) { return n == &A.node ? &A : n == &B.node ? &B : &C3; }

static Node R;           // expression under evaluation
static EvalContext RC;   // its evaluation context
static int64_t g_expect; // value C prescribes for R
static bool g_const;     // R is an integer constant expression

// Contract of eval2.  The recursive calls made while evaluating R are checked
// against PRE and replaced by POST (goto-instrument the 'split' preparation).
#ifndef VF_NATIVE
static bool PRE_eval2(Node *n, EvalContext *c) {
  return is_child(n) && c != 0;
}
#ifndef VF_DATA
// POST: a constant sub-expression yields its value and leaves the flag alone,
// a non-constant one sets the flag and yields anything; nothing else changes.
static int64_t eval2(Node *node, EvalContext *ctx) {
  CHECK(PRE_eval2(node, ctx), "eval2 called within its contract");
  CHECK(eval_recover != 0 && __CPROVER_w_ok(eval_recover, sizeof(bool)), "failure flag valid");
  ASSUME(PRE_eval2(node, ctx) && eval_recover);
  Child *k = child_of(node); bool refuse = 0; int64_t any;
  if (*eval_recover) return any;
  if (ctx->kind != EV_CONST) { bool nd; refuse = nd; } // not a label/aggregate: value or refusal
  if (!k->cst || refuse) { *eval_recover = true; return any; }
  return k->val;
}
#endif
#endif

static Type *T_(const char *n, int ix) {
  switch (ix) {
  case 0: return ty_int; case 1: return ty_uint; case 2: return ty_long; case 3: return ty_ulong;
  case 4: return ty_llong; case 5: return ty_ullong; case 6: return ty_bool; case 7: return ty_char;
  case 8: return ty_uchar; case 9: return ty_short; case 10: return ty_ushort; case 11: return ty_pchar;
  }
  CUT(); return 0;
}
#define IN_TYPE(name, lo, hi) IN_RANGE(int, name##_t, lo, hi); Type *name = T_(#name, name##_t)

static Token TK;
static void mk_child(Child *c, Type *ty, int64_t v, bool cst) {
  c->node.ty = ty; c->node.tok = &TK; c->val = v; c->cst = cst;
#ifdef VF_NATIVE
  c->node.lhs = c->node.rhs = 0;
  if (cst) { c->node.kind = ND_NUM; c->node.val = v; }
  else { c->sub.kind = ND_NULL_EXPR; c->sub.ty = ty; c->sub.tok = &TK; c->node.kind = ND_FUNCALL; c->node.lhs = &c->sub; }
#else
  NodeKind k; c->node.kind = k; // any kind except the ones eval2 looks through structurally
  ASSUME(k != ND_VAR && k != ND_ADDR && k != ND_DEREF && k != ND_MEMBER && k != ND_LABEL_VAL);
#endif
}

static void init(void) {
  eval_recover = &g_recover; g_recover = false; rejected_ok = 0;
  ty_intptr_t = ty_ptrdiff_t = ty_long; ty_size_t = ty_ulong;
  ty_first_64bit_int = ty_long; ty_first_64bit_uint = ty_ulong;
  R = (Node){0}; R.tok = &TK; RC = (EvalContext){.kind = EV_CONST};
}

static int64_t run(void) {
#ifdef VF_DATA
  return eval2(&R, &RC);
#else
  return BODY(eval2)(&R, &RC);
#endif
}

static void check(int64_t r) {
  if (g_const) {
    CHECK(!g_recover, "constant expression folded, not refused");
    CHECK(r == g_expect, "folded value equals the C value");
  } else
    CHECK(g_recover, "non-constant expression refused, never folded");
  CHECK(eval_recover == &g_recover, "evaluation mode restored");
}

// ---- arithmetic, bitwise: operands already converted to the result type ----
void h_arith(void) {
  init();
  IN_RANGE(int, op, 0, 5);
  IN_TYPE(ty, 0, 5);
#ifdef VF_OP
  ASSUME(op == VF_OP); op = VF_OP;
#endif
  IN(int64_t, a); IN(int64_t, b); IN_BOOL(ca); IN_BOOL(cb);
#ifdef VF_CONSTS
  ASSUME(ca && cb); ca = cb = true;
#else
  if (op == 2) ASSUME(!(ca && cb));
#endif
  ASSUME(normalized(ty, a) && normalized(ty, b));
  mk_child(&A, ty, a, ca); mk_child(&B, ty, b, cb);
  R.ty = ty; R.lhs = &A.node; R.rhs = &B.node;
  switch (op) {
  case 0: R.kind = ND_ADD; g_expect = norm(ty, (uint64_t)a + b); break;
  case 1: R.kind = ND_SUB; g_expect = norm(ty, (uint64_t)a - b); break;
  case 2: R.kind = ND_MUL; g_expect = norm(ty, a * b); break;
  case 3: R.kind = ND_BITAND; g_expect = a & b; break;
  case 4: R.kind = ND_BITOR; g_expect = a | b; break;
  case 5: R.kind = ND_BITXOR; g_expect = a ^ b; break;
  }
  g_const = ca && cb;
  int64_t r = run();
  check(r);
  if (g_const) CHECK(normalized(ty, r), "result is a value of the result type");
  if (op == 2 || g_const) REACH("evaluated");
#ifndef VF_CONSTS
  if (!ca) REACH("non-constant operand");
#endif
}

void h_divmod(void) {
  init();
  IN_RANGE(int, op, 0, 1);
  IN_TYPE(ty, 0, 5);
#ifdef VF_OP
  ASSUME(op == VF_OP); op = VF_OP;
#endif
  IN(int64_t, a); IN(int64_t, b); IN_BOOL(ca); IN_BOOL(cb);
#ifdef VF_TYIX
  ASSUME(ty_t == VF_TYIX); ty = T_("", VF_TYIX);
#endif
#ifdef VF_CONSTS
  ASSUME(ca && cb && b != 0); ca = cb = true;
#else
  ASSUME(!(ca && cb) || b == 0);
#endif
  ASSUME(normalized(ty, a) && normalized(ty, b));
  mk_child(&A, ty, a, ca); mk_child(&B, ty, b, cb);
  R.ty = ty; R.lhs = &A.node; R.rhs = &B.node; R.kind = op ? ND_MOD : ND_DIV;
  bool ovf = !ty->is_unsigned && b == -1 && (ty->size == 8 ? a == INT64_MIN : a == INT32_MIN);
  ASSUME(!ovf); // undefined in C
  g_const = ca && cb && b != 0;
  int64_t r = run();
  if (g_const) {
    CHECK(!g_recover, "constant quotient folded, not refused");
    if (ty->is_unsigned) {
      if (op) g_expect = (uint64_t)a % b; else g_expect = (uint64_t)a / b;
    } else {
      if (op) g_expect = a % b; else g_expect = a / b;
    }
    CHECK(r == g_expect, "folded quotient or remainder equals the C value");
#ifdef VF_CONSTS
    REACH("folded");
#endif
  } else {
    CHECK(g_recover, "division by zero or by a non-constant refused, never folded");
#ifndef VF_CONSTS
    if (ca && cb) REACH("division by zero");
#endif
  }
}

void h_shift(void) {
  init();
  IN_RANGE(int, op, 0, 2);
  IN_TYPE(ty, 0, 5); IN_TYPE(rty, 0, 5);
  IN(int64_t, a); IN(int64_t, b); IN_BOOL(ca); IN_BOOL(cb);
  ASSUME(normalized(ty, a) && normalized(rty, b));
  ASSUME(!cb || (b >= 0 && b < ty->size * 8)); // other counts are undefined in C
  mk_child(&A, ty, a, ca); mk_child(&B, rty, b, cb);
  R.ty = ty; R.lhs = &A.node; R.rhs = &B.node;
  g_const = ca && cb;
  if (op == 0) { R.kind = ND_SHL; if (g_const) g_expect = norm(ty, (uint64_t)a << b); }
  else if (op == 1) { R.kind = ND_SHR; ASSUME(ty->is_unsigned); if (g_const) g_expect = (int64_t)((uint64_t)a >> b); }
  else { R.kind = ND_SAR; ASSUME(!ty->is_unsigned); if (g_const) g_expect = a >> b; }
  check(run());
  if (op == 0 && g_const) REACH("shl"); if (op == 1 && g_const) REACH("shr"); if (op == 2 && g_const) REACH("sar");
}

void h_cmp(void) {
  init();
  IN_RANGE(int, op, 0, 5);
  IN_TYPE(ty, 0, 5);
  IN(int64_t, a); IN(int64_t, b); IN_BOOL(ca); IN_BOOL(cb);
  ASSUME(normalized(ty, a) && normalized(ty, b));
  mk_child(&A, ty, a, ca); mk_child(&B, ty, b, cb);
  R.ty = ty_int; R.lhs = &A.node; R.rhs = &B.node;
  bool lt = ty->is_unsigned ? (uint64_t)a < (uint64_t)b : a < b;
  switch (op) {
  case 0: R.kind = ND_EQ; g_expect = a == b; break;
  case 1: R.kind = ND_NE; g_expect = a != b; break;
  case 2: R.kind = ND_LT; g_expect = lt; break;
  case 3: R.kind = ND_LE; g_expect = lt || a == b; break;
  case 4: R.kind = ND_GT; g_expect = !lt && a != b; break;
  case 5: R.kind = ND_GE; g_expect = !lt; break;
  }
  g_const = ca && cb;
  check(run());
  if (g_const) REACH("folded comparison");
}

void h_unary(void) {
  init();
  IN_RANGE(int, op, 0, 3);
  IN_TYPE(ty, 0, 11);
  IN(int64_t, a); IN_BOOL(ca);
  ASSUME(normalized(ty, a));
  mk_child(&A, ty, a, ca); R.lhs = &A.node; R.ty = ty;
  switch (op) {
  case 0: R.kind = ND_POS; ASSUME(ty_t <= 5); g_expect = a; break;
  case 1: R.kind = ND_NEG; ASSUME(ty_t <= 5); g_expect = norm(ty, 0 - (uint64_t)a); break;
  case 2: R.kind = ND_BITNOT; ASSUME(ty_t <= 5); g_expect = norm(ty, ~(uint64_t)a); break;
  case 3: R.kind = ND_NOT; R.ty = ty_int; g_expect = a == 0; break;
  }
  g_const = ca;
  check(run());
  if (g_const && op == 3) REACH("not"); if (g_const && op == 2) REACH("bitnot");
}

void h_logic(void) {
  init();
  IN_RANGE(int, op, 0, 3);
#ifdef VF_OP
  ASSUME(op == VF_OP); op = VF_OP;
#endif
  IN_TYPE(ta, 0, 11); IN_TYPE(tb, 0, 11); IN_TYPE(tc, 0, 11);
  IN(int64_t, a); IN(int64_t, b); IN(int64_t, c); IN_BOOL(ca); IN_BOOL(cb); IN_BOOL(cc);
  ASSUME(normalized(ta, a) && normalized(tb, b) && normalized(tc, c));
  mk_child(&A, ta, a, ca); mk_child(&B, tb, b, cb); mk_child(&C3, tc, c, cc);
  R.ty = ty_int; R.lhs = &A.node; R.rhs = &B.node;
  switch (op) {
  case 0: R.kind = ND_LOGAND; g_const = ca && (a == 0 || cb); g_expect = a != 0 && b != 0; break;
  case 1: R.kind = ND_LOGOR; g_const = ca && (a != 0 || cb); g_expect = a != 0 || b != 0; break;
  case 2: R.kind = ND_COND; R.lhs = R.rhs = 0; R.cond = &A.node; R.then = &B.node; R.els = &C3.node;
    ASSUME(tb == tc); R.ty = tb;
    g_const = ca && (a ? cb : cc); g_expect = a ? b : c; break;
  case 3: R.kind = ND_COMMA; R.ty = tb; ASSUME(A.node.kind != ND_VAR); g_const = ca && cb; g_expect = b; break;
  }
  check(run());
  if (g_const && (!cb || !cc || op == 3)) REACH("unselected operand not evaluated");
}

void h_cast(void) {
  init();
  IN_TYPE(to, 0, 11); IN_TYPE(from, 0, 11);
  IN(int64_t, a); IN_BOOL(ca);
  ASSUME(normalized(from, a));
  mk_child(&A, from, a, ca);
  R.kind = ND_CAST; R.ty = to; R.lhs = &A.node;
  g_expect = to->kind == TY_BOOL ? a != 0 : norm(to, a);
  g_const = ca;
  check(run());
  if (g_const && to_t == 6) REACH("to bool"); if (g_const && to_t == 7) REACH("to char");
}

void h_num(void) {
  init();
  IN_TYPE(ty, 0, 11); IN(int64_t, a);
  ASSUME(normalized(ty, a));
  R.kind = ND_NUM; R.ty = ty; R.val = a; g_expect = a; g_const = true;
  check(run());
  REACH("num");
}

// The failure flag is sticky: once a sub-expression was refused nothing is
// evaluated any more and the refusal is never forgotten.
void h_sticky(void) {
  init();
  IN_RANGE(int, k, 0, 56); IN_TYPE(ty, 0, 11);
  R.kind = k; R.ty = ty; g_recover = true;
#ifdef VF_NATIVE
  mk_child(&A, ty, 0, 0);
#endif
  run();
  CHECK(g_recover, "refusal is sticky");
  REACH("sticky");
}

// eval_sign_extend against the mathematical conversion.
void h_sign_extend(void) {
  init();
  IN_TYPE(ty, 0, 11); IN(int64_t, v);
  int64_t r = eval_sign_extend(ty, v);
  CHECK(r == norm(ty, v), "eval_sign_extend converts modulo the width");
  REACH("sx");
}

// is_const_expr / eval_ctx / const_expr wrappers around eval2's contract.
void h_is_const(void) {
  init();
  IN_TYPE(ty, 0, 11); IN(int64_t, a); IN_BOOL(ca);
  ASSUME(normalized(ty, a));
  mk_child(&A, ty, a, ca);
  IN_RANGE(int, mode, 0, 2);
  bool outer = false; eval_recover = mode == 1 ? 0 : &outer;
  bool *prev = eval_recover;
  int64_t v = 77; bool ok;
  if (mode == 2) { EvalContext cc = {.kind = EV_CONST}; ok = eval_ctx(&A.node, &cc, &v); }
  else ok = is_const_expr(&A.node, &v);
  CHECK(ok == ca, "constantness reported exactly");
  if (ok) CHECK(v == a, "value reported");
  CHECK(eval_recover == prev && !outer, "enclosing evaluation undisturbed");
  if (ok) REACH("constant"); else REACH("not constant");
}

// ---- reading constant objects (constexpr / static const data) --------------
#ifdef VF_DATA
static char g_data[24];
static Obj V; static Node NV, NM, NM2; static Member M1, M2; static Type SY, SY2, AY; static Relocation REL;
static Node NADD, NIDX, NDR;
static uint64_t g_bytes(int o, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t)g_data[o + i] << (8 * i);
  return v;
}
// shape 0: scalar object; 1: member of a struct object (any offset);
// 2: member of a member; 3: element of a member array
void h_data(void) {
  init();
  opt_optimize = true;
  IN_TYPE(ty, 0, 11);
#ifdef VF_TYIX
  ASSUME(ty_t == VF_TYIX); ty = T_("", VF_TYIX);
#endif
  IN_RANGE(int, off1, 0, 15); IN_RANGE(int, off2, 0, 15); IN_RANGE(int, shape, 0, 2);
  IN_BOOL(is_cexpr); IN_BOOL(is_static); IN_BOOL(is_vol); IN_BOOL(bf); IN_BOOL(weak); IN_BOOL(cnst); IN_BOOL(hasrel); IN_RANGE(int, relofs, 0, 23);
  IN_RANGE(int, bw, 1, 64); IN_RANGE(int, bo, 0, 63); IN_RANGE(int, objsz, 0, 24);
#ifdef VF_SHAPE
  ASSUME(shape == VF_SHAPE); shape = VF_SHAPE;
#endif
#ifdef VF_BF
  ASSUME(bf == VF_BF); bf = VF_BF;
#if VF_BF
  ASSUME(off1 == 5 && off2 == 2); off1 = 5; off2 = 2;
#endif
#endif
  for (int i = 0; i < 24; i++) SET_IN(data, g_data[i]);
  V.constexpr_data = is_cexpr ? &g_data[0] : NULL;
  V.init_data = is_static ? &g_data[0] : NULL;
  V.is_weak = weak; V.name = "v";
  REL.offset = relofs; REL.next = 0; V.rel = hasrel ? &REL : 0;
  NV.kind = ND_VAR; NV.var = &V; NV.tok = &TK;
  SY.kind = TY_STRUCT; SY.size = objsz; SY.is_volatile = is_vol; SY.is_const = cnst;
  SY2.kind = TY_STRUCT; SY2.size = objsz;
  M1.offset = off1; M2.offset = off2;
  static Type scalar; scalar = *ty; scalar.is_volatile = is_vol; scalar.is_const = cnst;
  int ofs = 0, size = objsz;
  Node *n;
  if (shape == 0) { NV.ty = &scalar; V.ty = &scalar; n = &NV; size = ty->size; ASSUME(!bf); }
  else {
    V.ty = &SY; NV.ty = &SY;
    M1.is_bitfield = M2.is_bitfield = false;
    NM.kind = ND_MEMBER; NM.lhs = &NV; NM.member = &M1; NM.tok = &TK;
    if (shape == 1) { NM.ty = ty; n = &NM; M1.is_bitfield = bf; M1.bit_width = bw; M1.bit_offset = bo; ofs = off1; }
    else { NM.ty = &SY2; NM2.kind = ND_MEMBER; NM2.lhs = &NM; NM2.member = &M2; NM2.ty = ty; NM2.tok = &TK; n = &NM2; ofs = off1 + off2;
      M2.is_bitfield = bf; M2.bit_width = bw; M2.bit_offset = bo; }
  }
  ASSUME(!bf || bw + bo <= ty->size * 8);
  ASSUME(ty->kind != TY_BOOL || bf || (ofs + ty->size <= size && (uint8_t)g_data[ofs] <= 1));
  // Which reads are constant: inside a constexpr object, or (optimizer) inside
  // a constant, non-weak, non-volatile initialised object clear of relocations.
  bool clear = !hasrel || relofs + 8 <= ofs || ofs + ty->size <= relofs;
  bool readable = is_cexpr || (is_static && !weak && cnst && clear);
  g_const = !is_vol && readable && ofs + ty->size <= size;
  if (g_const) {
    uint64_t raw = g_bytes(ofs, ty->size);
    if (bf) {
      uint64_t f = (raw >> bo) & (bw == 64 ? ~0ULL : (1ULL << bw) - 1);
      if (!ty->is_unsigned && (f >> (bw - 1) & 1)) f |= bw == 64 ? 0 : ~0ULL << bw;
      g_expect = (int64_t)f;
    } else g_expect = norm(ty, raw);
  }
  int64_t r = eval2(n, &RC);
  if (g_const) {
    CHECK(!g_recover, "constant object read accepted");
    CHECK(r == g_expect, "constant object read yields the stored value");
    REACH("read");
#if VF_SHAPE && !defined(VF_BF)
    if (bf) REACH("bit-field");
#endif
  } else {
    CHECK(g_recover, "read of a non-constant, volatile or out-of-range object refused");
    REACH("refused");
  }
}
#endif
