// C05/C20: parser and typing of one operator applied to arbitrary operands.
// primary() is replaced by its contract (it consumes a token and yields an
// operand of some type); the tree the real parser and add_type build from the
// operator's tokens is evaluated with C semantics node by node and compared,
// in type and value, with what the standard says about the operator.
#include "vf.h"
#include "parse.c"
#include "model_mem.h"
#include "types_spec.h"
void error_tok(Token *t, char *f, ...) { CHECK(0, "well-formed expression rejected"); CUT(); }
void verror_at_tok(Token *t, char *f, va_list ap) { CHECK(0, "well-formed expression rejected"); CUT(); }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error for a well-formed expression"); CUT(); }
#include "tok_model.h"
#define NOPS 4
enum { LF_RV, LF_VAR, LF_BF };   // opaque value, variable, bit-field member
typedef struct { int form; Type *ty; Member mem; Obj var; Node base; int64_t val; int width; uint64_t addr; int reads, writes; } Leaf;
static Leaf lf[NOPS];
static Obj *tmpv[8]; static int64_t tmpval[8]; static int ntmp; // temporaries the parser made
static Token TK;
static bool g_float;                                            // some operand is floating: values are not followed
char *format(char *fmt, ...) { static char nm[] = "tmp"; return nm; }

static Node *primary(Token **rest, Token *tok) {
  if (equal(tok, "(")) { Node *n = expr(&tok, tok->next); *rest = skip(tok, ")"); return n; }
  int k = tok->loc[0] - 'a';
  *rest = tok->next;
#ifndef VF_NATIVE
  if (tok->kind != TK_INT_NUM) { CHECK(0, "operand position"); CUT(); }
#endif
  Leaf *l = &lf[k];
  Node *n = arena_calloc(&node_arena, sizeof(Node)); n->tok = tok; n->ty = l->form == LF_RV ? l->ty : 0; // variables are typed by add_type
  switch (l->form) {
  case LF_RV: n->kind = ND_FUNCALL; n->val = k; break;
  case LF_VAR: n->kind = ND_VAR; n->var = &l->var; break;
  case LF_BF: n->kind = ND_MEMBER; n->member = &l->mem; n->lhs = &l->base; break;
  }
  return n;
}
// Contract of is_const_expr on operands that are not constant: literals only.
bool is_const_expr(Node *n, int64_t *val) {
  Type *ty = n->ty; Node *m = n;
  if (m->kind == ND_CAST) m = m->lhs;
  if (m->kind != ND_NUM || !ty || !is_integer(ty) || !is_integer(m->ty)) return false;
  int64_t v = m->val; if (m != n) v = ty->kind == TY_BOOL ? v != 0 : norm(ty, v);
  if (val) *val = v;
  return true;
}
bool is_const_double(Node *n, long double *v) { return false; }

// ---- C semantics of a typed tree -------------------------------------------
static bool isflt(Type *t) { return t->kind == TY_FLOAT || t->kind == TY_DOUBLE || t->kind == TY_LDOUBLE; }
static bool isint(Type *t) { return t->kind == TY_BOOL || t->kind == TY_CHAR || t->kind == TY_PCHAR || t->kind == TY_SHORT || t->kind == TY_INT || t->kind == TY_LONG || t->kind == TY_LONGLONG; }
static bool isptr(Type *t) { return t->kind == TY_PTR; }
static int64_t conv(Type *t, int64_t v) { return t->kind == TY_BOOL ? v != 0 : norm(t, v); }
#ifdef VF_NATIVE
static int64_t UF_(int op, int64_t a, int64_t b) { return op == 2 ? a * b : (uint64_t)a * 0x9e3779b97f4a7c15ull + (uint64_t)b * 31 + op; }
#else
int64_t __CPROVER_uninterpreted_tyop(int, int64_t, int64_t);
#define UF_(op, a, b) __CPROVER_uninterpreted_tyop(op, a, b)
#endif
static int64_t mulv(int64_t a, int64_t b) {
  if (a == 0 || b == 0) return 0;
  if (a == 1) return b; if (b == 1) return a;
  if (a == -1) return -(uint64_t)b; if (b == -1) return -(uint64_t)a;
  return a < b ? UF_(2, a, b) : UF_(2, b, a);
}
static int64_t divv(int op, bool uns, int64_t a, int64_t b) {
  if (b == 1) return op ? 0 : a;
  return UF_(4 + op * 2 + uns, a, b);
}
// operation in type t on values already of that type
static int64_t op_(NodeKind k, Type *t, int64_t x, int64_t y) {
  bool u = t->is_unsigned;
  switch (k) {
  case ND_ADD: return norm(t, (uint64_t)x + y);
  case ND_SUB: return norm(t, (uint64_t)x - y);
  case ND_MUL: return norm(t, mulv(x, y));
  case ND_DIV: return norm(t, divv(0, u, x, y));
  case ND_MOD: return norm(t, divv(1, u, x, y));
  case ND_BITAND: return x & y; case ND_BITOR: return x | y; case ND_BITXOR: return x ^ y;
  case ND_EQ: return x == y; case ND_NE: return x != y;
  case ND_LT: return u ? (uint64_t)x < (uint64_t)y : x < y;
  case ND_LE: return u ? (uint64_t)x <= (uint64_t)y : x <= y;
  case ND_GT: return u ? (uint64_t)x > (uint64_t)y : x > y;
  case ND_GE: return u ? (uint64_t)x >= (uint64_t)y : x >= y;
  case ND_SHL: ASSUME(y >= 0 && y < t->size * 8); return norm(t, UF_(9, x, y));
  case ND_SHR: case ND_SAR: ASSUME(y >= 0 && y < t->size * 8); return u ? norm(t, UF_(10 + (x < 0), x, y)) : UF_(x < 0 ? 12 : 10, x, y);
  }
  CHECK(0, "operator"); return 0;
}
// C11 6.3.1.1, 6.3.1.8 on LP64: (rank, unsigned); rank 1 int, 2 long, 3 long long, 4.. floating
typedef struct { int r; bool u; } CT;
static CT promo(Type *t, int width) {
  CT c = {1, false};
  if (width >= 0) { if (width > 32) { c.r = t->kind == TY_LONGLONG ? 3 : 2; c.u = t->is_unsigned; } else c.u = width == 32 && t->is_unsigned; return c; }
  if (t->kind == TY_INT || t->kind == TY_LONG || t->kind == TY_LONGLONG) { c.u = t->is_unsigned; c.r = t->kind == TY_INT ? 1 : t->kind == TY_LONG ? 2 : 3; }
  if (isflt(t)) c.r = t->kind == TY_FLOAT ? 4 : t->kind == TY_DOUBLE ? 5 : 6;
  return c;
}
static CT common(CT a, CT b) {
  if (a.r >= 4 || b.r >= 4) { CT c = {a.r > b.r ? a.r : b.r, false}; return c; }
  CT hi = a.r >= b.r ? a : b, lo = a.r >= b.r ? b : a;
  if (hi.u == lo.u || hi.u) { if (hi.r == lo.r) hi.u = hi.u || lo.u; return hi; }
  // hi signed, lo unsigned: hi can represent all of lo iff it is wider
  if (hi.r > 1 && lo.r == 1) return hi;
  hi.u = true; return hi;
}
static Type *ct_ty(CT c) {
  switch (c.r) {
  case 1: return c.u ? ty_uint : ty_int; case 2: return c.u ? ty_ulong : ty_long; case 3: return c.u ? ty_ullong : ty_llong;
  case 4: return ty_float; case 5: return ty_double; }
  return ty_ldouble;
}
static bool is_ct(Type *t, CT c) { Type *e = ct_ty(c); return t->kind == e->kind && t->is_unsigned == e->is_unsigned && t->size == e->size; }

static bool same_ty(Type *a, Type *b) { return a->kind == b->kind && a->size == b->size && (isptr(a) || isflt(a) || a->is_unsigned == b->is_unsigned); }
static int64_t bf_norm(Leaf *l, int64_t v) {
  v = conv(l->ty, v);
  if (l->form != LF_BF || l->width == 64) return v;
  uint64_t w = (uint64_t)v << (64 - l->width); return l->ty->is_unsigned ? w >> (64 - l->width) : (int64_t)w >> (64 - l->width);
}
static Leaf *leaf_of(Node *n) {
  for (int i = 0; i < NOPS; i++) if (n->kind == ND_VAR ? n->var == &lf[i].var : n->kind == ND_MEMBER && n->member == &lf[i].mem) return &lf[i];
  return 0;
}
static int64_t *tmp_of(Obj *v) {
  for (int i = 0; i < ntmp; i++) if (tmpv[i] == v) return &tmpval[i];
  CHECK(ntmp < 8, "harness bound"); tmpv[ntmp] = v; return &tmpval[ntmp++];
}
static int64_t ev(Node *n);
static int64_t store(Node *lv, int64_t v) {
  v = conv(lv->ty, v);
  if (lv->kind == ND_DEREF) { // through a pointer the parser made
    uint64_t p = ev(lv->lhs);
    for (int i = 0; i < NOPS; i++) if (lf[i].addr == p) { lf[i].writes++; return lf[i].val = bf_norm(&lf[i], v); }
    CHECK(0, "store goes to an operand"); return v;
  }
  Leaf *l = leaf_of(lv);
  if (l) { l->writes++; return l->val = bf_norm(l, v); }
  CHECK(lv->kind == ND_VAR, "store goes to an object");
  return *tmp_of(lv->var) = v;
}
static void run_stmt(Node *s) {
  for (; s; s = s->next)
    switch (s->kind) {
    case ND_EXPR_STMT: ev(s->lhs); break;
    case ND_BLOCK: run_stmt(s->body); break;
    case ND_DO: run_stmt(s->then); CHECK(ev(s->cond) == 0, "the retry loop ends when the exchange succeeded"); break;
    default: CHECK(0, "statement form"); }
}
// scaled pointer steps: ghost record used by the subscript/address units
static int64_t ev(Node *n) {
  Type *t = n->ty;
  CHECK(t != 0, "every node has a type");
  if (g_float) return 0;
  switch (n->kind) {
  case ND_FUNCALL: lf[n->val].reads++; return lf[n->val].val;
  case ND_NUM: return n->val;
  case ND_VAR: { Leaf *l = leaf_of(n); if (l) { l->reads++; return t->kind == TY_ARRAY || t->kind == TY_FUNC ? (int64_t)l->addr : l->val; } return *tmp_of(n->var); }
  case ND_MEMBER: { Leaf *l = leaf_of(n); CHECK(l != 0, "member"); l->reads++; return l->val; }
  case ND_CAST: { int64_t v = ev(n->lhs); return isint(t) || isptr(t) ? conv(t, v) : v; }
  case ND_ADDR: {
    if (n->lhs->kind == ND_DEREF) return ev(n->lhs->lhs);
    Leaf *l = leaf_of(n->lhs);
    if (l) return l->addr;
    CHECK(n->lhs->kind == ND_VAR, "address of an object"); tmp_of(n->lhs->var);
    for (int i = 0; i < ntmp; i++) if (tmpv[i] == n->lhs->var) return 0x100 + i; return 0; }
  case ND_DEREF: {
    uint64_t p = ev(n->lhs);
    if (t->kind == TY_ARRAY || t->kind == TY_FUNC || t->kind == TY_VLA || t->kind == TY_STRUCT) return p;
    for (int i = 0; i < NOPS; i++) if (lf[i].addr == p) { lf[i].reads++; return lf[i].val; }
    CHECK(0, "load from an operand"); return 0; }
  case ND_CHAIN: case ND_COMMA: ev(n->lhs); return ev(n->rhs);
  case ND_STMT_EXPR: {
    Node *s = n->body; int64_t v = 0;
    for (; s; s = s->next) if (s->next || s->kind != ND_EXPR_STMT) { Node *nx = s->next; s->next = 0; run_stmt(s); s->next = nx; } else v = ev(s->lhs);
    return v; }
  case ND_CAS: {
    uint64_t p = ev(n->cas_addr), o = ev(n->cas_old); int64_t v = ev(n->cas_new);
    CHECK(o >= 0x100 && o < 0x100 + ntmp, "expected value is a temporary");
    for (int i = 0; i < NOPS; i++) if (lf[i].addr == p) { if (lf[i].val == tmpval[o - 0x100]) { lf[i].val = bf_norm(&lf[i], v); lf[i].writes++; return 1; } tmpval[o - 0x100] = lf[i].val; return 0; }
    CHECK(0, "exchange works on the operand"); return 0; }
  case ND_EXCH: {
    uint64_t p = ev(n->lhs); int64_t v = ev(n->rhs);
    for (int i = 0; i < NOPS; i++) if (lf[i].addr == p) { int64_t o = lf[i].val; lf[i].val = bf_norm(&lf[i], v); lf[i].writes++; return o; }
    CHECK(0, "exchange works on the operand"); return 0; }
  case ND_ASSIGN: { int64_t v = ev(n->rhs); CHECK(isptr(t) || isptr(n->rhs->ty) || same_ty(n->rhs->ty, n->lhs->ty), "the assigned value has the type of the left operand"); return store(n->lhs, v); }
  case ND_ARITH_ASSIGN: case ND_POST_INCDEC: { // contract of the code generator for these nodes
    add_type(n->rhs);
    int64_t old = ev(n->lhs), y = ev(n->rhs); NodeKind k = n->kind == ND_POST_INCDEC ? ND_ADD : n->arith_kind;
    Leaf *l = leaf_of(n->lhs); Type *lt = n->lhs->ty;
    if (isptr(lt)) { CHECK(n->rhs->ty->size == 8, "byte offsets are 64 bits wide"); store(n->lhs, k == ND_ADD ? (uint64_t)old + y : (uint64_t)old - y); }
    else {
      CT c = promo(lt, l && l->form == LF_BF ? l->width : -1);
      if (k != ND_SHL && k != ND_SHR && k != ND_SAR) c = common(c, promo(n->rhs->ty, n->rhs->kind == ND_MEMBER && leaf_of(n->rhs) ? leaf_of(n->rhs)->width : -1));
      Type *ct = ct_ty(c);
      if (k == ND_SHR) CHECK(ct->is_unsigned || conv(ct, old) >= 0, "logical shift of a promoted signed operand");
      if (k == ND_SAR) CHECK(!ct->is_unsigned || conv(ct, old) >= 0, "arithmetic shift of a promoted unsigned operand");
      store(n->lhs, op_(k, ct, conv(ct, old), k == ND_SHL || k == ND_SHR || k == ND_SAR ? y : conv(ct, y)));
    }
    return n->kind == ND_POST_INCDEC ? old : l ? l->val : *tmp_of(n->lhs->var); }
  case ND_NOT: return !ev(n->lhs);
  case ND_NEG: return norm(t, -(uint64_t)ev(n->lhs));
  case ND_POS: return ev(n->lhs);
  case ND_BITNOT: return ~ev(n->lhs);
  case ND_LOGAND: { bool x = ev(n->lhs) != 0; return x && ev(n->rhs) != 0; }
  case ND_LOGOR: { bool x = ev(n->lhs) != 0; return x || ev(n->rhs) != 0; }
  case ND_COND: return ev(n->cond) ? ev(n->then) : ev(n->els);
  default: break;
  }
  int64_t x = ev(n->lhs), y = ev(n->rhs); Type *lt = n->lhs->ty, *rt = n->rhs->ty;
  switch (n->kind) {
  case ND_ADD: case ND_SUB:
    if (isptr(t)) { // address arithmetic: byte offsets
      CHECK(isint(lt) != isint(rt) && (n->kind == ND_ADD || isint(rt)), "one operand of a pointer sum is the byte offset");
      CHECK((isint(lt) ? lt : rt)->size == 8, "byte offsets are 64 bits wide");
      return n->kind == ND_ADD ? (uint64_t)x + y : (uint64_t)x - y; }
  case ND_MUL: case ND_DIV: case ND_MOD: case ND_BITAND: case ND_BITOR: case ND_BITXOR:
    CHECK(same_ty(lt, t) && same_ty(rt, t), "both operands are converted to the result type"); return op_(n->kind, t, x, y);
  case ND_EQ: case ND_NE: case ND_LT: case ND_LE: case ND_GT: case ND_GE:
    CHECK((isptr(lt) || isptr(rt)) ? lt->size == 8 && rt->size == 8 : same_ty(lt, rt), "compared operands have one type"); return op_(n->kind, lt, x, y);
  case ND_SHR: if (t->is_unsigned || x >= 0) return op_(ND_SHR, t, x, y); CHECK(0, "logical shift of a negative value"); return 0;
  case ND_SAR: if (!t->is_unsigned || x >= 0) return op_(ND_SAR, t, x, y); CHECK(0, "arithmetic shift of an unsigned value"); return 0;
  case ND_SHL: CHECK(same_ty(lt, t), "shift keeps the type of its left operand"); return op_(ND_SHL, t, x, y);
  default: CHECK(0, "expression form"); return 0;
  }
}

// ---- operands -----------------------------------------------------------------
static Type *T_(int ix) {
  switch (ix) {
  case 0: return ty_int; case 1: return ty_uint; case 2: return ty_long; case 3: return ty_ulong; case 4: return ty_llong; case 5: return ty_ullong;
  case 6: return ty_bool; case 7: return ty_char; case 8: return ty_uchar; case 9: return ty_short; case 10: return ty_ushort; case 11: return ty_pchar;
  case 12: return ty_float; case 13: return ty_double; case 14: return ty_ldouble;
  }
  CUT(); return 0;
}
static Type st = {TY_STRUCT, 16, 8}; static Obj stv;
static void leaf(int k, int form, Type *ty, int64_t v, int w) {
  Leaf *l = &lf[k]; l->form = form; l->ty = ty; l->width = -1; l->addr = 0x1000 + k * 64;
  l->var.ty = ty; l->var.is_local = true; l->val = v;
  if (form == LF_BF) {
    ASSUME(isint(ty) && w >= 1 && w <= (ty->kind == TY_BOOL ? 1 : ty->size * 8));
    l->width = w; l->mem.is_bitfield = true; l->mem.bit_width = w; l->mem.ty = ty; l->base.kind = ND_VAR; l->base.var = &stv; l->base.ty = &st; stv.ty = &st; stv.is_local = true;
    ASSUME(bf_norm(l, v) == v);
  } else if (isint(ty)) ASSUME(normalized(ty, v));
  if (isflt(ty)) g_float = true;
}
static Scope sc0;
static void init(void) {
#ifdef VF_NATIVE
  arena_on(&ast_arena); arena_on(&node_arena);
  scope = &sc0;
#else
  scope = &sc0;
#endif
  ty_intptr_t = ty_ptrdiff_t = ty_long; ty_size_t = ty_ulong; ty_first_64bit_int = ty_long; ty_first_64bit_uint = ty_ulong;
  IN_BOOL(opt); opt_optimize = opt;
#ifdef OPT
  opt_optimize = OPT;
#endif
  memset(lf, 0, sizeof lf); ntmp = 0; g_float = false;
}
static Node *vf_parse(const char *s) {
  int64_t lv[5] = {0}; Type *lt[5] = {0};
  Token *t = mk_tokens(s, lv, lt), *rest = 0;
  Node *n = expr(&rest, t);
  CHECK(rest->kind == TK_EOF, "the whole expression is consumed");
  add_type(n);
  return n;
}
#define IN_LEAF(k, f, lo, hi) \
  IN_RANGE(int, t##k, lo, hi); IN(int64_t, v##k); IN_RANGE(int, w##k, 1, 64); \
  if ((lo) == (hi)) t##k = lo; \
  leaf(k, f, T_(t##k), v##k, w##k)
static CT pr(int k) { return promo(lf[k].ty, lf[k].width); }
static int64_t lval(int k) { return lf[k].val; }
static void once(int k) { CHECK(g_float || lf[k].reads == 1, "each operand is evaluated once"); }

#ifndef FA
#define FA LF_RV
#endif
#ifndef FB
#define FB LF_RV
#endif
#ifndef HI
#define HI 14
#endif
#ifndef TOKS
#define TOKS "a + b"
#define KIND ND_ADD
#endif
#ifdef TA
#define LOA TA
#define HIA TA
#endif
#ifndef LOA
#define LOA 0
#define HIA HI
#endif
// a op b, both arithmetic
void h_bin(void) {
  init(); IN_LEAF(0, FA, LOA, HIA); IN_LEAF(1, FB, 0, HI);
  NodeKind k = KIND; bool intonly = k == ND_MOD || k == ND_BITAND || k == ND_BITOR || k == ND_BITXOR || k == ND_SHL || k == ND_SHR;
  if (intonly) ASSUME(!g_float);
  bool cmp = k == ND_EQ || k == ND_NE || k == ND_LT || k == ND_LE || k == ND_GT || k == ND_GE, sh = k == ND_SHL || k == ND_SHR;
  CT c = sh ? pr(0) : common(pr(0), pr(1)); Type *ct = ct_ty(c);
  int64_t a = lval(0), b = lval(1);
  Node *n = vf_parse(TOKS);
  if (cmp) CHECK(same_ty(n->ty, ty_int), "comparisons have type int");
  else CHECK(is_ct(n->ty, c), "the result has the type C prescribes");
  if (g_float) {
    CHECK(same_ty(n->lhs->ty, ct) && same_ty(n->rhs->ty, ct), "floating operands are converted to the common type");
  } else {
    int64_t want = op_(k, ct, conv(ct, a), sh ? b : conv(ct, b));
    CHECK(ev(n) == want, "the typed tree has the value C prescribes");
    once(0); once(1);
  }
  REACH("bin");
}
// unary + - ~ !
void h_un(void) {
  init(); IN_LEAF(0, FA, LOA, HIA);
  if (KIND == ND_BITNOT) ASSUME(!g_float);
  CT c = pr(0); Type *ct = ct_ty(c); int64_t a = conv(ct, lval(0)), want = KIND == ND_NEG ? norm(ct, -(uint64_t)a) : KIND == ND_BITNOT ? ~a : KIND == ND_NOT ? !a : a;
  Node *n = vf_parse(TOKS);
  if (KIND == ND_NOT) CHECK(same_ty(n->ty, ty_int), "! has type int"); else CHECK(is_ct(n->ty, c), "the result has the promoted type");
  CHECK(g_float || ev(n) == want, "the typed tree has the value C prescribes"); once(0);
  REACH("un");
}
// a && b, a || b
void h_log(void) {
  init(); IN_LEAF(0, FA, 0, HI); IN_LEAF(1, FB, 0, HI);
  bool a = lval(0) != 0, b = lval(1) != 0, want = KIND == ND_LOGAND ? a && b : a || b;
  Node *n = vf_parse(TOKS); CHECK(same_ty(n->ty, ty_int), "logical operators have type int");
  CHECK(g_float || ev(n) == want, "the typed tree has the value C prescribes");
  CHECK(g_float || lf[1].reads == (KIND == ND_LOGAND ? a : !a), "the right operand is evaluated exactly when C says");
  REACH("log");
}
// c ? a : b and c ?: b
void h_cond(void) {
  init(); IN_LEAF(2, LF_RV, 0, 11); IN_LEAF(0, FA, LOA, HIA); IN_LEAF(1, FB, 0, HI);
  bool shrt = KIND == ND_CHAIN;
  CT c = common(shrt ? pr(2) : pr(0), pr(1)); Type *ct = ct_ty(c); int64_t cv = lval(2), want = conv(ct, cv ? (shrt ? cv : lval(0)) : lval(1));
  Node *n = vf_parse(TOKS);
  CHECK(is_ct(n->ty, c), "?: has the common type of its branches");
  CHECK(g_float || ev(n) == want, "the typed tree has the value C prescribes");
  CHECK(g_float || lf[2].reads == 1, "the condition is evaluated once");
  CHECK(g_float || (lf[1].reads == !cv && (shrt || lf[0].reads == (cv != 0))), "exactly one branch is evaluated");
  REACH("cond");
}
// a = b, a op= b, ++a, a++ on variables and bit-fields
#ifndef ATOM
#define ATOM 0
#endif
#ifndef OLD
#define OLD 0
#endif
#ifndef POST
#define POST 0
#endif
#ifndef KIND
#define KIND ND_ADD
#endif
void h_asg(void) {
  init(); IN_LEAF(0, FA, LOA, HIA); NodeKind k = KIND; bool inc = k == ND_POST_INCDEC;
  int64_t b = 1; if (!inc) { IN_LEAF(1, FB, 0, 11); b = lval(1); }
#if ATOM
  Type at = *lf[0].ty; at.is_atomic = true; at.origin = lf[0].ty; lf[0].ty = lf[0].var.ty = &at;
#endif
  int64_t a = lval(0), want; bool sh = k == ND_SHL || k == ND_SHR;
  if (k == ND_ASSIGN) want = b;
  else {
    CT c = inc ? common(pr(0), (CT){1, false}) : sh ? pr(0) : common(pr(0), pr(1)); Type *ct = ct_ty(c);
    int64_t y = inc ? POST : sh ? b : conv(ct, b); if (!inc && (k == ND_DIV || k == ND_MOD)) ASSUME(y != 0);
    want = op_(inc ? ND_ADD : k, ct, conv(ct, a), y);
  }
  want = bf_norm(&lf[0], want);
  Node *n = vf_parse(TOKS); int64_t r = ev(n);
  CHECK(same_ty(n->ty, lf[0].ty), "an assignment has the type of its left operand");
  CHECK(lf[0].val == want, "the object receives the value C prescribes");
  CHECK(r == (inc && OLD ? a : want), "the value of the assignment is the one C prescribes");
  CHECK(lf[0].writes == 1, "the object is written once"); if (!inc) once(1);
  REACH("asg");
}

// ---- C20: address arithmetic ----------------------------------------------------
enum { P_PTR, P_VLA, P_ARR, P_FN };
#ifndef PF
#define PF P_PTR
#endif
static Type el, pty, qty, arr; static Obj vlasz; static int64_t esz;
static void ptr_leaf(int k, int form, Type *t, int64_t v) {
  *t = (Type){TY_PTR, 8, 8}; t->is_unsigned = true; t->base = &el;
  if (PF == P_ARR) { *t = (Type){TY_ARRAY, 8, 8}; t->base = &el; t->array_len = 7; form = LF_VAR; }
  if (PF == P_FN) { *t = (Type){TY_FUNC, 1, 1}; t->return_ty = ty_int; form = LF_VAR; }
#if ATOM
  static Type at; at = *t; at.is_atomic = true; at.origin = t; t = &at;
#endif
  leaf(k, form, t, v, -1); if (PF >= P_ARR) lf[k].val = lf[k].addr;
}
static void elem(void) {
  IN_RANGE(int64_t, s, 1, INT32_MAX); esz = s;
  el = (Type){TY_STRUCT, s, 8};
  if (PF == P_VLA) { el = (Type){TY_VLA, 8, 8}; el.vla_size = &vlasz; el.base = ty_int; vlasz.ty = ty_ulong; vlasz.is_local = true; ntmp = 1; tmpv[0] = &vlasz; tmpval[0] = s; }
  if (PF == P_FN) esz = 1;
#ifdef ESZ
  esz = el.size = ESZ; if (PF == P_VLA) { el.size = 8; tmpval[0] = ESZ; }
#endif
}
enum { A_ADD, A_RADD, A_SUB, A_DIFF, A_IDX, A_ADDR, A_ASGADD, A_ASGSUB, A_PRE, A_POST, A_CMP };
#ifdef TB
#define LOB TB
#define HIB TB
#else
#define LOB 0
#define HIB 11
#endif
#ifndef WHAT
#define WHAT A_ADD
#endif
void h_ptr(void) {
  init(); elem(); IN(int64_t, p); bool lv = WHAT >= A_ASGADD && WHAT <= A_POST;
  ptr_leaf(0, lv ? LF_VAR : LF_RV, &pty, p); p = lf[0].val;
  int64_t i = 1, q = 0;
  if (WHAT == A_DIFF || WHAT == A_CMP) { IN(int64_t, q0); ptr_leaf(1, LF_RV, &qty, q0); q = lf[1].val; }
  else if (WHAT == A_PRE || WHAT == A_POST) i = POST;
  else { IN_LEAF(1, FB, LOB, HIB); i = lval(1); }
  Node *n = vf_parse(TOKS);
  if (WHAT == A_CMP) { CHECK(same_ty(n->ty, ty_int), "comparisons have type int"); CHECK(ev(n) == op_(KIND, ty_ulong, p, q), "pointers compare as addresses"); goto end; }
  if (WHAT == A_DIFF) {
    CHECK(same_ty(n->ty, ty_long), "the difference of pointers has type ptrdiff_t");
    CHECK(ev(n) == divv(0, false, (uint64_t)p - q, esz), "pointer difference counts elements"); goto end;
  }
  uint64_t want, old, r; want = WHAT == A_SUB || WHAT == A_ASGSUB ? (uint64_t)p - mulv(i, esz) : (uint64_t)p + mulv(i, esz); old = p;
  if (WHAT == A_IDX) {
    CHECK(n->kind == ND_DEREF && n->ty->kind == el.kind && n->ty->size == el.size, "subscripting designates an element");
    CHECK((uint64_t)ev(n->lhs) == want, "subscripting designates the element at base + index * size"); goto end;
  }
  CHECK(isptr(n->ty), "address arithmetic yields a pointer");
  if (PF != P_FN) CHECK(n->ty->base == &el || n->ty->base->size == el.size, "address arithmetic keeps the pointed-to type");
  r = ev(n);
  if (WHAT == A_POST || WHAT == A_PRE || lv) { CHECK((uint64_t)lf[0].val == want, "the pointer moves by whole elements"); CHECK(lf[0].writes == 1, "the pointer is written once"); }
  CHECK((uint64_t)r == (WHAT == A_POST ? old : want), "the address moves by whole elements of the pointed-to type");
end:
  REACH("ptr");
}

// ---- C06: casts the compiler leaves out ------------------------------------------
void h_cast(void) {
  init(); opt_optimize = true;
  IN_LEAF(0, FA, LOA, HIA); IN_RANGE(int, u1, 0, 11); IN_RANGE(int, u2, 0, 11); IN_BOOL(boolean);
  Type *t1 = T_(u1), *t2 = boolean ? ty_bool : T_(u2);
  Token *rest; int64_t lv[5] = {0}; Type *lt[5] = {0}; Node *n = primary(&rest, mk_tokens("a", lv, lt)); add_type(n);
  int64_t want = conv(t2, conv(t1, lval(0)));
  Node *c = new_cast(new_cast(n, t1), t2);
  CHECK(same_ty(c->ty, t2), "a cast has the type it names");
  CHECK(ev(c) == want, "a chain of casts has the value C prescribes"); once(0);
  REACH("cast");
}

