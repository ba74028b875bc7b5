// Contract of the code generator's expression functions, over the real text of
// codegen.c, with every printed instruction executed by the ghost machine.
#ifndef CG_H
#define CG_H
#include "vf.h"
#include <inttypes.h>
#define fprintf vf_fprintf
#define snprintf vf_snprintf
#define ftell(f) 0L
#define fseek(f, o, w) ((void)0)
int vf_fprintf(FILE *f, const char *fmt, ...);
int vf_snprintf(char *d, size_t n, const char *fmt, ...);
#ifdef VF_NATIVE
#define exit vf_exit
static void vf_exit(int c) { vf_reject(); }
#endif
#include "codegen.c"
#include "model_mem.h"
#include "types_spec.h"
#include "x86.h"
#ifndef VF_NATIVE
void error_tok(Token *t, char *f, ...) { CHECK(0, "well-formed expression rejected by the code generator"); CUT(); }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error reached for a well-formed expression"); CUT(); }
#else
void error_tok(Token *t, char *f, ...) { vf_failed("well-formed expression rejected by the code generator"); }
void error_ice(char *f, int32_t l) { vf_failed("internal error reached for a well-formed expression"); }
#endif

// ---- ghost sub-expressions ---------------------------------------------------
typedef struct { Node n, in; Obj var; int64_t val; int cnt, when; int shape; Type *ity; } Child;
static Child ch[4];
static int tick;
static Node opq_in = {ND_FUNCALL}, opq_body = {ND_EXPR_STMT, .lhs = &opq_in};
static Type t_ptr = {TY_PTR, 8, 8, true}, t_base = {TY_INT, 4, 4};
enum { S_OPQ, S_NUM, S_LOC, S_GLB, S_COPQ, S_CLOC, S_CGLB };

static Type *TY_(int ix) {
  switch (ix) {
  case 0: return ty_int; case 1: return ty_uint; case 2: return ty_long; case 3: return ty_ulong;
  case 4: return &t_ptr; case 5: return ty_bool; case 6: return ty_char; case 7: return ty_uchar;
  case 8: return ty_short; case 9: return ty_ushort; case 10: return ty_llong; case 11: return ty_ullong; case 12: return ty_pchar;
  }
  return 0;
}
static int64_t conv(Type *ty, int64_t v) { return ty->kind == TY_BOOL ? v != 0 : norm(ty, v); }
static int64_t load_reg(int g, int o, int n) { uint64_t v = 0; for (int k = 0; k < n; k++) v |= (uint64_t)reg_[g].b[o + k] << 8*k; return v; }
static Child *opq(Node *n) { for (int i = 0; i < 4; i++) if (n == &ch[i].n || n == &ch[i].in) return &ch[i]; return 0; }

// C value of a node (canonical: converted to the node's type, then widened)
static int64_t vf_val(Node *n);
static int64_t vf_bin(NodeKind k, Type *ty, Type *opty, Type *rty, int64_t a, int64_t b) {
  int sz = opty->size; bool u = opty->is_unsigned;
  switch (k) {
  case ND_ADD: return norm(ty, (uint64_t)a + b);
  case ND_SUB: return norm(ty, (uint64_t)a - b);
  case ND_MUL: return norm(ty, xmul(ty->size, a, b));
  case ND_DIV: return norm(ty, xdiv(ty->size, u, a, b));
  case ND_MOD: return norm(ty, xmod(ty->size, u, a, b));
  case ND_BITAND: return a & b;
  case ND_BITOR: return a | b;
  case ND_BITXOR: return a ^ b;
  case ND_SHL: return norm(ty, (uint64_t)a << (b & 63));
  case ND_SHR: case ND_SAR: return norm(ty, u ? msk(sz, a) >> (b & 63) : (uint64_t)(a >> (b & 63)));
  case ND_EQ: return a == b;
  case ND_NE: return a != b;
  case ND_LT: return u ? (uint64_t)a < (uint64_t)b : a < b;
  case ND_LE: return u ? (uint64_t)a <= (uint64_t)b : a <= b;
  case ND_GT: return u ? (uint64_t)a > (uint64_t)b : a > b;
  case ND_GE: return u ? (uint64_t)a >= (uint64_t)b : a >= b;
  }
  return 0;
}
static int64_t var_load(Obj *v, int ofs, Type *ty) {
  int g = v == &ch[0].var ? 0 : v == &ch[1].var ? 1 : v == &ch[2].var ? 2 : 3;
  return norm(ty, load_reg(g, ofs, ty->size));
}
#ifdef VF_OWN_VAL
static int64_t own_val(Node *n);
#endif
static int64_t vf_val(Node *n) {
  switch (n->kind) {
  case ND_NUM: return n->val;
  case ND_STMT_EXPR: return opq(n)->val;
  case ND_VAR: return var_load(n->var, 0, n->ty);
  case ND_CAST: return conv(n->ty, vf_val(n->lhs));
  case ND_NULL_EXPR: return norm(n->ty, m.r[AX]);
  case ND_ADD: case ND_SUB: case ND_MUL: case ND_DIV: case ND_MOD: case ND_BITAND: case ND_BITOR: case ND_BITXOR:
  case ND_SHL: case ND_SHR: case ND_SAR: case ND_EQ: case ND_NE: case ND_LT: case ND_LE: case ND_GT: case ND_GE:
    return vf_bin(n->kind, n->ty, n->lhs->ty, n->rhs->ty, vf_val(n->lhs), vf_val(n->rhs));
  case ND_NOT: return !vf_val(n->lhs);
  }
#ifdef VF_OWN_VAL
  return own_val(n);
#endif
  CHECK(0, "expression handed to gen_expr is one of the operands");
  return 0;
}
static void vf_touch(Node *n) {
  if (!n || !m.live) return;
  if (n->kind == ND_STMT_EXPR) { Child *c = opq(n); if (c) { c->cnt++; c->when = ++tick; } return; }
  vf_touch(n->lhs); vf_touch(n->rhs);
}

// ---- what a sub-expression may disturb ----------------------------------------
#define tmpr tmp_id64
static bool child_calls;      // this child may contain a call
static int case_seq[4] = {-1, -1, -1, -1}, case_pos; // case split: registers the k-th child uses (7: it contains a call)
static void vf_clobber(void) {
  int cs = case_pos < 4 ? case_seq[case_pos++] : -1;
  bool call = child_calls && (cs < 0 ? ndb() : cs == 7);
  int gp = 6, fp = 6;
  if (tmp_stack.depth > 0) {
    Slot *t = &tmp_stack.data[tmp_stack.depth - 1];
    int a = nd64() & 7, b = nd64() & 7, c = nd64() & 0xffff;
    if (cs >= 0) a = cs == 7 ? 6 : cs;
#ifdef VF_NATIVE
    a = cs >= 0 ? a : nd64() % 7; b = nd64() % 7;
#endif
    ASSUME(a <= 6 && b <= 6);
    if (a > t->gp_depth) t->gp_depth = a;
    if (b > t->fp_depth) t->fp_depth = b;
    if (c > t->st_depth) t->st_depth = c;
    gp = t->gp_depth; fp = t->fp_depth;
    int64_t low;
    if (!opt_reuse_stack || current_fn->dont_reuse_stk) { peak_stk_usage += nd64() & 0xffff; low = -(int64_t)peak_stk_usage; }
    else { int p = lvar_stk_sz + t->st_depth * 8; if (t->st_depth > 0 && p > peak_stk_usage) peak_stk_usage = p; low = -(int64_t)p; }
    if (m.live) {
      for (int i = 0; i < NREC; i++) if (i < nrec && rec[i].live && low < rec[i].low) rec[i].low = low;
      // the interval [low, ...) below the locals is what the child may spill to
      if (!tmp_any || low < tmp_low) tmp_low = low;
      tmp_any = true;
    }
  }
  if (call) { for (int i = 0; i < tmp_stack.depth; i++) tmp_stack.data[i].kind = SL_ST; if (m.live) saw_call = true; }
  if (!m.live) return;
  for (int i = 0; i < 6; i++) if (call || i < gp) { m.r[tmpr[i]] = nd64(); m.last[tmpr[i]] = nrec; }
  for (int i = 0; i < 6; i++) if (call || i < fp) { m.x[i + 2] = nd64(); m.lastx[i + 2] = nrec; }
  m.r[CX] = nd64(); m.r[DX] = nd64(); m.r[AX] = nd64(); m.last[CX] = m.last[DX] = m.last[AX] = nrec;
  m.x[0] = nd64(); m.x[1] = nd64(); m.lastx[0] = m.lastx[1] = nrec;
  m.zf = ndb(); m.cf = ndb(); m.sf = ndb(); m.of = ndb();
}
static void vf_call(void) {
  if (m.live) for (int i = 0; i < 12; i++) if (i != SP && i != BP && i != BX) { m.r[i] = nd64(); m.last[i] = nrec; }
}
static void child_effect(Node *n);
#ifndef VF_EFFECT
static void child_effect(Node *n) {}
#endif
// Results of these forms are 0 or 1 in the whole of %rax
static bool truth_valued(Node *n) {
  switch (n->kind) {
  case ND_EQ: case ND_NE: case ND_LT: case ND_LE: case ND_GT: case ND_GE: case ND_NOT: case ND_LOGAND: case ND_LOGOR: return true;
  }
  return n->ty->kind == TY_BOOL;
}
// Contract of gen_expr: the value arrives in %rax in the representation of its
// type; only registers and temporaries below the caller's slots are disturbed.
static void gen_expr(Node *n) {
  add_type(n);
  int64_t v = vf_val(n);
  bool opaque = n->kind == ND_STMT_EXPR || (n->kind == ND_CAST && n->lhs->kind == ND_STMT_EXPR);
  vf_touch(n);
  if (opaque) child_effect(n);
  if (n->kind == ND_NULL_EXPR) return;
  vf_clobber();
  if (m.live) m.r[AX] = n->ty->size == 8 || n->ty->base || truth_valued(n) ? (uint64_t)v : (nd64() << 32) | (uint32_t)v;
}
#ifndef VF_GENADDR
static uint64_t vf_addr(Node *n);
static void gen_addr(Node *n) {
  uint64_t a = vf_addr(n);
  vf_touch(n->kind == ND_VAR ? 0 : n->lhs);
  vf_clobber();
  if (m.live) m.r[AX] = a;
}
#endif
static uint64_t var_addr(Obj *v) {
  return v->is_local ? m.r[BP] + (int64_t)v->ofs : sym_addr;
}
static uint64_t vf_addr(Node *n) {
  switch (n->kind) {
  case ND_VAR: return var_addr(n->var);
  case ND_DEREF: return vf_val(n->lhs);
  case ND_MEMBER: return vf_addr(n->lhs) + n->member->offset;
  case ND_STMT_EXPR: return opq(n)->val;
  }
  CHECK(0, "lvalue handed to gen_addr is one of the operands");
  return 0;
}
#ifndef VF_OWN_COND
static void gen_cond(Node *n, bool jump_cond, char *label) {
  int64_t v = vf_val(n);
  vf_touch(n);
  vf_clobber();
  int p = 0; uint64_t id = label_id(label, &p);
  if (m.live && (v != 0) == jump_cond) { m.live = false; m.target = id; }
}
#endif
#ifndef VF_OWN_VOID
static void gen_void_expr(Node *n) { vf_touch(n); vf_clobber(); }
#endif
#ifndef VF_OWN_STMT
static void gen_stmt(Node *n) { CHECK(0, "no statement in this expression"); }
#endif
static void gen_funcall(Node *n) { CHECK(0, "no call in this expression"); }
static void gen_defr(Node *n) { }
static void gen_asm(Node *n) { }

// Contract of constant evaluation and of the "names an object" query (C01)
bool is_const_double(Node *n, long double *f) { return false; }
bool is_const_expr(Node *n, int64_t *v) {
  if (n->kind == ND_NUM) { if (v) *v = n->val; return true; }
  if (n->kind == ND_CAST && n->lhs->kind == ND_NUM) { if (v) *v = conv(n->ty, n->lhs->val); return true; }
  return false;
}
Obj *eval_var_opt(Node *n, int *ofs, bool let_subarray, bool let_atomic) {
  if (n->kind == ND_VAR && (let_atomic || !n->ty->is_atomic)) { *ofs = 0; return n->var; }
#ifdef VF_MEMBER
  if (n->kind == ND_MEMBER && n->lhs->kind == ND_VAR && (let_atomic || !n->ty->is_atomic)) { *ofs = n->member->offset; return n->lhs->var; }
#endif
  return 0;
}
// Contract of new_cast: an expression of type ty with the converted value.
Node *new_cast(Node *e, Type *ty) {
  add_type(e);
  if (e->ty == ty) return e;
  Node *n = vf_calloc_(sizeof(Node));
  n->kind = ND_CAST; n->lhs = e; n->ty = ty; n->tok = e->tok;
  return n;
}

// ---- set-up -------------------------------------------------------------------
static Obj the_fn; static Slot slots[8];
static Slot T0; static int peak0, peakm;
static uint64_t r0[17];
static void cg_init(bool opt) {
  opt_optimize = opt; opt_g = false;
  ty_size_t = ty_ulong; ty_intptr_t = ty_ptrdiff_t = ty_long; ty_first_64bit_int = ty_long; ty_first_64bit_uint = ty_ulong; // init_ty_lp64
  IN_BOOL(reuse); opt_reuse_stack = reuse;
  current_fn = &the_fn; IN_BOOL(dontreuse); the_fn.dont_reuse_stk = dontreuse;
  lvar_ptr = "%rbp"; alias_temps(tmpreg64, tmpreg32);
  IN_RANGE(int, lvsz, 0, 100000); lvar_stk_sz = lvsz;
  IN_RANGE(int, pk, 0, 1000000); ASSUME(pk >= lvsz); peak_stk_usage = pk; peak0 = pk;
  tmp_stack.data = slots; tmp_stack.capacity = 8; tmp_stack.depth = 1;
  IN_RANGE(int, tk, 0, 2); IN_RANGE(int, tg, 0, 6); IN_RANGE(int, tf, 0, 6); IN_RANGE(int, ts, 0, 10000);
  slots[0].kind = tk; slots[0].gp_depth = tg; slots[0].fp_depth = tf; slots[0].st_depth = ts;
  ASSUME(reuse && !dontreuse ? pk >= lvsz + ts * 8 || 1 : 1);
  T0 = slots[0];
  for (int i = 0; i < 16; i++) { m.r[i] = nd64(); m.x[i] = nd64(); m.last[i] = m.lastx[i] = 0; }
  m.live = true; nrec = 0; tmp_any = false; tick = 0;
  t_ptr.base = &t_base;
  IN(uint64_t, bp); m.r[BP] = bp;
  IN(uint64_t, sp); m.r[SP] = sp;
  for (int i = 0; i < 17; i++) r0[i] = m.r[i];
  IN_BOOL(calls); child_calls = calls;
  IN_BOOL(pic); opt_fpic = pic; IN_BOOL(pie); opt_fpie = pie;
}
static void child(int i, int shape, Type *ty, Type *ity, int64_t v, int ofs) {
  Child *c = &ch[i]; Node *n = &c->n;
  c->shape = shape; c->ity = ity; c->cnt = 0;
  n->ty = ty;
  if (shape >= S_COPQ) { n->kind = ND_CAST; n->lhs = &c->in; n = &c->in; n->ty = ity; }
  switch (shape) {
  case S_OPQ: case S_COPQ: n->kind = ND_STMT_EXPR; n->body = &opq_body; ASSUME(normalized(n->ty, v)); c->val = v; break;
  case S_NUM: n->kind = ND_NUM; ASSUME(normalized(n->ty, v)); n->val = c->val = v; break;
  default: {
    bool loc = shape == S_LOC || shape == S_CLOC;
    n->kind = ND_VAR; n->var = &c->var; c->var.ty = n->ty; c->var.is_local = loc; c->var.name = "g"; c->var.is_static = true;
    c->var.ptr = "%rbp"; c->var.ofs = ofs;
    reg_[i].on = true; reg_[i].size = n->ty->size;
    reg_[i].base = loc ? m.r[BP] + (int64_t)ofs : sym_addr;
    for (int k = 0; k < 8; k++) reg_[i].b[k] = v >> 8*k;
    if (n->ty->kind == TY_BOOL) ASSUME((v & 255) <= 1);
  } }
}
static void child_inputs(int i, int shape, Type *ty, Type *ity) {
  if (i == 0) { IN(int64_t, v0); IN_RANGE(int, ofs0, -100000, 100000); child(0, shape, ty, ity, v0, ofs0); }
  if (i == 1) { IN(int64_t, v1); IN_RANGE(int, ofs1, -100000, 100000); child(1, shape, ty, ity, v1, ofs1); }
  if (i == 2) { IN(int64_t, v2); IN_RANGE(int, ofs2, -100000, 100000); child(2, shape, ty, ity, v2, ofs2); }
}
static void regions_disjoint(void) {
  for (int i = 0; i < NREG; i++) {
    if (reg_[i].on && (i > 2 || ch[i].var.is_local)) ASSUME(i > 2 || ch[i].var.ofs >= -lvar_stk_sz);
    for (int j = 0; j < i; j++)
      if (reg_[i].on && reg_[j].on) ASSUME(reg_[i].base - reg_[j].base >= OBJSZ && reg_[j].base - reg_[i].base >= OBJSZ);
    // objects other than locals are outside the frame
    if (reg_[i].on && !(i <= 2 && ch[i].var.is_local)) ASSUME(m.r[BP] - reg_[i].base >= 0x10000000 && reg_[i].base - m.r[BP] >= 0x10000000);
  }
}
// The part of gen_expr's contract callers rely on (checked for C19)
static void cg_post(void) {
#ifdef P19
  Slot *t = &slots[0];
  CHECK(tmp_stack.depth == 1, "temporaries: every pushed value is popped");
  CHECK(t->gp_depth >= T0.gp_depth && t->fp_depth >= T0.fp_depth && t->st_depth >= T0.st_depth && t->gp_depth <= 6 && t->fp_depth <= 6, "temporaries: slot depths only grow");
  CHECK(t->kind == T0.kind || t->kind == SL_ST, "temporaries: a slot changes only to a stack slot");
  for (int i = 0; i < 6; i++) {
    CHECK(t->kind == SL_ST || m.r[tmpr[i]] == r0[tmpr[i]] || i < t->gp_depth, "temporaries: clobbered registers are accounted to the enclosing slot");
    CHECK(t->kind == SL_ST || m.last[tmpr[i]] == 0 || i < t->gp_depth || nrec == 0, "temporaries: used registers are accounted to the enclosing slot");
  }
  CHECK(!saw_call || t->kind == SL_ST, "temporaries: values live across a call are spilled");
  if (tmp_any) {
    CHECK(tmp_low >= -(int64_t)peak_stk_usage, "temporaries: spill slots lie inside the frame");
    if (opt_reuse_stack && !current_fn->dont_reuse_stk)
      CHECK(tmp_low >= -((int64_t)lvar_stk_sz + 8 * (int64_t)t->st_depth), "temporaries: spill slots are accounted to the enclosing slot");
  }
  CHECK(peak_stk_usage >= peak0, "temporaries: frame peak only grows");
#endif
  CHECK(m.r[BP] == r0[BP] && m.r[BX] == r0[BX] && m.r[SP] == r0[SP] && m.r[R12_] == r0[R12_] && m.r[R13_] == r0[R13_] && m.r[R14_] == r0[R14_] && m.r[R15_] == r0[R15_],
    "callee-saved, frame and stack pointers preserved");
}
static bool rax_is(Node *n, int64_t v) { Type *ty = n->ty; return ty->size == 8 || ty->base || truth_valued(n) ? m.r[AX] == (uint64_t)v : (uint32_t)m.r[AX] == (uint32_t)v; }
#endif
