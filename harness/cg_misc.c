// C10 / C19: the remaining expression forms.  C06: integer conversions.
#define VF_OWN_VAL 1
#define VF_EFFECT 1
#include "cg.h"
static Node R, N1, N2, N3;
static Node *lv_node;      // lvalue of the assignment under check
static bool havoc_mem;     // opaque operands may modify the objects
static uint8_t mem_after[NREG][OBJSZ];
static void child_effect(Node *n) {
  if (!havoc_mem || !m.live) return;
  for (int i = 0; i < NREG; i++) if (reg_[i].on) for (int k = 0; k < OBJSZ; k++) { reg_[i].b[k] = nd64(); mem_after[i][k] = reg_[i].b[k]; }
}
static void snap_mem(void) { for (int i = 0; i < NREG; i++) for (int k = 0; k < OBJSZ; k++) mem_after[i][k] = reg_[i].b[k]; }
static void sym_init(void) { IN(uint64_t, symaddr); ASSUME(symaddr < 0x70000000); sym_addr = symaddr; }
static int64_t own_val(Node *n) {
  switch (n->kind) {
  case ND_LOGAND: return vf_val(n->lhs) && vf_val(n->rhs);
  case ND_LOGOR: return vf_val(n->lhs) || vf_val(n->rhs);
  case ND_DEREF: return norm(n->ty, load_reg(3, 0, n->ty->size));
  case ND_FUNCALL: return N3.val;
  case ND_NEG: return norm(n->ty, -(uint64_t)vf_val(n->lhs));
  case ND_BITNOT: return norm(n->ty, ~(uint64_t)vf_val(n->lhs));
  }
  CHECK(0, "expression handed to gen_expr is one of the operands");
  return 0;
}
static void done(Node *n, int64_t want, const char *what) {
  CHECK(m.live, "control reaches the end of the expression");
#ifndef P19
  CHECK(rax_is(n, want), "generated code computes the C value of the expression");
#endif
  cg_post();
  REACH("misc");
}
static bool has_effect(int i) { return ch[i].shape == S_OPQ || ch[i].shape == S_COPQ; }
static void counts(int i, int want) {
#ifndef P19
  CHECK(ch[i].cnt == (has_effect(i) ? want : 0), "operands are evaluated exactly as often as C prescribes");
#endif
}

// ---- unary --------------------------------------------------------------------
static void run_unary(NodeKind k, int t, int s0, int i0, bool opt) {
  cg_init(opt); sym_init(); child_inputs(0, s0, TY_(t), TY_(i0)); regions_disjoint();
  R.kind = k; R.lhs = &ch[0].n; R.ty = k == ND_NOT ? ty_int : TY_(t);
  int64_t a = vf_val(&ch[0].n);
  int64_t want = k == ND_NEG ? norm(R.ty, -(uint64_t)a) : k == ND_BITNOT ? norm(R.ty, ~(uint64_t)a) : k == ND_NOT ? !a : a;
  gen_expr2(&R, false);
  done(&R, want, "unary"); counts(0, 1);
}
// ---- casts --------------------------------------------------------------------
static void run_cast(int t, int s0, int from, bool opt) {
  cg_init(opt); sym_init(); child_inputs(0, s0, TY_(from), TY_(from)); regions_disjoint();
  R.kind = ND_CAST; R.lhs = &ch[0].n; R.ty = TY_(t);
  int64_t want = conv(R.ty, vf_val(&ch[0].n));
  gen_expr2(&R, false);
  done(&R, want, "cast"); counts(0, 1);
}
// (int)(a op b) with a, b 64 bits wide
static void run_castop(NodeKind k, int t, int opt_t, int s0, int i0, int s1, int i1) {
  cg_init(true); sym_init(); child_inputs(0, s0, TY_(opt_t), TY_(i0)); child_inputs(1, s1, TY_(opt_t), TY_(i1)); regions_disjoint();
  N1.kind = k; N1.lhs = &ch[0].n; N1.rhs = &ch[1].n; N1.ty = TY_(opt_t);
  R.kind = ND_CAST; R.lhs = &N1; R.ty = TY_(t);
  int64_t a = vf_val(&ch[0].n), b = vf_val(&ch[1].n);
  // laws of arithmetic: the low half of an operation depends on the low halves
  int64_t want = norm(R.ty, vf_bin(k, R.ty, R.ty, R.ty, norm(R.ty, a), norm(R.ty, b)));
  gen_expr2(&R, false);
  done(&R, want, "castop"); counts(0, 1); counts(1, 1);
}
// ---- numbers, variables -------------------------------------------------------
static void run_leaf(int t, int s0, bool opt) {
  cg_init(opt); sym_init(); child_inputs(0, s0, TY_(t), TY_(t)); regions_disjoint();
  int64_t want = vf_val(&ch[0].n);
  gen_expr2(&ch[0].n, false);
  done(&ch[0].n, want, "leaf");
}
// ---- ?: , && || ! --------------------------------------------------------------
static void run_cond(int t, bool opt, int sc) {
  cg_init(opt); sym_init(); child_inputs(0, sc, ty_bool, ty_bool); child_inputs(1, S_OPQ, TY_(t), 0); child_inputs(2, S_OPQ, TY_(t), 0); regions_disjoint();
  R.kind = ND_COND; R.cond = &ch[0].n; R.then = &ch[1].n; R.els = &ch[2].n; R.ty = TY_(t);
  int64_t c = vf_val(&ch[0].n), want = c ? ch[1].val : ch[2].val;
  gen_expr2(&R, false);
  done(&R, want, "cond"); counts(0, 1); counts(1, c != 0); counts(2, c == 0);
}
static void run_comma(NodeKind k, int t, bool opt) {
  cg_init(opt); child_inputs(0, S_OPQ, ty_int, 0); child_inputs(1, S_OPQ, TY_(t), 0);
  R.kind = k; R.lhs = &ch[0].n; R.rhs = &ch[1].n; R.ty = TY_(t);
  gen_expr2(&R, false);
  done(&R, ch[1].val, "comma"); counts(0, 1); counts(1, 1);
#ifndef P19
  CHECK(ch[0].when < ch[1].when, "operands of , are evaluated left to right");
#endif
}
static void run_logic(NodeKind k, bool opt, int neg) { // neg: number of ! applied
  cg_init(opt); child_inputs(0, S_OPQ, ty_bool, 0); child_inputs(1, S_OPQ, ty_bool, 0);
  N1.kind = k; N1.lhs = &ch[0].n; N1.rhs = &ch[1].n; N1.ty = ty_int;
  Node *top = &N1; bool want = k == ND_LOGAND ? ch[0].val && ch[1].val : ch[0].val || ch[1].val;
  if (neg) {
    N2.kind = ND_CAST; N2.ty = ty_bool; N2.lhs = top; R.kind = ND_NOT; R.lhs = &N2; R.ty = ty_int; top = &R; want = !want;
  }
  bool second = k == ND_LOGAND ? ch[0].val : !ch[0].val;
  gen_expr2(top, false);
  done(top, want, "logic"); 
  counts(0, 1); counts(1, second);
#ifndef P19
  CHECK(!second || ch[0].when < ch[1].when, "operands of && and || are evaluated left to right");
#endif
}
// chains of ! and casts over a comparison, a truth value or an integer
enum { X_CMP, X_BOOL, X_INT, X_BCAST };
static Node Z[5];
static void run_chain(int what, NodeKind k, int t, int c1, int c2, int c3) { // c: -1 none, 100 '!', else cast to type
  cg_init(true); sym_init();
  Node *n; int64_t v;
  if (what == X_CMP) {
    child_inputs(0, S_OPQ, TY_(t), 0); child_inputs(1, S_OPQ, TY_(t), 0);
    N1.kind = k; N1.lhs = &ch[0].n; N1.rhs = &ch[1].n; N1.ty = ty_int; n = &N1; v = vf_val(n);
  } else {
    child_inputs(0, S_OPQ, TY_(t), 0); n = &ch[0].n; v = ch[0].val;
    if (what == X_BCAST) { N1.kind = ND_CAST; N1.ty = ty_bool; N1.lhs = n; n = &N1; v = v != 0; }
  }
  int c[3] = {c1, c2, c3};
  for (int i = 0; i < 3; i++) {
    if (c[i] < 0) continue;
    Node *z = &Z[i]; z->lhs = n;
    if (c[i] == 100) {
      if (n->ty->kind != TY_BOOL) { Node *y = i == 0 ? &N2 : i == 1 ? &N3 : &Z[3]; y->kind = ND_CAST; y->ty = ty_bool; y->lhs = n; z->lhs = y; }
      z->kind = ND_NOT; z->ty = ty_int; v = !v;
    } else { z->kind = ND_CAST; z->ty = TY_(c[i]); v = conv(z->ty, v); }
    n = z;
  }
  gen_expr2(n, false);
  done(n, v, "chain"); counts(0, 1); if (what == X_CMP) counts(1, 1);
}
// ---- entries -------------------------------------------------------------------
#define UN(name, ...) void h_##name(void) { run_unary(__VA_ARGS__); }
#define CA(name, ...) void h_##name(void) { run_cast(__VA_ARGS__); }
#define CO(name, ...) void h_##name(void) { run_castop(__VA_ARGS__); }
#define LF(name, ...) void h_##name(void) { run_leaf(__VA_ARGS__); }
#define CD(name, ...) void h_##name(void) { run_cond(__VA_ARGS__); }
#define CM(name, ...) void h_##name(void) { run_comma(__VA_ARGS__); }
#define LG(name, ...) void h_##name(void) { run_logic(__VA_ARGS__); }
#define CH(name, ...) void h_##name(void) { run_chain(__VA_ARGS__); }
#include "cg_misc_gen.h"
