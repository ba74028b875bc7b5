// Assignments, compound assignments, ++/--, loads through pointers and members,
// bit-fields, atomic exchange: contracts over the instructions really printed.
// Region LR is the object containing the lvalue, with neighbours on both sides.
#define VF_OWN_VAL 1
#define VF_EFFECT 1
#define VF_MEMBER 1
#include "cg.h"
static Node R, LV, AD, DR; static Member mem; static Type t_str = {TY_STRUCT, OBJSZ, 8}, t_fld, t_base1;
static int LR, lofs;              // region and offset of the lvalue
static uint8_t pat[OBJSZ], prot[OBJSZ]; // expected bytes, bits opaque operands keep
static bool havoc_mem;
enum { L_DEREF, L_LOC, L_GLB, L_MEM, L_MVAR, L_MGLB, L_OFS, L_MOFS };
enum { M_READ, M_ASSIGN, M_ARITH, M_POST };
static void child_effect(Node *n) {
  if (!havoc_mem || !m.live) return;
  for (int k = 0; k < OBJSZ; k++) { uint8_t v = nd64(); reg_[LR].b[k] = pat[k] = (v & ~prot[k]) | (reg_[LR].b[k] & prot[k]); }
}
static uint64_t raw(uint8_t *b, int o, int n) { uint64_t v = 0; for (int k = 0; k < n; k++) v |= (uint64_t)b[o + k] << 8*k; return v; }
static int64_t field(Type *ty, Member *mb, uint64_t w) {
  if (!mb || !mb->is_bitfield) return norm(ty, w);
  int s = 64 - mb->bit_width; w = w << (s - mb->bit_offset);
  return ty->is_unsigned ? (int64_t)(w >> s) : (int64_t)w >> s;
}
// Reads by the address the node names, so that a wrong address shows up.
static int64_t own_val(Node *n) {
  switch (n->kind) {
  case ND_MEMBER: if (n->lhs->kind == ND_VAR) return field(n->ty, n->member, load_reg(0, n->member->offset, n->ty->size));
  }
  CHECK(0, "expression handed to gen_expr is one of the operands");
  return 0;
}
// (p + c) as an address: value of the address expression of an lvalue
static Type *lty; static int lform;
static void vf_lvalue(int form, Type *ty, int bw, int mofs) {
  lform = form; lty = ty; lofs = mofs;
  bool memb = form == L_MEM || form == L_MVAR || form == L_MGLB || form == L_MOFS;
  LV.ty = ty;
  if (memb) {
    LV.kind = ND_MEMBER; LV.member = &mem; mem.ty = ty; mem.offset = mofs; mem.is_bitfield = bw > 0;
    if (bw > 0) { IN_RANGE(int, bo, 0, 63); ASSUME(bo + bw <= 8 * ty->size); mem.bit_offset = bo; mem.bit_width = bw; }
  }
  Node *base = memb ? &DR : &LV; Type *bty = memb ? &t_str : ty;
  if (memb) { LV.lhs = base; base->ty = bty; }
  switch (form) {
  case L_DEREF: case L_MEM: case L_OFS: case L_MOFS: {
    IN(int64_t, v0); child(0, S_OPQ, &t_ptr, 0, v0, 0);
    base->kind = ND_DEREF; base->lhs = &ch[0].n; LR = 3;
    reg_[3].base = v0 - (memb ? 0 : mofs);
    if (form == L_OFS || form == L_MOFS) { // *(p + c)
      IN(int64_t, c0); child(2, S_NUM, ty_long, 0, c0, 0);
      AD.kind = ND_ADD; AD.ty = &t_ptr; AD.lhs = &ch[0].n; AD.rhs = &ch[2].n; base->lhs = &AD; reg_[3].base += c0;
    }
    break; }
  default: {
    IN_RANGE(int, ofs0, -100000, 100000); bool loc = form == L_LOC || form == L_MVAR;
    child(0, loc ? S_LOC : S_GLB, bty->size == OBJSZ ? ty_long : bty, 0, 0, ofs0);
    *base = ch[0].n; base->ty = bty; ch[0].var.ty = bty; LR = 0;
    if (!memb) { reg_[0].base -= mofs; }
  } }
  reg_[LR].on = true; reg_[LR].size = OBJSZ;
#ifdef VF_NATIVE
  for (int k = 0; k < OBJSZ; k++) reg_[LR].b[k] = nd64();
  IN(uint64_t, obj);
#else
  IN(uint64_t, obj);
  for (int k = 0; k < OBJSZ; k++) reg_[LR].b[k] = nd64();
#endif
  for (int k = 0; k < 8; k++) reg_[LR].b[mofs + k] = obj >> 8*k;
  if (ty->kind == TY_BOOL && bw < 0) ASSUME((reg_[LR].b[mofs] & 255) <= 1);
  for (int k = 0; k < OBJSZ; k++) pat[k] = reg_[LR].b[k];
}
static int64_t lv_now(void) { return field(lty, LV.kind == ND_MEMBER ? &mem : 0, raw(pat, lofs, lty->size)); }
static void lv_protect(void) {
  uint64_t mk = LV.kind == ND_MEMBER && mem.is_bitfield ? (mem.bit_width == 64 ? -1ull : ((1ull << mem.bit_width) - 1) << mem.bit_offset) : lty->size == 8 ? -1ull : (1ull << 8*lty->size) - 1;
  for (int k = 0; k < 8; k++) prot[lofs + k] = mk >> 8*k;
}
// store v into the expected image
static int64_t lv_store(int64_t v) {
  Member *mb = LV.kind == ND_MEMBER && mem.is_bitfield ? &mem : 0;
  uint64_t w = raw(pat, lofs, lty->size), mk = mb ? (mb->bit_width == 64 ? -1ull : (1ull << mb->bit_width) - 1) : 0;
  if (mb) w = (w & ~(mk << mb->bit_offset)) | (((uint64_t)v & mk) << mb->bit_offset); else w = v;
  for (int k = 0; k < lty->size; k++) pat[lofs + k] = w >> 8*k;
  return field(lty, mb, w);
}
static bool gen_void;
static void finish(Node *n, int64_t want) {
  CHECK(m.live, "control reaches the end of the expression");
#ifndef P19
  if (!gen_void) CHECK(rax_is(n, want), "generated code computes the C value of the expression");
  for (int k = 0; k < OBJSZ; k++) CHECK(reg_[LR].b[k] == pat[k], "exactly the designated object changes, to the assigned value");
#endif
  cg_post(); REACH("asg");
}
static void go(Node *n) {
  if (gen_void) gen_void_expr(n); else gen_expr2(n, false);
}
static void counts(int i, int want) {
#ifndef P19
  CHECK(ch[i].cnt == (ch[i].shape == S_OPQ || ch[i].shape == S_COPQ ? want : 0), "operands are evaluated exactly as often as C prescribes");
#endif
}
// LP64 usual arithmetic conversions
static Type *promo(Type *t, int bw) {
  if (t->base) return t;
  if (bw > 0) return bw < 32 ? ty_int : bw == 32 ? (t->is_unsigned ? ty_uint : ty_int) : t;
  return t->size < 4 || t->kind == TY_BOOL ? ty_int : t;
}
static Type *common(Type *a, Type *b) {
  if (a->size != b->size) return a->size > b->size ? a : b;
  return a->is_unsigned ? a : b;
}
static void run_asg(int what, NodeKind k, int form, int t, int bw, bool sgn, int mofs, int rs, int rt, int rit, bool isvoid, bool opt) {
  cg_init(opt); IN(uint64_t, symaddr); ASSUME(symaddr < 0x70000000); sym_addr = symaddr;
  havoc_mem = true; gen_void = isvoid;
  vf_lvalue(form, TY_(t), bw, mofs);
  if (what != M_READ) { IN(int64_t, v1); IN_RANGE(int, ofs1, -100000, 100000); child(1, rs, what == M_ASSIGN ? TY_(t) : TY_(rt), TY_(rit), v1, ofs1); }
  regions_disjoint();
  if (what == M_ARITH || what == M_POST) lv_protect();
  R.lhs = &LV; R.ty = lty; R.rhs = &ch[1].n;
  switch (what) {
  case M_READ: { int64_t want = lv_now(); havoc_mem = false; gen_expr2(&LV, false); counts(0, form != L_LOC && form != L_GLB && form != L_MVAR && form != L_MGLB); finish(&LV, want); return; }
  case M_ASSIGN: {
    R.kind = ND_ASSIGN; int64_t v = vf_val(&ch[1].n);
    go(&R); counts(0, 1); counts(1, 1);
    finish(&R, lv_store(v)); return; }
  case M_ARITH: case M_POST: {
    int64_t a = lv_now(), b = vf_val(&ch[1].n);
    R.kind = what == M_POST ? ND_POST_INCDEC : ND_ARITH_ASSIGN; R.arith_kind = k;
    NodeKind op = what == M_POST ? ND_ADD : k;
    Type *pl = promo(lty, bw), *pr = promo(ch[1].n.ty, 0);
    bool sh = op == ND_SHL || op == ND_SHR || op == ND_SAR;
    Type *ct = pl->base || sh ? pl : common(pl, pr);
    int64_t x = norm(ct, a), y = sh || ct->base ? b : norm(ct, b);
    if (op == ND_DIV || op == ND_MOD) ASSUME(y != 0 && (ct->is_unsigned || y != -1 || x != (ct->size == 8 ? INT64_MIN : INT32_MIN)));
    if (sh) ASSUME(y >= 0 && y < ct->size * 8);
    int64_t v = vf_bin(op, ct, ct, ct, x, y);
    if (lty->kind == TY_BOOL) v = v != 0;
    go(&R); counts(0, 1); counts(1, 1);
    int64_t nv = lv_store(v); finish(&R, what == M_POST ? a : nv); return; }
  }
}
// *p, with p some address expression a cast chain may hide: (T *)(u + c)
static Node N1, N2;
static void run_deref_int(int it, int t, bool addr) { // *(T *)(integer x + c)
  cg_init(true); Type *ty = TY_(t), *xt = TY_(it); lty = ty; LV.kind = ND_DEREF; LV.ty = ty; LR = 3;
  IN(int64_t, v0); child(0, S_OPQ, xt, 0, v0, 0); IN(int64_t, c0); child(1, S_NUM, xt, 0, c0, 0);
  N1.kind = ND_ADD; N1.ty = xt; N1.lhs = &ch[0].n; N1.rhs = &ch[1].n;
  N2.kind = ND_CAST; N2.ty = &t_ptr; N2.lhs = &N1; LV.lhs = &N2;
  uint64_t a = norm(xt, (uint64_t)v0 + c0);
  reg_[3].on = true; reg_[3].size = 8; reg_[3].base = a; IN(uint64_t, obj); for (int k = 0; k < 8; k++) reg_[3].b[k] = pat[k] = obj >> 8*k;
  regions_disjoint();
  int64_t want = norm(ty, obj);
  if (addr) { R.kind = ND_ADDR; R.lhs = &LV; R.ty = &t_ptr; gen_expr2(&R, false); CHECK(m.live && m.r[AX] == a, "address of a dereferenced pointer is the pointer"); gen_void = true; }
  else gen_expr2(&LV, false);
  finish(&LV, want);
}
static void run_exch(int t, int rs) {
  cg_init(false); Type *ty = TY_(t); lty = ty; lofs = 0; LR = 3; t_base1 = *ty; static Type pt; pt = t_ptr; pt.base = &t_base1;
  IN(int64_t, v0); child(0, S_OPQ, &pt, 0, v0, 0); IN(int64_t, v1); child(1, rs, ty, 0, v1, 0);
  reg_[3].on = true; reg_[3].size = OBJSZ; reg_[3].base = v0; IN(uint64_t, obj);
  for (int k = 0; k < OBJSZ; k++) pat[k] = reg_[3].b[k] = k < 8 ? obj >> 8*k : nd64();
  regions_disjoint(); LV.kind = ND_DEREF;
  int64_t old = norm(ty, obj);
  R.kind = ND_EXCH; R.lhs = &ch[0].n; R.rhs = &ch[1].n; R.ty = ty;
  gen_expr2(&R, false); counts(0, 1); counts(1, 1);
  lv_store(v1); finish(&R, old);
}
static void run_cas(int t, int c1, int c2) {
  cg_init(false); child_calls = true; case_seq[1] = c1; case_seq[2] = c2; Type *ty = TY_(t); lty = ty; lofs = 0; LR = 3; t_base1 = *ty; static Type pt; pt = t_ptr; pt.base = &t_base1;
  IN(int64_t, v0); child(0, S_OPQ, &pt, 0, v0, 0); IN(int64_t, v1); child(1, S_OPQ, &pt, 0, v1, 0); IN(int64_t, v2); child(2, S_OPQ, ty, 0, v2, 0);
  reg_[3].on = true; reg_[3].size = 8; reg_[3].base = v0; IN(uint64_t, obj);
  for (int k = 0; k < OBJSZ; k++) pat[k] = reg_[3].b[k] = k < 8 ? obj >> 8*k : nd64();
  reg_[2].on = true; reg_[2].size = 8; reg_[2].base = v1; IN(uint64_t, exp_); for (int k = 0; k < 8; k++) reg_[2].b[k] = exp_ >> 8*k;
  ASSUME((v0 & 7) == 0 && (v1 & 7) == 0); regions_disjoint(); LV.kind = ND_DEREF;
  R.kind = ND_CAS; R.cas_addr = &ch[0].n; R.cas_old = &ch[1].n; R.cas_new = &ch[2].n; R.ty = ty_bool;
  bool eq = norm(ty, obj) == norm(ty, exp_);
  gen_expr2(&R, false); counts(0, 1); counts(1, 1); counts(2, 1);
  if (eq) lv_store(v2);
#ifndef P19
  for (int k = 0; k < 8; k++) CHECK(reg_[2].b[k] == (k < ty->size ? (uint8_t)((eq ? exp_ : obj) >> 8*k) : (uint8_t)(exp_ >> 8*k)), "the expected value is updated exactly on failure");
#endif
  finish(&R, eq);
}
#define AS(name, ...) void h_##name(void) { run_asg(__VA_ARGS__); }
#define DI(name, ...) void h_##name(void) { run_deref_int(__VA_ARGS__); }
#define EX(name, ...) void h_##name(void) { run_exch(__VA_ARGS__); }
#define CS(name, ...) void h_##name(void) { run_cas(__VA_ARGS__); }
#include "cg_asg_gen.h"
