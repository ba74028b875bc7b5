// C10 / C19: binary and unary integer operators.
#include "cg.h"
static Node R;
static void sym_init(void) { IN(uint64_t, symaddr); ASSUME(symaddr < 0x70000000); sym_addr = symaddr; }
// t, t1: operand types; s0, s1: operand shapes; i0, i1: type under a cast operand
static void run_binop(NodeKind k, int t, int t1, int s0, int i0, int s1, int i1, bool opt) {
  cg_init(opt); sym_init();
  child_inputs(0, s0, TY_(t), TY_(i0));
  child_inputs(1, s1, TY_(t1), TY_(i1));
  regions_disjoint();
  Type *ty = TY_(t), *rt = is_cmp(&(Node){.kind = k}) ? ty_int : ty;
  int64_t a = vf_val(&ch[0].n), b = vf_val(&ch[1].n);
  if (k == ND_DIV || k == ND_MOD) ASSUME(b != 0 && !(b == -1 && !ty->is_unsigned && a == norm(ty, 1ull << (ty->size*8-1))));
  if (k == ND_SHL || k == ND_SHR || k == ND_SAR) ASSUME(b >= 0 && b < ty->size * 8);
  if (k == ND_SHR) ASSUME(ty->is_unsigned);
  if (k == ND_SAR) ASSUME(!ty->is_unsigned);
  R.kind = k; R.ty = rt; R.lhs = &ch[0].n; R.rhs = &ch[1].n;
  int64_t want = vf_bin(k, rt, ty, TY_(t1), a, b);
  gen_expr2(&R, false);
  CHECK(m.live, "control reaches the end of the expression");
#ifndef P19
  CHECK(rax_is(&R, want), "generated code computes the C value of the operator");
  for (int i = 0; i < 2; i++)
    CHECK(ch[i].cnt == (ch[i].shape == S_OPQ || ch[i].shape == S_COPQ), "each operand is evaluated exactly once");
#endif
  cg_post();
  REACH("binop");
}
#define B(name, ...) void h_##name(void) { run_binop(__VA_ARGS__); }
#include "cg_ops_gen.h"
