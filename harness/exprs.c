// C01/C05: whole integer constant expressions, from tokens through parser,
// typing and folding, against the C semantics of an independent front end
// (the verifier's own C front end; gcc in the native replay).
#include "vf.h"
#include "parse.c"
#include "model_mem.h"
#include "types_spec.h"
void error_tok(Token *t, char *f, ...) { CHECK(0, "well-formed constant expression rejected"); CUT(); }
void verror_at_tok(Token *t, char *f, va_list ap) { CHECK(0, "well-formed constant expression rejected"); CUT(); }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error for a well-formed expression"); CUT(); }
#include "tok_model.h"
#ifndef TOKS
#define TOKS "a + b"
#define CEXPR (a + b)
#define PRE 1
#endif
#define TYOF(T) (sizeof(T) == 4 ? ((T)-1 < 0 ? ty_int : ty_uint) : ((T)-1 < 0 ? ty_long : ty_ulong))
// Value of a op b computed in 64 bits on the converted operands, then converted
// to the result type: the same number, in the form solvers reduce directly.
#define OP64(op) ((RT)-1 < (RT)0 ? (int64_t)(RT)((int64_t)(RT)a op (int64_t)(RT)b) : (int64_t)(RT)((uint64_t)(RT)a op (uint64_t)(RT)b))
#ifndef VEXPR
#define VEXPR (CEXPR)
#endif
#ifndef OPT
#define OPT 1
#endif
#define ENTRY(name, TA, TB, TC, TD) void name(void) { \
  ty_intptr_t = ty_ptrdiff_t = ty_long; ty_size_t = ty_ulong; \
  ty_first_64bit_int = ty_long; ty_first_64bit_uint = ty_ulong; \
  opt_optimize = OPT; start(); \
  IN(TA, a); IN(TB, b); IN(TC, c); IN(TD, d); \
  ASSUME(PRE); \
  int64_t leaf[5] = {a, b, c, d, 0}; \
  Type *lt[5] = {TYOF(TA), TYOF(TB), TYOF(TC), TYOF(TD), 0}; \
  Token *t = mk_tokens(TOKS, leaf, lt), *rest = 0; Type *ty = 0; \
  int64_t r = const_expr2(&rest, t, &ty); \
  CHECK(rest->kind == TK_EOF, "the whole expression is consumed"); \
  typedef __typeof__(+(CEXPR)) RT; \
  CHECK(ty->size == sizeof(RT) && is_integer(ty), "result type has the size C prescribes"); \
  CHECK(ty->is_unsigned == !((RT)-1 < (RT)0), "result type has the signedness C prescribes"); \
  CHECK(r == (int64_t)(VEXPR), "value equals the value C prescribes"); \
  REACH("end"); \
}
static void start(void) {
#ifdef VF_NATIVE
  arena_on(&ast_arena); arena_on(&node_arena);
#endif
}
typedef unsigned u; typedef unsigned long ul; typedef long l; typedef int i;
ENTRY(h_iiii, i, i, i, i)
ENTRY(h_ii, i, i, i, i) ENTRY(h_iu, i, u, i, i) ENTRY(h_il, i, l, i, i) ENTRY(h_iw, i, ul, i, i)
ENTRY(h_ui, u, i, i, i) ENTRY(h_uu, u, u, i, i) ENTRY(h_ul, u, l, i, i) ENTRY(h_uw, u, ul, i, i)
ENTRY(h_li, l, i, i, i) ENTRY(h_lu, l, u, i, i) ENTRY(h_ll, l, l, i, i) ENTRY(h_lw, l, ul, i, i)
ENTRY(h_wi, ul, i, i, i) ENTRY(h_wu, ul, u, i, i) ENTRY(h_wl, ul, l, i, i) ENTRY(h_ww, ul, ul, i, i)
