// C18: the parser's side of a switch.  label_stmt on an arbitrary list of
// recorded ranges; stmt on an arbitrary controlling expression.
#include "vf.h"
static bool g_expect_error, g_bad;
#ifdef VF_NATIVE
static void vf_native_cut(void);
#endif
#include "parse.c"
#include "model_mem.h"
#include "types_spec.h"
static void err(void) { CHECK(g_bad, "well-formed labels are rejected"); CUT(); }
void error_tok(Token *t, char *f, ...) { err(); }
void verror_at_tok(Token *t, char *f, va_list ap) { err(); }
void error_ice(char *f, int32_t l) { err(); }
#include "tok_model.h"
char *format(char *fmt, ...) { static char nm[8][4]; static int k; return nm[k++ & 7]; }
#ifdef U_LABEL
static int64_t lv[5]; static int nread;
int64_t const_expr(Token **rest, Token *tok) {
#ifndef VF_NATIVE
  if (tok->kind != TK_INT_NUM) { CHECK(0, "label value position"); CUT(); }
#endif
  *rest = tok->next; return lv[tok->loc[0] - 'a'];
}
#ifndef VF_NATIVE
static char *new_unique_name(void) { static char nm[4]; return nm; }
#endif
#ifndef TOKS
#define TOKS "case a : case b ... c : ;"
#endif
#ifndef NOLD
#define NOLD 2
#endif
#ifndef OPT
#define OPT 1
#endif
#ifndef TX
#define TX 0
#endif
static Type *TYX(void) { return TX == 0 ? ty_int : TX == 1 ? ty_uint : TX == 2 ? ty_long : TX == 3 ? ty_ulong : TX == 4 ? ty_llong : ty_ullong; }
static bool le(Type *t, int64_t a, int64_t b) { return t->is_unsigned ? (uint64_t)a <= (uint64_t)b : a <= b; }
static CaseRange old[4]; static char olab[4][4];
static int hits(CaseRange *l, char *lab, int64_t v, Type *t) { int n = 0; for (; l; l = l->next) if (lab ? l->label == lab : l->label != 0) n += le(t, l->lo, v) && le(t, v, l->hi); return n; }
void h_label(void) {
  static Node sw, cond, labnode; static JumpContext ctx, inner; static Token dummy;
  sw = cond = (Node){0}; ctx = inner = (JumpContext){0};
  Type *ty = TYX(); cond.ty = ty; sw.kind = ND_SWITCH; sw.cond = &cond; ctx.switch_node = &sw;
  inner.next = &ctx; IN_BOOL(nested); jump_ctx = nested ? &inner : &ctx; // a loop inside the switch
  labels = 0; current_defr = 0; opt_optimize = OPT; ty_first_64bit_int = ty_long;
  // recorded so far: arbitrary disjoint ranges; one of them already merged away
  IN(int64_t, lo0); IN(int64_t, hi0); IN(int64_t, lo1); IN(int64_t, hi1); IN_BOOL(same); enum { nold = NOLD };
  int64_t L[2] = {lo0, lo1}, H[2] = {hi0, hi1};
  for (int i = 0; i < 2; i++) {
#ifdef VF_NATIVE
    L[i] = norm(ty, L[i]); H[i] = norm(ty, H[i]);
#endif
    ASSUME(normalized(ty, L[i]) && normalized(ty, H[i]) && le(ty, L[i], H[i]));
    old[i].lo = L[i]; old[i].hi = H[i]; old[i].label = olab[i];
  }
  ASSUME(!le(ty, lo0, hi1) || !le(ty, lo1, hi0)); if (same) old[1].label = olab[0];
  old[0].next = nold > 1 ? &old[1] : 0; old[1].next = 0;
  sw.cases = nold ? &old[0] : 0;
  // spec
  IN(int64_t, la); IN(int64_t, lb); IN(int64_t, lc); IN(int64_t, ld); IN(int64_t, le_); IN(int64_t, v);
  lv[0] = la; lv[1] = lb; lv[2] = lc; lv[3] = ld; lv[4] = le_;
  v = norm(ty, v);
  Type *lt[5] = {ty_long, ty_long, ty_long, ty_long, ty_long}; int64_t *leaf = lv;
  Token *tok = mk_tokens(TOKS, leaf, lt), *rest; int nt = 0;
  struct { int64_t lo, hi; } nw[4]; int n = 0; bool has_def = false;
  for (Token *t = tok; t->kind != TK_EOF; t = t->next) {
    if (tk_eq(t, "default")) has_def = true;
    if (!tk_eq(t, "case")) continue;
    nw[n].lo = norm(ty, lv[t->next->loc[0] - 'a']); nw[n].hi = nw[n].lo;
    if (tk_eq(t->next->next, "...")) nw[n].hi = norm(ty, lv[t->next->next->next->loc[0] - 'a']);
    n++;
  }
  for (Token *t = tok; t->kind != TK_EOF; t = t->next) if (t->kind == TK_IDENT) t->kind = TK_KEYWORD;
  bool bad = false, inn = false;
  for (int i = 0; i < n; i++) {
    if (!le(ty, nw[i].lo, nw[i].hi)) bad = true;
    for (int j = 0; j < i; j++) if (le(ty, nw[i].lo, nw[j].hi) && le(ty, nw[j].lo, nw[i].hi)) bad = true;
    for (int j = 0; j < nold; j++) if (le(ty, nw[i].lo, old[j].hi) && le(ty, old[j].lo, nw[i].hi)) bad = true;
    if (le(ty, nw[i].lo, v) && le(ty, v, nw[i].hi)) inn = true;
  }
  static CaseRange dd; IN_BOOL(haddef); if (haddef) { sw.default_case = &dd; dd.label = olab[3]; if (has_def) bad = true; } else sw.default_case = 0;
  g_bad = bad;
  char *was = 0; for (int j = 0; j < nold; j++) if (le(ty, old[j].lo, v) && le(ty, v, old[j].hi)) was = old[j].label;
  Node head, *cur = &head;
  head.next = 0;
  label_stmt(&cur, &rest, tok);
  CHECK(!bad, "overlapping, empty and repeated labels are rejected");
  char *mine = cur->unique_label;
  CHECK(cur != &head && head.next == cur && cur->kind == ND_LABEL && labels == cur, "the labels are attached to the statement");
  CHECK(tk_eq(rest, ";"), "the labels are consumed");
  char *now = 0; int cnt = 0;
  CaseRange *c = sw.cases;
  for (int i = 0; i < 6 && c; i++, c = c->next) if (c->label && le(ty, c->lo, v) && le(ty, v, c->hi)) { now = c->label; cnt++; }
  CHECK(c == 0, "no more ranges than labels");
  CHECK(cnt <= 1, "no two ranges contain the same value");
  CHECK(now == (inn ? mine : was), "every value leads to the statement of the label that names it");
  CHECK(!has_def || sw.default_case->label == mine, "default is recorded");
  CHECK(has_def || (haddef ? sw.default_case == &dd && dd.label == olab[3] : !sw.default_case), "default is kept");
  REACH("label");
}
#endif
#ifdef U_SWITCH
// switch ( a ) ; with an operand of any type
static Type *XT; static Member mem; static int bfw; static Node base, leafn, *body_ctx; static int XK; static bool seen; static Node *swn; static Type *cty;
#ifndef TXK
#define TXK 0
#endif
static Node *primary(Token **rest, Token *tok) {
  *rest = tok->next; leafn = (Node){0}; leafn.ty = XT; leafn.tok = tok; leafn.kind = BFF ? ND_MEMBER : ND_FUNCALL; if (BFF) { leafn.lhs = &base; leafn.member = &mem; }
  return &leafn;
}
static Type *types(int i) {
  switch (i) { case 0: return ty_bool; case 1: return ty_char; case 2: return ty_uchar; case 3: return ty_short; case 4: return ty_ushort; case 5: return ty_int; case 6: return ty_uint; case 7: return ty_long; case 8: return ty_ulong; case 9: return ty_llong; case 10: return ty_ullong; }
  return ty_pchar;
}
// the body sees the switch it belongs to
static Node *secondary_block(Token **rest, Token *tok) { seen = true; swn = jump_ctx->switch_node; cty = swn ? swn->cond->ty : 0; *rest = tok->next; return vf_calloc_(sizeof(Node)); }
void h_switch_ty(void) {
  ty_first_64bit_int = ty_long; ty_first_64bit_uint = ty_ulong; ty_size_t = ty_ulong; ty_intptr_t = ty_ptrdiff_t = ty_long;
  static Scope sc; static Obj fn; scope = &sc; current_fn = &fn; jump_ctx = 0; seen = false;
  IN_RANGE(int, w, 1, 64); XT = types(TXK); bfw = BFF ? w : 0; ASSUME(w <= XT->size * 8 && (XT->kind != TY_BOOL || w <= 1));
  mem = (Member){0}; base = (Node){0}; mem.ty = XT; mem.is_bitfield = BFF; mem.bit_width = w;
  base.kind = ND_VAR; static Type st = {TY_STRUCT, 8, 8}; base.ty = &st;
  Type *lt[5] = {0}; int64_t lfv[5] = {0};
  Token *tok = mk_tokens("switch ( a ) ;", lfv, lt), *rest; 
  Node *n = stmt(&rest, tok, 0);
  while (n && n->kind == ND_BLOCK) n = n->body;
  // C11 6.8.4.2: the integer promotions apply to the controlling expression
  Type *want = bfw ? (bfw < 32 || (bfw == 32 && !XT->is_unsigned) ? ty_int : bfw == 32 ? ty_uint : XT) : XT->size < 4 ? ty_int : XT;
  CHECK(n && n->kind == ND_SWITCH && seen && swn == n, "the labels of the body belong to this switch");
  CHECK(cty && cty->size == want->size && cty->is_unsigned == want->is_unsigned && cty->kind != TY_BOOL, "labels are converted to the promoted type of the controlling expression");
  Node *c = n->cond; int depth = 0;
  for (; c != &leafn && depth < 4; depth++) { CHECK(c && (c->kind == ND_CAST || c->kind == ND_POS), "the controlling value is only promoted"); c = c->lhs; }
  CHECK(c == &leafn, "the controlling value is the expression's");
  CHECK(jump_ctx == 0, "break and case leave the switch's scope with it");
  REACH("switch_ty");
}
#endif
