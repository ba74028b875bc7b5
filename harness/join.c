// C03: adjacent string literals -- over the real text of preprocess.c.
#include "vf.h"
#include "slimcc.h"
#ifdef VF_NATIVE
static void vf_exit(int c) { vf_reject(); }
#define exit(c) vf_exit(c)
#include "preprocess.c"
#undef exit
void error_tok(Token *tok, char *fmt, ...) { vf_reject(); }
#else
#include "preprocess.c"
void error_tok(Token *tok, char *fmt, ...) { CUT(); }
#include "model_mem.h"
#endif
// Up to three literals with prefixes 0 none 1 u8 2 u 3 U 4 L and up to two
// units each; the contents are their code units already.
static char *const pre[] = {"\"a\"", "u8\"a\"", "u\"a\"", "U\"a\"", "L\"a\""};
#define WID(k) ((k) < 2 ? 1 : (k) == 2 ? 2 : 4)
#define PF(i) ((i) == 0 ? P0 : (i) == 1 ? P1 : P2)
#define CN(i) ((i) == 0 ? C0 : (i) == 1 ? C1 : C2)
#define K (P0 ? P0 : P1 ? P1 : NN > 2 ? P2 : 0)
static File fl[3]; static Token tk0, tk1, tk2, tk3, conv[4];
#define TKP(i) ((i) == 0 ? &tk0 : (i) == 1 ? &tk1 : (i) == 2 ? &tk2 : &tk3)
 static uint32_t un[3][2]; static union { unsigned char b[12]; uint16_t h[6]; uint32_t w[3]; } st[3], st2[3];
static Type *base(int k) { return k < 2 ? ty_pchar : k == 2 ? ty_ushort : k == 3 ? ty_uint : ty_int; }
static Type *arr(int i, int k) { return array_of(base(k), CN(i) + 1); }
static int nconv;
// Contract: re-reads the literal in the wider encoding, keeping its place in the list.
Token *tokenize_string_literal(Token *tok, Type *basety) {
  int i = tok == &tk0 ? 0 : tok == &tk1 ? 1 : 2; CHECK(basety == base(K), "re-read in the encoding of the others"); nconv++;
  for (int j = 0; j < 3; j++) if (WID(K) == 2) st2[i].h[j] = j < CN(i) ? un[i][j] : 0; else st2[i].w[j] = j < CN(i) ? un[i][j] : 0;
  conv[i] = *tok; conv[i].ty = arr(i, K); conv[i].str = (char *)&st2[i]; return &conv[i];
}
static void lit(int i, Token *t) {
  for (int j = 0; j < 2; j++) { SET_IN(v, un[i][j]); un[i][j] &= 0x7f; }
  for (int j = 0; j < 3; j++) { uint32_t v = j < CN(i) ? un[i][j] : 0; if (WID(PF(i)) == 1) st[i].b[j] = v; else if (WID(PF(i)) == 2) st[i].h[j] = v; else st[i].w[j] = v; }
  t->kind = i < NN ? TK_STR : TK_PUNCT; t->loc = pre[PF(i)]; fl[i].name = "t"; fl[i].contents = pre[PF(i)]; t->file = &fl[i]; t->len = 4; t->ty = arr(i, PF(i)); t->str = (char *)&st[i]; t->next = TKP(i + 1);
}
void h_join(void) {
  nconv = 0; lit(0, &tk0); lit(1, &tk1); lit(2, &tk2); tk3.kind = TK_PUNCT; int total = C0 + C1 + (NN > 2 ? C2 : 0), narrow = (P0 < 2) + (P1 < 2) + (NN > 2 && P2 < 2);
  join_adjacent_string_literals(&tk0);
#ifndef GOOD
  CHECK(0, "literals of different encodings are not joined");
#else
  CHECK(nconv == (WID(K) > 1 ? narrow : 0), "exactly the unprefixed literals are re-read");
  CHECK(tk0.ty->kind == TY_ARRAY && tk0.ty->base == base(K) && tk0.ty->array_len == total + 1, "length is the sum of the parts, type that of the prefix");
  CHECK(tk0.next == TKP(NN), "the joined parts are consumed");
  int o = 0;
  for (int i = 0; i < NN; i++) for (int j = 0; j < CN(i); j++) { uint32_t g = WID(K) == 1 ? (unsigned char)tk0.str[o] : WID(K) == 2 ? ((uint16_t *)tk0.str)[o] : ((uint32_t *)tk0.str)[o]; CHECK(g == un[i][j], "units follow in order"); o++; }
  CHECK((WID(K) == 1 ? (unsigned char)tk0.str[o] : WID(K) == 2 ? ((uint16_t *)tk0.str)[o] : ((uint32_t *)tk0.str)[o]) == 0, "terminated"); REACH("end");
#endif
}
