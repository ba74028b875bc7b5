// Contracts of the token-stream helpers of tokenize.c as the parser sees them,
// and a builder of concrete token sequences with symbolic integer leaves.
#ifndef TOK_MODEL_H
#define TOK_MODEL_H
static bool tk_eq(Token *tok, const char *op) {
  int i = 0;
  for (; i < tok->len; i++) if (!op[i] || op[i] != tok->loc[i]) return false;
  return !op[i];
}
bool equal(Token *tok, char *op) { return tk_eq(tok, op); }
bool equal_ext(Token *tok, char *op) { return tk_eq(tok, op); }
Token *skip(Token *tok, char *op) {
  if (!equal(tok, op)) error_tok(tok, "expected %s", op);
  return tok->next;
}
bool consume(Token **rest, Token *tok, char *str) {
  if (equal(tok, str)) { *rest = tok->next; return true; }
  *rest = tok; return false;
}
#ifndef VF_REAL_NUM
Type *convert_pp_number(Token *tok, int64_t *val, long double *fval) { *val = tok->ival; return tok->ty; }
#endif
void warn_tok(Token *tok, char *fmt, ...) {}

#define TK_MAX 24
static Token tks[TK_MAX];
// Space-separated tokens; a lower-case letter a..e is the integer leaf number 0..4,
// words in upper case are keywords/type names given in lower case.
static Token *mk_tokens(const char *s, int64_t *leaf, Type **leafty) {
  int n = 0;
  static char zero[1];
  for (int i = 0; s[i];) {
    if (s[i] == ' ') { i++; continue; }
    Token *t = &tks[n]; *t = (Token){0}; t->loc = (char *)&s[i];
    int j = i; while (s[j] && s[j] != ' ') j++;
    t->len = j - i; t->kind = TK_PUNCT; t->next = &tks[n + 1];
    if (t->len == 1 && s[i] >= 'a' && s[i] <= 'e') {
      t->kind = TK_INT_NUM; t->ival = leaf[s[i] - 'a']; t->ty = leafty[s[i] - 'a'];
    } else if (s[i] >= 'a' && s[i] <= 'z') t->kind = TK_IDENT;
    i = j; n++;
  }
  tks[n] = (Token){0}; tks[n].kind = TK_EOF; tks[n].loc = zero; tks[n].len = 0;
  return &tks[0];
}
#endif
