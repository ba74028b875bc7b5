// C17: quoting.  What each quoting function writes is read back by the rules of
// its target (C string literal, make dependency) and must be the original text.
#include "vf.h"
#ifndef MAXLEN
#define MAXLEN 5
#endif
// Heap blocks of the functions under check: zeroed, of the size asked for.
#ifndef VF_NATIVE
static int slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static char vf_b0[40], vf_b1[40], vf_b2[40], vf_b3[40]; static size_t vf_sz[4]; static int vf_nblk;
static void *vf_block(size_t n) {
  CHECK(vf_nblk < 4 && n <= 40, "harness bound"); int k = vf_nblk++; vf_sz[k & 3] = n;
  return k == 0 ? vf_b0 : k == 1 ? vf_b1 : k == 2 ? vf_b2 : vf_b3;
}
static void fits(const char *q, int n) {
  const int k = q == vf_b0 ? 0 : q == vf_b1 ? 1 : q == vf_b2 ? 2 : q == vf_b3 ? 3 : -1;
  if (k >= 0) CHECK((size_t)n < vf_sz[k], "the text fits the block allocated for it");
}
#define calloc(a, b) vf_block((a) * (b))
#define malloc(a) vf_block(a)
static void *vf_memcpy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
#define memcpy(d, s, n) vf_memcpy((char *)(d), (const char *)(s), n)
#define strlen(s) (size_t)slen(s)
#else
static int slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
#define fits(q, n) ((void)0)
#endif
#ifndef N
#define N MAXLEN
#endif

// reads the body of a C string literal; false if it is not one
static bool unquote_c(const char *q, char *out, int *n) {
  int k = 0, i = 0;
  for (; q[i]; i++) {
    if (q[i] == '"') return false;
    if (q[i] == '\\') { i++; if (q[i] != '\\' && q[i] != '"') return false; }
    out[k++] = q[i];
  }
  *n = k; return true;
}
#ifdef U_ESC
#include "slimcc.h"
#include "strings.c"
void h_escape(void) {
  char s[MAXLEN + 1]; const int n = N; IN(uint64_t, bytes);
  for (int i = 0; i < MAXLEN; i++) { s[i] = bytes >> 8*i; 
#ifdef VF_NATIVE
    s[i] = "\\\"a$ "[(uint8_t)s[i] % 5];
#endif
    if (i < n) ASSUME(s[i] != 0); } s[n] = 0;
  char *q = escape_string(s), out[2 * MAXLEN + 2]; int m;
  CHECK(unquote_c(q, out, &m) && m == n, "the quoted text reads back as a string of the same length");
  for (int i = 0; i < MAXLEN; i++) if (i < n) CHECK(out[i] == s[i], "the quoted text reads back as the original");
  CHECK(slen(q) <= 2 * n, "only quotes and backslashes are escaped");
  fits(q, m + 0); fits(q, slen(q)); REACH("escape");
}
#endif
#ifdef U_MAKE
#ifndef VF_NATIVE
char *strchr(const char *s, int c) { while (*s && *s != c) s++; return *s == c ? (char *)s : 0; }
#endif
#define main slimcc_main
#include "main.c"
#undef main
// GNU make: $$ is $, \# is #, and before a space an odd run of backslashes is halved and the space kept
static bool unmake(const char *q, char *out, int *n) {
  int k = 0;
  for (int i = 0; q[i];) {
    if (q[i] == '$') { if (q[i + 1] != '$') return false; out[k++] = '$'; i += 2; continue; }
    if (q[i] == ' ' || q[i] == '\t' || q[i] == '#') return false; // ends the name
    if (q[i] == '\\') {
      int r = 0; while (q[i + r] == '\\') r++;
      char c = q[i + r];
      if (c == ' ' || c == '\t') { if (!(r & 1)) return false; for (int j = 0; j < r / 2; j++) out[k++] = '\\'; out[k++] = c; i += r + 1; continue; }
      if (c == '#') { for (int j = 0; j < r - 1; j++) out[k++] = '\\'; out[k++] = c; i += r + 1; continue; }
      for (int j = 0; j < r; j++) out[k++] = '\\'; i += r; continue;
    }
    out[k++] = q[i++];
  }
  *n = k; return true;
}
void h_make(void) {
  char s[MAXLEN + 1]; const int n = N; IN(uint64_t, bytes);
  for (int i = 0; i < MAXLEN; i++) { s[i] = bytes >> 8*i;
#ifdef VF_NATIVE
    s[i] = "\\#a$ \t"[(uint8_t)s[i] % 6];
#endif
    if (i < n) ASSUME(s[i] != 0); } s[n] = 0;
  char *q = quote_makefile(s), out[4 * MAXLEN + 2]; int m = 0;
  CHECK(unmake(q, out, &m) && m == n, "make reads the quoted name as one name of the same length");
  for (int i = 0; i < MAXLEN; i++) if (i < n) CHECK(out[i] == s[i], "make reads back the original name");
  fits(q, slen(q)); REACH("make");
}
#endif
#ifdef U_JOIN
#include "preprocess.c"
#include "model_mem.h"
void error_tok(Token *t, char *f, ...) { CHECK(0, "text rejected"); CUT(); }
#ifndef NT
#define NT 2
#endif
#ifndef TL
#define TL 3
#endif
void h_join(void) {
  static Token t[NT + 1]; static char txt[NT][TL]; static char exp[1 + NT * (TL * 2 + 1)]; int n = 0;
  for (int i = 0; i < NT; i++) {
    IN(uint32_t, bytes); const int len = i ? L1 : L0; const int kind = i ? K1 : K0; IN_BOOL(sp); IN_BOOL(bol);
    t[i] = (Token){0}; t[i].len = len; t[i].loc = txt[i]; t[i].has_space = sp; t[i].at_bol = bol; t[i].next = &t[i + 1];
    t[i].kind = kind == 0 ? TK_STR : kind == 1 ? TK_INT_NUM : kind == 2 ? TK_IDENT : TK_PUNCT;
    // one space wherever the source had white space, none at the start
    if (i && (sp || bol)) exp[n++] = ' ';
    for (int k = 0; k < TL; k++) {
      char c = bytes >> 8*k;
#ifdef VF_NATIVE
      c = "\\\"ab"[c & 3];
#endif
      txt[i][k] = c; if (k >= len) continue;
      ASSUME(c != 0); // string and character literals are escaped, everything else is kept
      if (kind <= 1 && ESC && (c == '\\' || c == '"')) exp[n++] = '\\';
      exp[n++] = c;
    }
  }
  t[NT] = (Token){0}; t[NT].kind = TK_EOF;
  char *r = join_tokens(&t[0], &t[NT], ESC);
  CHECK(slen(r) == n, "the joined text has the spelling the standard prescribes");
  for (int i = 0; i < (int)sizeof exp; i++) if (i < n) CHECK(r[i] == exp[i], "the joined text has the spelling the standard prescribes");
  fits(r, n); REACH("join");
}
// placemarkers vanish; the result is the joined text between quotes
static char *got; static File fl;
Token *tokenize(File *f, Token **end) { got = f->contents; static Token r; return &r; }
File *new_file(char *name, int no, char *contents) { fl.contents = contents; return &fl; }
void h_stringize(void) {
  static Token a, b, c, e, hash; static File df; a = b = c = e = hash = (Token){0}; hash.file = &df; a.loc = "ab"; a.len = 2; b.loc = "\"\\\""; b.len = 3; c.loc = "x"; c.len = 1;
  IN_RANGE(int, pm, 0, 2); IN_BOOL(sp);
  a.kind = pm == 0 ? TK_PMARK : TK_IDENT; b.kind = pm == 1 ? TK_PMARK : TK_STR; c.kind = pm == 2 ? TK_PMARK : TK_IDENT; e.kind = TK_EOF; b.has_space = c.has_space = sp;
  a.next = &b; b.next = &c; c.next = &e; got = 0;
  stringize(&hash, &a);
  const char *w = pm == 0 ? (sp ? "\"\\\"\\\\\\\" x\"" : "\"\\\"\\\\\\\"x\"") : pm == 1 ? (sp ? "\"ab x\"" : "\"abx\"") : (sp ? "\"ab \\\"\\\\\\\"\"" : "\"ab\\\"\\\\\\\"\"");
  CHECK(got && slen(got) == slen(w), "# yields the spelling of its argument between quotes");
  for (int i = 0; i < 12 && w[i]; i++) CHECK(got[i] == w[i], "# yields the spelling of its argument between quotes");
  fits(got, slen(got)); REACH("stringize");
}
// names: whatever the compiler puts between quotes reads back as the name
#ifdef REALESC
#include "strings.c"
#endif
void h_name(void) {
  char s[4]; const int n = N; IN(uint32_t, bytes); IN_BOOL(base);
  for (int i = 0; i < 3; i++) { s[i] = bytes >> 8*i;
#ifdef VF_NATIVE
    s[i] = "\\\"ab"[s[i] & 3];
#endif
    if (i < n) ASSUME(s[i] != 0); } s[n] = 0;
  static Token t, nx; static File f, d; t = nx = (Token){0}; t.file = &f; f.display_file = &d; d.name = s; f.name = "z"; base_file = s; t.next = &nx; got = 0;
  Token *r = base ? base_file_macro(&t) : file_macro(&t);
  CHECK(got && slen(got) >= 2 && got[0] == '"' && got[slen(got) - 1] == '"', "the name is placed between quotes");
  got[slen(got) - 1] = 0; char out[16]; int m = -1;
  CHECK(unquote_c(got + 1, out, &m) && m == n, "the string token reads back as the name");
  for (int i = 0; i < 3; i++) if (i < n) CHECK(out[i] == s[i], "the string token reads back as the name");
  CHECK(r->next == &nx, "the rest of the line is kept");
  REACH("name");
}
#endif
