// Lexical properties: C02 integer literals, C03 characters and strings,
// C04 token extents, C16 newline handling -- over the real text of tokenize.c
// and unicode.c.
#include "vf.h"
#include "slimcc.h"
static int must_accept;
#ifdef VF_NATIVE
static void vf_exit(int c) { CHECK(!must_accept, "valid text rejected"); vf_reject(); }
#define exit(c) vf_exit(c)
#define stderr ((FILE *)devnull())
static FILE *devnull(void) { static FILE *f; if (!f) f = fopen("/dev/null", "w"); return f; }
#include "unicode.c"
#include "tokenize.c"
#undef exit
#undef stderr
#define FILE_INIT() static File fl; tok_freelist = NULL; static char fc[2] = "\n"; fl.name = "t"; fl.contents = fc; current_file = &fl
#else
#include "unicode.c"
#ifdef UNIT_SCUT
static void *lit_alloc(long sz, long n);
#define calloc lit_alloc
#endif
#include "tokenize.c"
#undef calloc
static bool rejected;
#define FILE_INIT() static File fl; current_file = &fl; tok_freelist = NULL
void error_at(char *loc, char *fmt, ...) { CHECK(!must_accept, "valid text rejected"); rejected = true; CUT(); }
void error_tok(Token *tok, char *fmt, ...) { CHECK(!must_accept, "valid text rejected"); rejected = true; CUT(); }
#endif

// ------------------------------------------------------------------ C02 ----
#ifdef UNIT_INT
#define MAXD 3
static char txt[40]; static int tn;
static int g_base, g_start, g_nd; static uint64_t g_val; static bool g_called;
static bool isdig(int c, int base) { return base == 16 ? (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') : c >= '0' && c < '0' + base; }
static int dv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
#ifndef VF_NATIVE
// Contract of strtoul (C library): reads the longest run of digits of the base
// and returns its value.
unsigned long strtoul(const char *p, char **e, int base) {
  CHECK(base == g_base, "digits are read in the base of the literal"); CHECK(p == &txt[g_start] || (g_base == 8 && p == &txt[0]), "digits are read from the start of the literal");
  g_called = true; *e = &txt[g_start + g_nd]; return g_val;
}
#endif
static const int bases[4] = {10, 8, 16, 2};
// suffix classes: 0 none, 1 u, 2 l, 3 ul, 4 ll, 5 ull, -1 invalid
static int sufcls(const char *s, int n) {
  bool u = false; int l = 0, i = 0;
  if (i < n && (s[i] == 'u' || s[i] == 'U')) { u = true; i++; }
  if (i + 1 < n && ((s[i] == 'l' && s[i+1] == 'l') || (s[i] == 'L' && s[i+1] == 'L'))) { l = 2; i += 2; }
  else if (i < n && (s[i] == 'l' || s[i] == 'L')) { l = 1; i++; }
  if (!u && i < n && (s[i] == 'u' || s[i] == 'U')) { u = true; i++; }
  if (i != n) return -1;
  return l == 0 ? (u ? 1 : 0) : l == 1 ? (u ? 3 : 2) : (u ? 5 : 4);
}
static Type *want(int base, int cls, uint64_t v) {
  bool dec = base == 10;
  switch (cls) {
  case 0: if (v < 1ul << 31) return ty_int; if (!dec && v < 1ul << 32) return ty_uint; if (v < 1ul << 63) return ty_long; return ty_ulong;
  case 1: return v < 1ul << 32 ? ty_uint : ty_ulong;
  case 2: return v < 1ul << 63 ? ty_long : ty_ulong;
  case 3: return ty_ulong;
  case 4: return v < 1ul << 63 ? ty_llong : ty_ullong;
  }
  return ty_ullong;
}
void h_int(void) {
  FILE_INIT(); must_accept = 0;
  IN_RANGE(int, bi, 0, 3); int base = bases[bi]; IN_RANGE(int, nd, 1, MAXD); IN_RANGE(int, ns, 0, 4); IN_BOOL(up); tn = 0; g_called = false;
  if (base == 16) { txt[tn++] = '0'; txt[tn++] = up ? 'X' : 'x'; } else if (base == 2) { txt[tn++] = '0'; txt[tn++] = up ? 'B' : 'b'; } else if (base == 8) txt[tn++] = '0';
  // the 0 of an octal literal is itself a digit
  g_base = base; g_start = tn; uint64_t acc = 0; if (base == 8) { IN_BOOL(just0); if (just0) nd = 0; }
  for (int i = 0; i < MAXD; i++) if (i < nd) { IN_RANGE(char, d, '0', 'f'); ASSUME(isdig(d, base)); if (base == 10 && i == 0) ASSUME(d != '0'); txt[tn++] = d; acc = acc * base + dv(d); }
  g_nd = nd;
#ifdef VF_NATIVE
  // natively the text is the value: extend to many digits
  { IN(uint64_t, big); if (base == 10) ASSUME(big < 1ul << 63); static const char *f[] = {"%lu", "0%lo", "0x%lx", 0};
    if (big && bi < 3) { tn = snprintf(txt, sizeof txt, f[bi], (unsigned long)big); acc = big; }
    if (big && bi == 3) { tn = 0; txt[tn++] = '0'; txt[tn++] = 'b'; int k = 63; big &= 0xfffffffff; if (!big) big = 1; while (!(big >> k)) k--; for (; k >= 0; k--) { if (tn < 36) txt[tn++] = '0' + (big >> k & 1); } acc = big; if (tn >= 36) vf_reject(); } }
  g_val = acc;
#else
  IN(uint64_t, v); g_val = v; if (base == 10) ASSUME(v < 1ul << 63);
#endif
  int s0 = tn;
  static const char al[] = "uUlLzfe.";
  for (int i = 0; i < 4; i++) if (i < ns) { IN_RANGE(int, c, 0, 7); txt[tn++] = al[c]; }
  if (ns > 0) ASSUME(!isdig(txt[s0], base));
  int cls = sufcls(&txt[s0], ns);
  for (int i = 0; i < 2; i++) txt[tn + i] = 0;
  if (cls == 4 || cls == 2 || cls == 0) if (base == 10) ASSUME(g_val < 1ul << 63);
  Type *ty = 0; int64_t r = 0;
  bool ok = convert_pp_int(txt, tn, &ty, &r);
  CHECK(ok == (cls >= 0), "exactly the well-formed integer literals are integers");
  if (ok) { CHECK((uint64_t)r == g_val, "value is the number written"); CHECK(ty == want(base, cls, g_val), "type is the first of the list C gives in which the value fits"); }
  REACH("end"); if (ok) REACH("accepted"); else REACH("not an integer");
}
#endif
#ifdef UNIT_SEP
// convert_pp_number: digit separators are dropped, everything else is passed on.
static char src[16], exp_[16]; static int el; static Token T; static bool is_int; static Type *rt; static int64_t rv; static char *g_end; static int g_fl; static bool called;
#ifndef VF_NATIVE
static bool convert_pp_int(char *loc, int len, Type **t, int64_t *v) {
  CHECK(len == el, "text without separators"); int k; ASSUME(k >= 0 && k < 16); if (k < el) CHECK(loc[k] == exp_[k], "text without separators"); CHECK(loc[el] == 0, "terminated"); called = true;
  if (is_int) { *t = rt; *v = rv; } return is_int;
}
long double strtold(const char *p, char **e) { *e = (char *)p + g_fl; return 1; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) for (const char *q = set; *q; q++) if (*s == *q) return (char *)s; return 0; }
void h_sep(void) {
  FILE_INIT(); must_accept = 1; IN_RANGE(int, n, 1, 10); el = 0;
  static const char al[] = "01289aefxX.plLuU'";
  for (int i = 0; i < 10; i++) if (i < n) { uint8_t c; ASSUME(c < sizeof al - 1); src[i] = al[c]; if (src[i] != '\'') exp_[el++] = src[i]; }
  ASSUME(el > 0);
  T.kind = TK_PP_NUM; T.loc = src; T.len = n; bool b; is_int = b; rt = ty_ulong; int64_t v; rv = v;
  int64_t o = 0; long double f; 
  bool point = false; for (int i = 0; i < 16; i++) if (i < el && (exp_[i] == '.' || exp_[i] == 'e' || exp_[i] == 'p')) point = true;
  int fu; ASSUME(fu >= 0 && fu <= el); g_fl = fu; char c = fu < el ? exp_[fu] : 0;
  if (!is_int) { int used = fu + (c == 'f' || c == 'F' || c == 'l' || c == 'L'); must_accept = used == el && (point || c == 'f' || c == 'F'); }
  Type *ty = convert_pp_number(&T, &o, &f);
  CHECK(called, "integer form is tried first"); CHECK(!is_int || (ty == rt && o == rv), "integer value and type are passed on");
  if (!is_int) { int used = fu + (c == 'f' || c == 'F' || c == 'l' || c == 'L');
    CHECK(used == el, "every character of the literal is used"); CHECK(point || ty == ty_float, "digits only, not a valid integer: rejected");
    CHECK(ty == (c == 'f' || c == 'F' ? ty_float : c == 'l' || c == 'L' ? ty_ldouble : ty_double), "floating suffix selects the type"); }
  REACH("end");
}
#else
void h_sep(void) {
  FILE_INIT(); must_accept = 1; IN_RANGE(int, n, 1, 12); int64_t o = 0; long double f; uint64_t v = 0; int l = 0;
  IN_RANGE(int, d0, '1', '9'); src[l++] = d0; v = d0 - '0';
  for (int i = 1; i < n && l < 13; i++) { IN_BOOL(sep); if (sep) src[l++] = '\''; IN_RANGE(int, d, '0', '9'); src[l++] = d; v = v * 10 + d - '0'; }
  T = (Token){0}; T.kind = TK_PP_NUM; T.loc = src; T.len = l; T.file = current_file;
  Type *ty = convert_pp_number(&T, &o, &f); CHECK(o == v && is_integer(ty), "text without separators");
  IN_BOOL(bad); if (!bad) return;
  must_accept = 0; IN_RANGE(int, e, 0, 7); src[0] = '0'; src[1] = '0' + e; src[2] = '8'; src[3] = 'u'; IN_RANGE(int, m, 2, 4); T.len = m; if (m == 2) src[1] = '9';
  Type *t2 = convert_pp_number(&T, &o, &f); CHECK(0, "digits only, not a valid integer: rejected");
}
#endif
#endif

// ------------------------------------------------------------------ C03 ----
#ifdef UNIT_UTF
static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static int enc(unsigned char *b, uint32_t c) { // RFC 3629
  if (c < 0x80) { b[0] = c; return 1; }
  if (c < 0x800) { b[0] = 0xC0 + c / 64; b[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { b[0] = 0xE0 + c / 4096; b[1] = 0x80 + c / 64 % 64; b[2] = 0x80 + c % 64; return 3; }
  b[0] = 0xF0 + c / 262144; b[1] = 0x80 + c / 4096 % 64; b[2] = 0x80 + c / 64 % 64; b[3] = 0x80 + c % 64; return 4;
}
void h_utf(void) {
  FILE_INIT(); must_accept = 1; IN_RANGE(uint32_t, c, 0, 0x10FFFF); ASSUME(scalar(c));
  char b[8] = {1, 1, 1, 1, 1, 1, 1, 1}; unsigned char e[8]; int n = encode_utf8(b, c), m = enc(e, c);
  CHECK(n == m, "encoded length"); for (int i = 0; i < 4; i++) if (i < m) CHECK((unsigned char)b[i] == e[i], "encoded bytes are the UTF-8 form");
  for (int i = 0; i < 4; i++) if (i >= m) CHECK(b[i] == 1, "nothing else is written");
  char *q = 0; uint32_t d = decode_utf8(&q, (char *)e);
  CHECK(d == c, "decoding yields the character"); CHECK(q == (char *)e + m, "decoding consumes exactly its bytes"); REACH("end");
}
void h_utfbad(void) {
  FILE_INIT(); must_accept = 0; char b[5]; for (int i = 0; i < 4; i++) { SET_IN(b, b[i]); } b[4] = 0; char *q = 0; fl.contents = b;
  uint32_t d = decode_utf8(&q, b); int n = q - b;
  CHECK(n >= 1 && n <= 4, "one character consumed");
  CHECK((n == 1) == ((unsigned char)b[0] < 0x80), "only ASCII is a single byte");
  for (int i = 1; i < 4; i++) if (i < n) CHECK(((unsigned char)b[i] & 0xC0) == 0x80, "every further byte is a continuation byte");
  CHECK(n == 1 || ((unsigned char)b[0] >> (7 - n) | 1) == (unsigned)((1 << (n + 1)) - 1) || n == 4, "lead byte announces the length"); CHECK((unsigned char)b[0] < 0x80 || (unsigned char)b[0] >= 0xC0, "a continuation byte starts no character"); REACH("end");
}
#endif
#ifdef UNIT_ESC
static char et[16];
void h_esc(void) {
  FILE_INIT(); must_accept = 0; 
  IN_RANGE(int, nx, 0, 9); for (int i = 0; i < 12; i++) { SET_IN(e, et[i]); } et[12] = 0;
  char *q = 0; 
  int want = 0, len = 0; unsigned char c = et[0];
  if (c >= '0' && c <= '7') { for (; len < 3 && et[len] >= '0' && et[len] <= '7'; len++) want = want * 8 + et[len] - '0'; must_accept = 1; }
  else if (c == 'x') {
    unsigned w = 0; for (len = 1; len < 10 && ((et[len] >= '0' && et[len] <= '9') || (et[len] >= 'a' && et[len] <= 'f') || (et[len] >= 'A' && et[len] <= 'F')); len++)
      w = w * 16 + (et[len] <= '9' ? et[len] - '0' : (et[len] | 32) - 'a' + 10);
    ASSUME(len < 10); want = w; must_accept = len > 1; }
  else { len = 1; must_accept = 1; want = c == 'a' ? 7 : c == 'b' ? 8 : c == 't' ? 9 : c == 'n' ? 10 : c == 'v' ? 11 : c == 'f' ? 12 : c == 'r' ? 13 : c == 'e' ? 27 : (char)c; ASSUME(c && c != 'u' && c != 'U' && c != 'N'); }
  int r = read_escaped_char(&q, et);
  CHECK(must_accept, "a hexadecimal escape has a digit"); CHECK(r == want, "escape denotes the value C gives it"); CHECK(q == et + len, "escape consumes exactly its characters"); REACH("end");
}
#ifndef VF_NATIVE
// string_literal_end, literals of any length: one step from any element.
#define MAXLEN 1000000
static char *SB; static int sph, sa, sml;
static bool endcut(char **p) {
  if (sph++ == 0) { CHECK(*p == SB, "search starts at the first element"); int a; ASSUME(a >= 0 && a < sml - 2); sa = a; *p = SB + a; }
  else { CHECK(SB[sa] != '"' && SB[sa] != '\n' && SB[sa] != 0, "no quote, newline or end is stepped over"); CHECK(*p == SB + sa + (SB[sa] == '\\' ? 2 : 1), "one element is passed, an escaped character with its backslash"); CUT(); }
  return true;
}
void h_endcut(void) { FILE_INIT(); must_accept = 0; int ml; ASSUME(ml > 8 && ml < MAXLEN); SB = malloc(ml); ASSUME(SB != 0); sml = ml; sph = 0; char *e = string_literal_end(SB); CHECK(*e == '"' && e == SB + sa, "literal ends at the first quote not escaped"); REACH("end"); }
#endif
void h_strend(void) {
  FILE_INIT(); char s[7]; IN_RANGE(int, n, 0, 6); for (int i = 0; i < 6; i++) { SET_IN(s, s[i]); if (i >= n) s[i] = '"'; } s[6] = '"';
  // a terminating quote exists: every text before it closes there
  int i = 0; bool bad = false; while (i < 6 && !bad) { if (s[i] == '"') break; if (s[i] == '\n' || s[i] == 0) bad = true; if (s[i] == '\\') i++; i++; }
  ASSUME(i <= 6 && !bad); must_accept = 1;
  CHECK(string_literal_end(s) == s + i, "literal ends at the first quote not escaped"); REACH("end");
}
#endif
#if defined(UNIT_STR) || (defined(UNIT_SCUT) && defined(VF_NATIVE))
// One source element (character or escape) of a string literal contributes its
// code units; the literal is the concatenation.
static char st[24]; static int sp; static uint32_t unit[16]; static int un;
static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static void put(uint32_t c) {
  if (c < 0x80) st[sp++] = c; else if (c < 0x800) { st[sp++] = 0xC0 + c / 64; st[sp++] = 0x80 + c % 64; }
  else if (c < 0x10000) { st[sp++] = 0xE0 + c / 4096; st[sp++] = 0x80 + c / 64 % 64; st[sp++] = 0x80 + c % 64; }
  else { st[sp++] = 0xF0 + c / 262144; st[sp++] = 0x80 + c / 4096 % 64; st[sp++] = 0x80 + c / 64 % 64; st[sp++] = 0x80 + c % 64; }
}
static void element(int kind, int W) {
  if (kind == 0) { IN_RANGE(uint32_t, c, 1, 0x7f); ASSUME(c != '"' && c != '\\' && c != '\n'); put(c); unit[un++] = c; }
  else if (kind == 1) { IN_RANGE(uint32_t, c, 0x80, 0x10FFFF); ASSUME(scalar(c)); int s = sp; put(c);
    if (W == 1) for (int i = s; i < sp; i++) unit[un++] = (unsigned char)st[i];
    else if (W == 2 && c >= 0x10000) { unit[un++] = 0xD7C0 + c / 1024; unit[un++] = 0xDC00 + c % 1024; }
    else unit[un++] = c; }
  else if (kind == 2) { IN_RANGE(char, e, 33, 126); ASSUME(e != 'x' && e != 'u' && e != 'U' && !(e >= '0' && e <= '7')); st[sp++] = '\\'; st[sp++] = e;
    unit[un++] = e == 'a' ? 7 : e == 'b' ? 8 : e == 't' ? 9 : e == 'n' ? 10 : e == 'v' ? 11 : e == 'f' ? 12 : e == 'r' ? 13 : e == 'e' ? 27 : e; }
  else { IN_RANGE(int, v, 0, 255); st[sp++] = '\\'; st[sp++] = '0' + (v >> 6 & 7); st[sp++] = '0' + (v >> 3 & 7); st[sp++] = '0' + (v & 7); unit[un++] = v; }
}
#endif
#ifdef UNIT_SCUT
// The literal readers for literals of any length: one pass of the copy loop
// from an arbitrary state, escapes and UTF-8 decoding by contract.
#ifndef VF_NATIVE
#define MAXLEN 1000000
static char *B; static int Q, E, ph, gl, gpo, w; static uint32_t wv; static int esc_v; static uint32_t dec_c; static int adv; static bool used_e, used_d; static void *gbuf; static int gcap;
#if WIDTH == 2
typedef uint16_t UT;
#elif WIDTH == 4
typedef uint32_t UT;
#else
typedef unsigned char UT;
#endif
char *string_literal_end(char *p) { CHECK(p == B + Q + 1, "the end is looked for after the opening quote"); return B + E; }
int read_escaped_char(char **np, char *p) { CHECK(p == B + gpo + 1 && B[gpo] == '\\', "escape follows the backslash"); *np = B + gpo + adv; used_e = true; return esc_v; }
uint32_t decode_utf8(char **np, char *p) { CHECK(p == B + gpo, "decoded in place"); *np = B + gpo + adv; used_d = true; return dec_c; }
static void *lit_alloc(long sz, long n) { CHECK(sz == WIDTH, "unit size"); CHECK(n >= E - Q && n <= 2 * MAXLEN, "room for every unit and the terminator"); UT *r = malloc(sizeof(UT) * n); ASSUME(r != 0); gbuf = r; gcap = n; return r; }
static bool scut(char **p, int *len) {
  UT *buf = gbuf;
  if (ph++ == 0) {
    CHECK(*p == B + Q + 1 && *len == 0, "starts after the opening quote"); int a, l; ASSUME(a > Q && a <= E && l >= 0 && l <= a - Q - 1); *p = B + a; *len = l; gl = l; gpo = a;
    ASSUME(w >= 0 && w < gcap); if (w < l) wv = buf[w]; else ASSUME(buf[w] == 0);
    // everything from len on is still zero (fresh zeroed memory)
    ASSUME(buf[l] == 0); if (l + 1 < gcap) ASSUME(buf[l + 1] == 0);
    if (a < E) { bool esc = B[a] == '\\'; ASSUME(adv >= (esc ? 2 : 1) && adv <= MAXLEN && a + adv <= E); }
    ASSUME(dec_c <= 0x10FFFF && (dec_c < 0x10000 || adv == 4)); }
  else {
    bool esc = B[gpo] == '\\'; int nu = 1, consumed = adv; uint32_t u0, u1 = 0;
    if (esc) { CHECK(used_e && !used_d, "escape is interpreted"); u0 = (UT)esc_v; }
    else if (WIDTH == 1) { consumed = 1; u0 = (unsigned char)B[gpo]; CHECK(!used_e, "bytes are copied"); }
    else { CHECK(used_d && !used_e, "character is decoded"); if (WIDTH == 2 && dec_c >= 0x10000) { nu = 2; u0 = 0xD7C0 + dec_c / 1024; u1 = 0xDC00 + dec_c % 1024; } else u0 = dec_c; }
    CHECK(*p == B + gpo + consumed, "source position moves past the element"); CHECK(*len == gl + nu, "one element yields its units"); CHECK(*len <= *p - (B + Q + 1), "units never exceed the bytes read");
    CHECK(buf[gl] == (UT)u0, "code unit is the one the source denotes"); if (nu == 2) CHECK(buf[gl + 1] == (UT)u1, "second unit of the pair");
    if (w < gl) CHECK(buf[w] == wv, "earlier units stay"); if (w >= *len) CHECK(buf[w] == 0, "nothing is written past the units"); CUT(); }
  return true;
}
static Token T0; static int tkind; static char *ts, *te;
static Token *new_token(TokenKind k, char *st, char *en) { tkind = k; ts = st; te = en; return &T0; }
static Type *aty, *abase; static int alen; static Type AT;
Type *array_of(Type *b, int64_t n) { abase = b; alen = n; return &AT; }
void h_scut(void) {
  FILE_INIT(); int len, q, e; ASSUME(len >= 2 && len <= MAXLEN && q >= 0 && q < e && e < len); B = malloc(len + 1); ASSUME(B != 0); Q = q; E = e; ASSUME(B[Q] == '"' && B[E] == '"');
  ph = 0; static Type bt; bt.size = WIDTH; { int a, b, c; uint32_t d; adv = a; esc_v = b; w = c; dec_c = d; }
  Token *t = WIDTH == 1 ? read_string_literal__body(B, B + Q) : WIDTH == 2 ? read_utf16_string_literal__body(B, B + Q) : read_utf32_string_literal__body(B, B + Q, &bt);
  CHECK(t == &T0 && tkind == TK_STR && ts == B && te == B + E + 1, "token covers the literal");
  CHECK(t->ty == &AT && alen == gl + 1 && abase == (WIDTH == 1 ? ty_pchar : WIDTH == 2 ? ty_ushort : &bt), "array of one code unit each plus the terminator");
  CHECK(t->str == (char *)gbuf && ((UT *)gbuf)[gl] == 0, "terminated by a zero unit"); if (w < gl) CHECK(((UT *)gbuf)[w] == wv, "units are those collected"); REACH("end");
}
static Token *read_string_literal(char *a, char *b) { return 0; }
static Token *read_utf16_string_literal(char *a, char *b) { return 0; }
static Token *read_utf32_string_literal(char *a, char *b, Type *c) { return 0; }
#else
void h_scut(void) {
  FILE_INIT(); must_accept = 1; sp = un = 0; st[sp++] = '"';
  IN_RANGE(int, ne, 0, 3); for (int i = 0; i < ne; i++) { IN_RANGE(int, k, 0, 3); element(k, WIDTH); }
  st[sp++] = '"'; st[sp] = ';'; Type bt = *ty_uint; 
  Token *t = WIDTH == 1 ? read_string_literal(st, st) : WIDTH == 2 ? read_utf16_string_literal(st, st) : read_utf32_string_literal(st, st, &bt);
  CHECK(t->kind == TK_STR && t->loc == st && t->len == sp, "token covers the literal"); 
  CHECK(t->ty->kind == TY_ARRAY && t->ty->array_len == un + 1 && t->ty->base == (WIDTH == 1 ? ty_pchar : WIDTH == 2 ? ty_ushort : &bt), "array of one code unit each plus the terminator");
  for (int i = 0; i <= un; i++) { uint32_t g = WIDTH == 1 ? (unsigned char)t->str[i] : WIDTH == 2 ? ((uint16_t *)t->str)[i] : ((uint32_t *)t->str)[i]; CHECK(g == (i < un ? unit[i] : 0), "code unit is the one the source denotes"); }
}
#endif
#endif
#ifdef UNIT_CHR
// read_char_literal: escapes and decoding by contract, text of any content.
static char ct[32];
#ifndef VF_NATIVE
static int esc_v, adv; static uint32_t dec_c; static bool used_e, used_d; static int cq;
int read_escaped_char(char **np, char *p) { CHECK(p == ct + cq + 2 && ct[cq + 1] == '\\', "escape follows the backslash"); *np = p + adv; used_e = true; return esc_v; }
uint32_t decode_utf8(char **np, char *p) { CHECK(p == ct + cq + 1, "decoded in place"); *np = p + adv; used_d = true; return dec_c; }
void h_chr(void) {
  FILE_INIT(); must_accept = 1; int q; ASSUME(q >= 0 && q <= 1); cq = q; { int a, b; uint32_t d; adv = a; esc_v = b; dec_c = d; } ASSUME(adv >= 1 && adv <= 10); 
  for (int i = 0; i < 31; i++) { char c; ct[i] = c; ASSUME(i < q || c); } ct[31] = 0; bool esc = ct[q + 1] == '\\'; int n = q + 1 + esc + adv; ASSUME(ct[q] == '\'' && ct[n] == '\'');
  Token *t = read_char_literal(ct, ct + q, ty_uint);
  CHECK(esc ? used_e && !used_d : used_d && !used_e, "an escape is interpreted, anything else decoded");
  CHECK(t->kind == TK_INT_NUM && t->loc == ct && t->len == n + 1, "token covers the constant"); CHECK(t->ty == ty_uint, "type of the character constant"); CHECK(t->ival == (esc ? esc_v : (int32_t)dec_c), "value of the character constant"); REACH("end");
}
#else
void h_chr(void) {
  FILE_INIT(); must_accept = 1; int n = 0; int32_t v; IN_RANGE(int, PFX, 0, 3); IN_RANGE(int, FORM, 0, 3); ASSUME(PFX || FORM != 3);
  if (PFX) ct[n++] = PFX == 1 ? 'u' : PFX == 2 ? 'L' : 'U';
  ct[n++] = '\'';
  if (FORM == 0) { IN_RANGE(char, c, 1, 127); ASSUME(c != '\'' && c != '\\' && c != '\n'); ct[n++] = c; v = c; }
  else if (FORM == 1) { IN_RANGE(int, o, 0, 255); ct[n++] = '\\'; ct[n++] = '0' + (o >> 6 & 7); ct[n++] = '0' + (o >> 3 & 7); ct[n++] = '0' + (o & 7); v = o; }
  else if (FORM == 2) { IN(uint32_t, x); ct[n++] = '\\'; ct[n++] = 'x'; if (PFX == 0) x &= 255; if (PFX == 1) x &= 65535; for (int i = PFX == 0 ? 4 : PFX == 1 ? 12 : 28; i >= 0; i -= 4) ct[n++] = "0123456789abcdef"[x >> i & 15]; v = x; }
  else { IN_RANGE(uint32_t, c, 0x800, 0xFFFF); ASSUME(!(c >= 0xD800 && c <= 0xDFFF)); ct[n++] = 0xE0 + c / 4096; ct[n++] = 0x80 + c / 64 % 64; ct[n++] = 0x80 + c % 64; v = c; }
  ct[n++] = '\''; int len = n; ct[n++] = '\n'; ct[n] = 0; fl.contents = ct; 
  Token *t = tokenize(&fl, NULL);
  int64_t want = PFX == 0 ? (int8_t)v : PFX == 1 ? (uint16_t)v : v;
  CHECK(t->kind == TK_INT_NUM && t->len == len && t->loc == ct, "token covers the constant");
  CHECK(t->ty == (PFX == 0 || PFX == 2 ? ty_int : PFX == 1 ? ty_ushort : ty_uint), "type of the character constant");
  CHECK(PFX == 3 ? (uint32_t)t->ival == (uint32_t)want : t->ival == want, "value of the character constant");
  CHECK(t->next->kind == TK_EOF, "nothing else");
}
#endif
#endif
#ifdef UNIT_UCN
// One step of convert_universal_chars.
static char ub[16];
void h_ucn(void) {
  FILE_INIT(); must_accept = 1; char in[16]; int n = 0;
  IN_RANGE(int, form, 0, 3); IN_RANGE(uint32_t, c, 0xA0, 0x10FFFF); ASSUME(!(c >= 0xD800 && c <= 0xDFFF)); IN_BOOL(up);
  IN_RANGE(char, pre, 1, 127); ASSUME(pre != '\\'); ub[n++] = pre;
  char want[16]; int w = 0; want[w++] = pre;
  if (form == 3) { ub[n++] = '\\'; ub[n++] = '\\'; want[w++] = '\\'; want[w++] = '\\'; }
  else ub[n++] = '\\';
  bool big = form == 1 || c > 0xffff; 
  if (form == 2) { IN_RANGE(char, o, 1, 127); ASSUME(o != 'u' && o != 'U' && o != '\\'); ub[n++] = o; want[w++] = '\\'; want[w++] = o; }
  else {
    ub[n++] = big ? 'U' : 'u'; int s = n; 
    for (int i = big ? 28 : 12; i >= 0; i -= 4) { char h = "0123456789abcdef"[c >> i & 15]; if (up && h > '9') h -= 32; ub[n++] = h; }
    if (form == 3) for (int i = s - 1; i < n; i++) want[w++] = ub[i];
    else w += encode_utf8(&want[w], c);
  }
  ub[n] = 0; want[w] = 0;
  convert_universal_chars(ub);
  for (int i = 0; i < 16; i++) if (i <= w) CHECK(ub[i] == want[i], "universal character names become their characters, other text stays"); REACH("end");
}
#endif
// ------------------------------------------------------------------ C04 ----
#ifdef UNIT_PUNCT
static const char *const puncts[] = {"-", "->", "--", "-=", "&", "&&", "&=", "+", "++", "+=", "=", "==", "|", "||", "|=", "<", "<<", "<<=", "<=", ">", ">>", ">>=", ">=", "!", "!=",
 "%", "%=", "*", "*=", "/", "/=", "^", "^=", "#", "##", ".", "...", "(", ")", ",", ":", ";", "?", "[", "]", "{", "}", "~"};
void h_punct(void) {
  FILE_INIT(); char s[5]; for (int i = 0; i < 4; i++) { SET_IN(s, s[i]); } s[4] = 0; IN_BOOL(asmpp); opt_cc1_asm_pp = asmpp;
  int best = 0;
  for (int k = 0; k < sizeof puncts / sizeof *puncts; k++) { int l = 0; bool m = true; for (; l < 3 && puncts[k][l]; l++) if (s[l] != puncts[k][l]) { m = false; break; } if (m && l > best) best = l; }
  ASSUME(s[0] != '$' && s[0] != '@' && s[0] != '\\' && s[0] != '`'); // outside the C punctuator set
  CHECK(read_punct(s) == best, "longest punctuator of C at this place"); REACH("end"); if (best == 3) REACH("three");
}
#endif
#ifdef UNIT_RANGE
// Membership in a sorted range table.
static UTF32Range rg[6];
void h_range(void) {
  IN_RANGE(int, n, 0, 6); for (int i = 0; i < 6; i++) { SET_IN(f, rg[i].first); SET_IN(l, rg[i].last); ASSUME(rg[i].first <= rg[i].last && (i == 0 || rg[i - 1].last < rg[i].first)); }
  IN(uint32_t, c); bool in = false; for (int i = 0; i < 6; i++) if (i < n && rg[i].first <= c && c <= rg[i].last) in = true;
  CHECK(in_range(c, rg, n) == in, "table lookup is set membership"); REACH("end");
}
#endif
#ifdef UNIT_XID
#include "xid_table.h"
static bool xid(const uint32_t (*t)[2], int n, uint32_t c) { bool r = false; for (int i = 0; i < n; i++) if (t[i][0] <= c && c <= t[i][1]) r = true; return r; }
void h_xid(void) {
  IN_RANGE(uint32_t, c, 0x80, 0x10FFFF); ASSUME(!xid(xid_new, sizeof xid_new / sizeof *xid_new, c));
  bool s = xid(xid_start, sizeof xid_start / sizeof *xid_start, c), k = xid(xid_cont_only, sizeof xid_cont_only / sizeof *xid_cont_only, c);
#ifdef FIRST
  CHECK(is_ident1(c) == s, "characters that may start an identifier");
#else
  CHECK(is_ident2(c) == (s || k), "characters that may continue an identifier");
#endif
  REACH("end");
}
#endif
#ifdef UNIT_IDENT
#ifdef VF_NATIVE
#define CH_IN(lv) do { IN_RANGE(int, k, 0, 40); lv = "0159abefgpPEzZ_$.+-.''xX+-0.eE \n;\xc3\xa9\xb7\xe2\x82\xac\xf0\x9f"[k]; } while (0)
#else
#define CH_IN(lv) SET_IN(i, lv)
#endif
static char it[12];
static bool wordc(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$'; }
#ifndef VF_NATIVE
bool __CPROVER_uninterpreted_i1(uint32_t); bool __CPROVER_uninterpreted_i2(uint32_t);
bool is_ident1(uint32_t c) { return __CPROVER_uninterpreted_i1(c); }
bool is_ident2(uint32_t c) { return __CPROVER_uninterpreted_i2(c); }
#endif
static int clen(const char *p) { unsigned char c = *p; return c < 0x80 ? 1 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; }
static uint32_t cval(const char *p) { int n = clen(p); uint32_t c = (unsigned char)*p & (n == 4 ? 7 : n == 3 ? 15 : n == 2 ? 31 : 127); for (int i = 1; i < n; i++) c = c * 64 + ((unsigned char)p[i] & 63); return c; }
static bool utf_ok(const char *p, int n) { for (int i = 0; i < n;) { unsigned char c = p[i]; if (c >= 0x80 && c < 0xC0) return false; int l = clen(p + i); if (i + l > n) return false; for (int k = 1; k < l; k++) if (((unsigned char)p[i + k] & 0xC0) != 0x80) return false; i += l; } return true; }
#define NI 6
void h_ident(void) {
  FILE_INIT(); must_accept = 1; opt_cc1_asm_pp = false; for (int i = 0; i < NI; i++) { CH_IN(it[i]); } it[NI] = 0; ASSUME(utf_ok(it, NI));
  ASSUME(!(it[0] >= '0' && it[0] <= '9'));
  int i = 0; while (i < NI) { if (wordc(it[i])) i++; else if ((unsigned char)it[i] >= 0x80 && (i == 0 ? is_ident1(cval(it + i)) : is_ident2(cval(it + i)))) i += clen(it + i); else break; }
  CHECK(read_ident(it) == i, "identifier extends as far as possible and no further"); REACH("end");
}
void h_ppnum(void) {
  FILE_INIT(); must_accept = 1; opt_cc1_asm_pp = false; for (int i = 0; i < NI; i++) { CH_IN(it[i]); } it[NI] = 0; ASSUME(utf_ok(it, NI));
  // pp-number: digit or . digit, then letters, digits, _, ., exponent signs, 'x
  int i; if (it[0] >= '0' && it[0] <= '9') i = 1; else { ASSUME(it[0] == '.' && it[1] >= '0' && it[1] <= '9'); i = 2; }
  int i0 = i;
  while (i < NI) {
    char c = it[i], d = it[i + 1]; bool e = c == 'e' || c == 'E' || c == 'p' || c == 'P';
    if (e && (d == '+' || d == '-')) i += 2; else if (c == '.' || wordc(c)) i++;
    else if (c == '\'' && wordc(d) && d != '_' && d != '$') i += 2;
    else if ((unsigned char)c >= 0x80 && is_ident2(cval(it + i))) i += clen(it + i); else break;
  }
  Token *t = new_pp_number(it, it + i0);
  CHECK(t->kind == TK_PP_NUM && t->loc == it && t->len == i, "preprocessing number extends as far as possible and no further"); REACH("end");
}
#endif
#ifdef UNIT_STEP
// One pass of the tokenizer's loop at an arbitrary place of an arbitrary text:
// the right reader is called on the right text, the token it returns is linked
// and the position moves past it.  The readers enter by contract.
#ifndef VF_NATIVE
enum { R_NONE, R_NUM, R_PUNCT, R_STR, R_STR16, R_STR32, R_CHR, R_ID };
static char *B; static int len, at, ph, which, tl, rl; static char *as, *aq; static Type *aty; static Token tk, prev; static int64_t iv; static bool bol0, sp0; static int ncalls; static char old0;
static Token *got(int r, char *s, char *q, Type *ty) { CHECK(which == R_NONE, "one reader per token"); which = r; as = s; aq = q; aty = ty; ncalls++; tk.loc = s; tk.len = tl; ASSUME(tl >= 1 && tl <= len - (s - B)); tk.kind = TK_STR; tk.next = 0; return &tk; }
static Token *new_token(TokenKind k, char *s, char *e) { if (k == TK_EOF) { CHECK(s == B + len && e == s && which == R_NONE, "the last token stands at the end"); tk.kind = k; return &tk; } Token *t = got(k == TK_PUNCT ? R_PUNCT : k == TK_IDENT ? R_ID : R_NONE, s, e, 0); CHECK(e == s + rl && rl > 0, "token covers what was read"); tk.len = e - s; tk.kind = k; return t; }
static Token *new_pp_number(char *s, char *p) { return got(R_NUM, s, p, 0); }
static Token *read_string_literal(char *s, char *q) { return got(R_STR, s, q, 0); }
static Token *read_utf16_string_literal(char *s, char *q) { return got(R_STR16, s, q, 0); }
static Token *read_utf32_string_literal(char *s, char *q, Type *ty) { return got(R_STR32, s, q, ty); }
static Token *read_char_literal(char *s, char *q, Type *ty) { got(R_CHR, s, q, ty); tk.ival = iv; tk.ty = ty; return &tk; }
static bool isp(char c) { return c && strchr("-&+=|<>!%*/^#.(),:;?[]{}~", c); }
static int read_punct(char *p) { CHECK(p == B + at, "read in place"); if (!isp(*p)) return 0; ASSUME(rl >= 1 && rl <= 3 && rl <= len - at); return rl; }
static int read_ident(char *p) { CHECK(p == B + at, "read in place"); ASSUME(rl >= 0 && rl <= len - at); char c = *p; bool st = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; ASSUME(st ? rl > 0 : (unsigned char)c >= 128 || rl == 0); return rl; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f'; }
// inner loops over white space (0), line comment (1), block comment (2); X is
// an arbitrary watched place of the text, no NUL stands before its end
static int X, iph, ij;
static bool over(int kind, int x) { char c = B[x]; return kind == 0 ? c == B[at] : kind == 1 ? c != '\n' : !(c == '*' && B[x + 1] == '/'); }
static bool inner(int kind, char **p) {
  int s0 = kind == 0 ? at : at + 2;
  if (iph++ == 0) { CHECK(*p == B + s0, "starts behind what introduces it"); int j; ASSUME(j >= s0 && j <= len); if (kind == 0) ASSUME(j < len); if (X >= s0 && X < j + (kind == 0)) ASSUME(over(kind, X)); ij = j; *p = B + j; if (kind == 0) ASSUME(B[j] == B[at]); ASSUME(j == len ? B[j] == 0 : B[j] != 0); }
  else { CHECK(*p == B + ij + 1 && ij < len && over(kind, kind == 0 ? ij + 1 : ij), "one character at a time"); CUT(); }
  return true;
}
static bool step(char **p, Token **cur) {
  if (ph++ == 0) {
    CHECK(*p == B, "starts at the beginning"); int a; ASSUME(a >= 0 && a <= len); at = a; *p = B + a; *cur = &prev; prev.next = 0; bool x, y; at_bol = bol0 = x; has_space = sp0 = y; ASSUME(a == len ? B[a] == 0 : B[a] != 0); old0 = B[a];
#ifdef SPACE
    ASSUME(ws(B[a]) || B[a] == '\n' || (B[a] == '/' && (B[a + 1] == '/' || B[a + 1] == '*')));
#else
    ASSUME(!ws(B[a]) && !(B[a] == '/' && (B[a + 1] == '/' || B[a + 1] == '*')));
#endif
  } else {
    REACH("step"); char *b = B + at; char c = b[0], d = b[1], e = at + 2 <= len ? b[2] : 0; int n = *p - b;
    if (c == '\n') { CHECK(n == 1 && *cur == &prev && at_bol && !has_space, "a newline starts a line"); CUT(); }
    if (ws(c)) { CHECK(*cur == &prev && has_space && at_bol == bol0, "white space separates"); CHECK(n >= 1 && n <= len - at && (X < at || X >= at + n || ws(B[X])), "only white space is skipped"); CUT(); }
    if (c == '/' && d == '/') { CHECK(*cur == &prev && has_space && at_bol == bol0, "a comment separates"); CHECK(n >= 2 && n <= len - at && (b[n] == '\n' || at + n == len) && (X < at || X >= at + n || B[X] != '\n'), "a line comment ends with its line"); CUT(); }
    if (c == '/' && d == '*') { CHECK(*cur == &prev && has_space && at_bol == bol0, "a comment separates"); CHECK(n >= 4 && n <= len - at && b[n - 2] == '*' && b[n - 1] == '/' && (X < at + 2 || X >= at + n - 2 || B[X] != '*' || B[X + 1] != '/'), "a block comment ends at the first close"); CUT(); }
    int want; char *q = b; Type *ty = 0; bool chk_q = true;
    if (dig(c) || (c == '.' && dig(d))) { want = R_NUM; q = b + (c == '.') + 1; }
    else if (c == '"') want = R_STR; else if (c == 'u' && d == '8' && e == '"') { want = R_STR; q = b + 2; }
    else if (c == 'u' && d == '"') { want = R_STR16; q = b + 1; } else if (c == 'L' && d == '"') { want = R_STR32; q = b + 1; ty = ty_int; } else if (c == 'U' && d == '"') { want = R_STR32; q = b + 1; ty = ty_uint; }
    else if (c == '\'') { want = R_CHR; ty = ty_int; } else if (d == '\'' && (c == 'u' || c == 'L' || c == 'U')) { want = R_CHR; q = b + 1; ty = c == 'u' ? ty_ushort : c == 'L' ? ty_int : ty_uint; }
    else { want = isp(c) ? R_PUNCT : R_ID; chk_q = false; }
    CHECK(which == want && as == b, "the text selects the kind of token"); CHECK(!chk_q || (aq == q && aty == ty), "the reader gets the opening quote and the type of the literal");
    CHECK(*cur == &tk && prev.next == &tk, "the token is linked"); CHECK(n == tk.len, "the position moves past the token");
    if (want == R_CHR) CHECK(tk.ival == (c == '\'' ? (int64_t)(int8_t)iv : c == 'u' ? (int64_t)(uint16_t)iv : iv), "character constants have the value of their type");
    if (want == R_ID || want == R_PUNCT) CHECK(tk.kind == (want == R_ID ? TK_IDENT : TK_PUNCT), "kind of the token");
    CUT();
  }
  return true;
}
static bool eof_seen;
static void add_line_numbers(Token *t) { }
void h_step(void) {
  FILE_INIT(); must_accept = 0; int l, a, b; int64_t c; ASSUME(l >= 1 && l <= 1000000); len = l; tl = a; rl = b; iv = c; { int x; ASSUME(x >= 0 && x < len); X = x; } iph = 0; B = malloc(len + 1); ASSUME(B != 0 && B[len] == 0); fl.contents = B; ph = 0; which = R_NONE;
  Token *r = tokenize(&fl, NULL); CHECK(at == len && r == 0 && tk.kind == TK_EOF && prev.next == &tk, "the list is returned from its start");
#ifndef SPACE
  REACH("end");
#endif

}
#else
// short texts against a reference lexer
static bool idc(char c) { return c == '_' || c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static const char *const P[] = {"...", "<<=", ">>=", "->", "--", "-=", "&&", "&=", "++", "+=", "==", "||", "|=", "<<", "<=", ">>", ">=", "!=", "%=", "*=", "/=", "^=", "##"};
void h_step(void) {
  FILE_INIT(); must_accept = 1; static char t[64]; int n = 0, st[24], ln[24], kd[24], k = 0, bol[24], spc[24], lno[24]; int line = 1; bool bl = true, sp = false;
  static const char *const al[] = {"a", "_b", "u", "L", "U", "u8", "1", ".5", "1e+", "0x1p-", ".", "+", "-", "<", ">", "=", "&", "|", "#", "%", "/", "*", "!", " ", "\t", "\n", "\f", "//", "/*", "*/", "\"a\"", "'c'", "\"\\\"\"", "'\\''", "1'2", "$", "..", "(", ";"};
  IN_RANGE(int, m, 1, 8); for (int i = 0; i < m; i++) { IN_RANGE(int, c, 0, sizeof al / sizeof *al - 1); strcpy(t + n, al[c]); n += strlen(al[c]); } IN_BOOL(nl); if (nl) t[n++] = '\n'; t[n] = 0;
  for (int i = 0; i < n;) {
    char c = t[i], d = t[i + 1];
    if (c == '\n') { i++; line++; bl = true; sp = false; continue; }
    if (c == ' ' || c == '\t' || c == '\f') { i++; sp = true; continue; }
    if (c == '/' && d == '/') { while (t[i] && t[i] != '\n') i++; sp = true; continue; }
    if (c == '/' && d == '*') { char *e = strstr(t + i + 2, "*/"); if (!e) vf_reject(); for (; t + i < e + 2; i++) line += t[i] == '\n'; sp = true; continue; }
    int j = i, kind;
    int q = c == '"' || c == '\'' ? 0 : (c == 'u' || c == 'U' || c == 'L') && (d == '"' || d == '\'') ? 1 : c == 'u' && d == '8' && t[i + 2] == '"' ? 2 : -1;
    if (q >= 0) { j = i + q + 1; while (t[j] && t[j] != t[i + q] && t[j] != '\n') j += t[j] == '\\' && t[j + 1] ? 2 : 1; if (t[j] != t[i + q]) vf_reject(); j++; if (t[i+q] == '\'' && j == i + q + 2) vf_reject(); kind = t[i + q] == '"' ? TK_STR : TK_INT_NUM; }
    else if ((c >= '0' && c <= '9') || (c == '.' && d >= '0' && d <= '9')) { j++; while (1) { if ((t[j] == '+' || t[j] == '-') && strchr("eEpP", t[j - 1])) j++; else if (idc(t[j]) || t[j] == '.') j++; else if (t[j] == '\'' && idc(t[j + 1]) && t[j + 1] != '_' && t[j+1] != '$') j += 2; else break; } kind = TK_PP_NUM; }
    else if (idc(c)) { while (idc(t[j])) j++; kind = TK_IDENT; }
    else { int l = 1; for (int x = 0; x < sizeof P / sizeof *P; x++) if (!strncmp(t + i, P[x], strlen(P[x])) && strlen(P[x]) > l) l = strlen(P[x]); j += l; kind = TK_PUNCT; }
    if (k >= 23) vf_reject(); st[k] = i; ln[k] = j - i; kd[k] = kind; bol[k] = bl; spc[k] = sp; lno[k++] = line; bl = sp = false; for (; i < j; i++) line += t[i] == '\n';
  }
  fl.contents = t; Token *x = tokenize(&fl, NULL);
  for (int i = 0; i < k; i++, x = x->next) { CHECK(x->kind == kd[i] && x->loc == t + st[i] && x->len == ln[i], "tokens are the longest ones in order"); CHECK(x->at_bol == bol[i] && x->has_space == spc[i], "line start and space flags"); CHECK(x->line_no == lno[i], "line number is one more than the newlines before"); }
  CHECK(x->kind == TK_EOF, "nothing else");
}
#endif
#endif
// ------------------------------------------------------------------ C16 ----
#ifdef UNIT_NL
#ifndef NT
#define NT 7
#endif
static char nb[NT + 2], ref[NT + 2]; 
void h_crlf(void) {
  for (int i = 0; i < NT; i++) { SET_IN(t, nb[i]); } nb[NT] = 0;
  int w = 0; for (int i = 0; i < NT && nb[i];) { if (nb[i] == '\r') { ref[w++] = '\n'; i += nb[i + 1] == '\n' ? 2 : 1; } else ref[w++] = nb[i++]; }
  ref[w] = 0; canonicalize_newline(nb);
  for (int i = 0; i <= NT; i++) if (i <= w) CHECK(nb[i] == ref[i], "CR and CR LF become newline, nothing else changes"); REACH("end");
}
void h_splice(void) {
  for (int i = 0; i < NT; i++) { SET_IN(t, nb[i]); } nb[NT] = 0;
  // text as translation phase 2 leaves it, with the removed newlines put back
  // in front of the next newline so that line numbers stay right
  int w = 0, n = 0; for (int i = 0; i < NT && nb[i];) { if (nb[i] == '\\' && nb[i + 1] == '\n') { i += 2; n++; continue; } if (nb[i] == '\n') { for (int k = 0; k < NT; k++) if (k < n) ref[w++] = '\n'; n = 0; } ref[w++] = nb[i++]; }
  ref[w] = 0; remove_backslash_newline(nb);
  for (int i = 0; i <= NT; i++) if (i <= w) CHECK(nb[i] == ref[i], "lines are spliced, line numbers kept, nothing else changes");
  REACH("end"); if (n) REACH("splice at the end");
}
void h_lines(void) {
  // every token gets one more than the number of newlines before it
  FILE_INIT(); static Token a[4]; static int pos[4]; for (int i = 0; i < NT; i++) { SET_IN(t, nb[i]); ASSUME(nb[i]); } nb[NT] = 0; fl.contents = nb;
  for (int i = 0; i < 3; i++) { SET_IN_RANGE(p, pos[i], 0, NT - 1); ASSUME(i == 0 || pos[i] > pos[i - 1]); a[i].loc = nb + pos[i]; a[i].next = &a[i + 1]; a[i].line_no = 0; } pos[3] = NT; a[3].loc = nb + NT; a[3].next = 0;
#ifndef VF_NATIVE
  must_accept = 1;
#endif
  add_line_numbers(a);
  for (int i = 0; i < 4; i++) { int n = 1; for (int k = 0; k < NT; k++) if (k < pos[i] && nb[k] == '\n') n++; CHECK(a[i].line_no == n, "line number is one more than the newlines before"); } REACH("end");
}
#ifdef UNIT_CUT
#define MAXLEN 1000000
static char *B; static int len, W, X; static char x0; // text, an arbitrary watched place and its original content
static char *gp, *gq; static int gn, ph, ph2, k0; static char cin, cin2; static bool stepped;
static char *fst;
char *strchr(const char *s, int c) { CHECK(s == B, "searched from the start"); bool none; if (none) { int k; ASSUME(B[X] != c); return NULL; } ASSUME(fst >= B && *fst == c && (X >= fst - B || B[X] != c)); return fst; }
static void base(void) { int n, x; ASSUME(n >= 0 && n < MAXLEN && x >= 0 && x <= n); len = n; X = x; B = malloc(len + 1); ASSUME(B != 0 && B[len] == 0); int f; ASSUME(f >= 0 && f < len); fst = B + f; x0 = B[X]; ASSUME(X == len || x0 != 0); }
// loop state: the input still to read is untouched, output never overtakes it
static bool inv(char *p, char *q, int n) { return __CPROVER_same_object(p, B) && __CPROVER_same_object(q, B) && fst <= q && q <= p && p - B <= len && n >= 0 && n <= MAXLEN && (int)(p - q) >= 2 * n && (X < p - B || B[X] == x0) && (X >= fst - B || B[X] == x0); }
static void observe(char *p, char *q, int n) { // one pass = one step of the reference
  int dp = p - gp, dq = q - gq;
#ifdef CRLF
  if (cin == '\r') { CHECK(dp == (cin2 == '\n' ? 2 : 1) && dq == 1 && q[-1] == '\n', "CR and CR LF become newline"); }
  else CHECK(dp == 1 && dq == 1 && q[-1] == cin, "other characters are copied");
#else
  if (cin == '\\' && cin2 == '\n') CHECK(dp == 2 && dq == 0 && n == gn + 1, "backslash newline is removed and counted");
  else if (cin == '\n') { CHECK(dp == 1 && dq == gn + 1 && n == 0, "removed newlines are put back before the next newline"); int k; ASSUME(k > 0 && k <= gn + 1); CHECK(k != 1 || q[-k] == '\n', "newline copied"); if (k == k0) CHECK(q[-k] == '\n', "newlines put back"); }
  else CHECK(dp == 1 && dq == 1 && n == gn && q[-1] == cin, "other characters are copied");
#endif
}
static bool cut(char **p, char **q, int *n) {
  if (ph++ == 0) { CHECK(*p == fst && *q == fst && *n == 0 && inv(*p, *q, *n), "copying starts where the first special character is"); int a, b, c; ASSUME(a >= 0 && a <= len && b >= 0 && b <= a && c >= 0);
#ifdef CRLF
    ASSUME(c == 0);
#endif
    *p = B + a; *q = B + b; *n = c; if (X >= a) B[X] = x0; ASSUME(inv(*p, *q, c)); ASSUME(a == len ? **p == 0 : **p != 0); gp = *p; gq = *q; gn = c; cin = **p; cin2 = a < len ? (*p)[1] : 0; if (X == a) ASSUME(cin == x0); }
  else { CHECK(inv(*p, *q, *n), "copy invariant preserved"); observe(*p, *q, *n); CUT(); }
  return true;
}
static bool cutc(char **p, char **q) { int n = 0; return cut(p, q, &n); }
static bool cut2(char **q, int *n) { // the loop that puts newlines back
  if (ph2++ == 0) { CHECK(*q == gq && *n == gn, "all counted newlines are put back"); int c; ASSUME(c >= 0 && c <= gn); *n = c; *q = gq + (gn - c); int k; ASSUME(k >= 1 && k <= gn); k0 = k + 1; if (gn && k > c) gq[gn - k] = '\n'; }
  else { CHECK(*q == gq + (gn - *n) && *n >= 0, "one newline per step"); CHECK(k0 - 1 <= *n || gq[gn - (k0 - 1)] == '\n', "newlines put back"); CHECK(gp + 0 >= *q && *gp == '\n', "input not overwritten"); CUT(); }
  return true;
}
void h_cut(void) {
  base();
#ifdef CRLF
  canonicalize_newline(B);
#else
  remove_backslash_newline(B);
#endif
  if (ph == 0) CHECK(B[X] == x0, "text without the special character is left alone");
  else CHECK(*gq == 0 && (X >= fst - B || B[X] == x0), "output is terminated; text before it is left alone");
  REACH("end"); if (ph) REACH("copied");
}
#endif
#endif
