// C14: region allocator (alloc.c) and StringArray (strings.c).
#include "vf.h"
#include "slimcc.h"
#undef assert
#include "alloc.c"
#include "strings.c"
char *opt_dummy;
#ifdef VF_NATIVE
// Bounded stand-in: random allocation histories with per-block fill patterns.
static void history(void) {
  static Arena a; static struct { unsigned char *p; int n, pat; bool clear; } blk[400];
  IN_RANGE(int, rounds, 1, 3); IN_RANGE(int, n, 1, 400); IN_BOOL(freeing); free_alloc = freeing; a = (Arena){0};
  for (int r = 0; r < rounds; r++) {
    arena_on(&a); CHECK(a.on && a.head_page && a.page == a.head_page && a.used == 0, "arena on starts at its first page");
    for (int i = 0; i < n; i++) {
      IN_RANGE(int, big, 0, 9); IN_RANGE(int, sz, 0, PAGE_SIZE); IN_BOOL(clear); if (big) sz %= 400;
      unsigned char *p = clear ? arena_calloc(&a, sz) : arena_malloc(&a, sz);
      CHECK(((uintptr_t)p & 15) == 0, "block is 16-byte aligned");
      if (clear) for (int k = 0; k < sz; k++) CHECK(p[k] == 0, "cleared block is all zero");
      memset(p, i % 250 + 1, sz); blk[i].p = p; blk[i].n = sz; blk[i].pat = i % 250 + 1;
    }
    for (int i = 0; i < n; i++) for (int k = 0; k < blk[i].n; k++) CHECK(blk[i].p[k] == blk[i].pat, "live blocks keep their contents");
    arena_off(&a); CHECK(!a.on, "arena off"); if (freeing) CHECK(!a.head_page, "pages released");
  }
}
static void pushes(void) {
  StringArray s = {0}; IN_RANGE(int, n, 0, 200);
  for (int i = 0; i < n; i++) { strarray_push(&s, (char *)(uintptr_t)(i * 8 + 16));
    CHECK(s.len == i + 1 && s.capacity >= s.len, "length grows by one");
    for (int j = 0; j <= i; j++) CHECK(s.data[j] == (char *)(uintptr_t)(j * 8 + 16), "elements keep their order and value");
    for (int j = i + 1; j < s.capacity; j++) CHECK(s.data[j] == 0, "unused slots are null"); }
}
void h_alloc(void) { history(); } void h_on(void) { history(); } void h_off(void) { history(); } void h_ast(void) { history(); }
void h_push(void) { pushes(); } void h_push_first(void) { pushes(); }
#else
static Page P0, P1, *Pn; static Arena A; static bool fresh;
static int lb, ln, gk; static char gv; // ghost live block [lb, lb+ln) of the current page, watched byte
static Page *cur0; static char *block; static size_t SZ;
#ifdef UNIT_ALLOC
static Page *new_page(void) { Page *p = malloc(sizeof(Page)); ASSUME(p != 0); p->next = NULL; CHECK(!fresh, "one new page at most"); fresh = true; Pn = p; return p; }
static int wk, ph; // watched byte of the new block
static bool zinv(char *ptr, int i, size_t al) { return i >= 0 && (size_t)i * 8 <= al && (wk >= i * 8 || ptr[wk] == 0) && P0.buf[gk] == gv; }
static bool zcut(int *i, void *ptr, size_t al) {
  if (ph++ == 0) { CHECK(zinv(ptr, *i, al), "clearing invariant on entry"); int n; *i = n; ASSUME(n >= 0 && (size_t)n * 8 <= al); if (wk < n * 8) ((char *)ptr)[wk] = 0; ASSUME(zinv(ptr, n, al)); }
  else { CHECK(zinv(ptr, *i, al), "clearing invariant preserved"); CUT(); }
  return true;
}
void h_alloc(void) {
  IN_RANGE(int, used, 0, PAGE_SIZE); ASSUME(used % 16 == 0);
#ifdef VF_USED
  used = VF_USED;
#endif

  bool more; P0.next = more ? &P1 : NULL; A.page = &P0; A.used = used; A.on = true; Page *hd; A.head_page = hd;
  IN_RANGE(int, b, 0, PAGE_SIZE); IN_RANGE(int, n, 1, PAGE_SIZE); IN_RANGE(int, k, 0, PAGE_SIZE - 1); ASSUME(b + n <= used && k >= b && k < b + n || used == 0); 
  char c; gk = k; gv = c; P0.buf[k] = c;
  IN_RANGE(size_t, sz, 0, PAGE_SIZE); bool clear = VF_CLEAR; IN_RANGE(int, w, 0, PAGE_SIZE - 1); ASSUME((size_t)w < sz || sz == 0); wk = w; SZ = sz;
  char *p = clear ? arena_calloc(&A, sz) : arena_malloc(&A, sz);
  CHECK(A.page == &P0 || (more ? A.page == &P1 : fresh && A.page == Pn && P0.next == Pn), "block comes from the current or the following page");
  CHECK(A.on && A.head_page == hd, "arena stays on, page list kept"); CHECK(!more || P0.next == &P1, "page list kept");
  CHECK(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(A.page), "block lies in the page"); ptrdiff_t o = p - &A.page->buf[0];
  CHECK(o >= 0 && (size_t)o + sz <= PAGE_SIZE, "block lies inside the page buffer"); CHECK(o % 16 == 0 && offsetof(Page, buf) % 16 == 0, "block is 16-byte aligned");
  CHECK((size_t)o + sz <= (size_t)A.used && A.used <= PAGE_SIZE && A.used % 16 == 0, "the block is accounted as used");
  CHECK(A.page != &P0 || o >= used, "block does not overlap any earlier block of the page"); 
  CHECK(used == 0 || P0.buf[gk] == gv, "earlier blocks keep their contents");
  if (clear && sz) CHECK(p[w] == 0, "cleared block is all zero");
  CHECK(fresh == (!more && A.page != &P0), "new page only when none is left");
  REACH("end"); if (A.page == &P0) REACH("same page"); else REACH("next page");
}
#endif
void h_on(void) {
  bool have; Page *pg; int us; bool on; A.head_page = have ? &P0 : NULL; A.page = pg; A.used = us; A.on = on; P0.next = &P1;
  arena_on(&A);
  CHECK(A.on && A.used == 0 && A.page == A.head_page, "arena on starts at its first page"); CHECK(!have || A.head_page == &P0 && P0.next == &P1, "pages are reused");
  CHECK(have || (A.head_page && A.head_page->next == NULL), "first page created"); REACH("end");
}
void h_off(void) {
  int n; ASSUME(n >= 0 && n <= 3); Page *h = 0; for (int i = 0; i < 3; i++) if (i < n) { Page *p = malloc(sizeof(Page)); ASSUME(p); p->next = h; h = p; }
  A.head_page = h; A.on = true; bool f; free_alloc = f; arena_off(&A);
  CHECK(!A.on, "arena off"); CHECK(f ? A.head_page == NULL : A.head_page == h, "pages released exactly when memory is to be freed"); REACH("end");
}
#ifdef UNIT_AST
static int which; static size_t asz; static char mem[1];
static void *allocate(Arena *a, size_t sz, bool clear) { which = 1 + clear; asz = sz; CHECK(a == &ast_arena, "the AST arena is used"); return mem; }
void *malloc(size_t n) { which = 3; asz = n; return mem; }
void *calloc(size_t a, size_t n) { which = 4; asz = a * n; return mem; }
void h_ast(void) {
  bool on; ast_arena.on = on; size_t n; ASSUME(n <= PAGE_SIZE);
  CHECK(ast_arena_malloc(n) == mem && asz == n && which == (on ? 1 : 3), "malloc form: from the arena exactly when it is on");
  CHECK(ast_arena_calloc(n) == mem && asz == n && which == (on ? 2 : 4), "calloc form: zeroed, from the arena exactly when it is on"); REACH("end");
}
#endif
#ifdef UNIT_PUSH
static StringArray S; static char **D; static int X, L0, C0, grown; static char *x0;
// Contract of realloc: the old contents, seen at the watched slot, then anything.
void *realloc(void *p, size_t n) {
  CHECK(p == D && n >= sizeof(char *) * (size_t)C0, "array is extended, not cut"); CHECK(!grown, "extended once"); grown = 1;
  size_t cnt; ASSUME(cnt < 1 << 27 && cnt * sizeof(char *) <= n && n < (cnt + 1) * sizeof(char *)); char **q = malloc(sizeof(char *) * cnt); ASSUME(q != 0); if (X < C0) q[X] = x0; return q;
}
static int ph;
static bool finv(int i) { return i >= L0 && i <= S.capacity && S.capacity == 2 * C0 && S.len == L0 && (X < L0 ? S.data[X] == x0 : X >= i || S.data[X] == NULL); }
static bool fcut(int *i) {
  if (ph++ == 0) { CHECK(finv(*i), "fill invariant on entry"); int n; *i = n; ASSUME(n >= L0 && n <= S.capacity); if (X >= L0 && X < n) S.data[X] = NULL; ASSUME(finv(n)); }
  else { CHECK(finv(*i), "fill invariant preserved"); CUT(); }
  return true;
}
void h_push(void) {
  int lg, l, x; ASSUME(lg >= 3 && lg <= 24); C0 = 1 << lg; ASSUME(l >= 0 && l <= C0 && x >= 0 && x < 2 * C0); L0 = l; X = x;
  D = malloc(sizeof(char *) * C0); ASSUME(D != 0); S.data = D; S.len = l; S.capacity = C0;
  if (X < C0) { char *c; if (X >= L0) c = NULL; D[X] = c; x0 = c; } else x0 = NULL;
  char *s; strarray_push(&S, s);
  CHECK(S.len == L0 + 1 && S.capacity >= S.len, "length grows by one"); CHECK(S.data[L0] == s, "the new element is last");
  if (X != L0 && X < S.capacity) { if (X < L0) CHECK(S.data[X] == x0, "elements keep their order and value"); else CHECK(S.data[X] == NULL, "unused slots are null"); }
  CHECK(__CPROVER_OBJECT_SIZE(S.data) >= sizeof(char *) * (size_t)S.capacity, "capacity is backed by memory"); CHECK(S.capacity >= 8 && (S.capacity & (S.capacity - 1)) == 0, "capacity stays a power of two");
  REACH("end"); if (grown) REACH("grown");
}
#endif
void h_push_first(void) {
  StringArray s = {0}; char *v; strarray_push(&s, v); CHECK(s.len == 1 && s.capacity == 8 && s.data[0] == v, "first element"); int x; ASSUME(x >= 1 && x < 8); CHECK(s.data[x] == NULL, "unused slots are null"); REACH("end");
}
#endif
