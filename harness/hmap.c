// C13: HashMap refines a finite map from byte strings to values.
// Every operation is checked on an ARBITRARY well-formed table of the given
// capacity: the table invariant is assumed before and shown after, so the
// result holds for every history of operations.
#include "vf.h"
#ifndef MAXLG
#define MAXLG 24
#endif
#ifdef VF_NATIVE
#include "hashmap.c"
char *format(char *f, ...) { return 0; }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error reached on a well-formed table"); CUT(); }
// Bounded stand-in: random histories against a shadow map.
#define NK 700
static char names[NK][8]; static int nlen[NK];
static void history(void) {
  HashMap m = {0}; void *shadow[NK] = {0}; bool has[NK] = {0};
  static char pool[] = "aAbBcC\0\xff zz/..";
  for (int i = 0; i < NK; i++) { nlen[i] = 1 + i % 6; for (int j = 0; j < 8; j++) names[i][j] = j == 0 ? 'a' + i % 26 : j == 1 ? 'A' + i / 26 : j == 2 ? (i & 1 ? (char)0xff : 0) : pool[(i + j) % 13]; }
  for (int i = 0; i < NK; i++) for (int j = 0; j < i; j++) if (nlen[i] == nlen[j] && !memcmp(names[i], names[j], nlen[i])) nlen[i] = 7 - (nlen[i] == 7), names[i][4] = i;
  IN_RANGE(int, n, 1, 2000); IN_RANGE(int, range, 1, NK); IN_BOOL(small); if (small) n %= 100, range = range % 40 + 1; IN_RANGE(int, del, 0, 9);
  for (int s = 0; s < n; s++) {
    IN_RANGE(int, op, 0, 9); IN_RANGE(int, k, 0, NK - 1); k %= range;
    for (int j = 0; j < k; j++) if (nlen[j] == nlen[k] && !memcmp(names[j], names[k], nlen[k])) k = j;
    char *key = malloc(nlen[k]); memcpy(key, names[k], nlen[k]);
    if (op < del) { hashmap_delete2(&m, key, nlen[k]); has[k] = false; }
    else if (op != 9) { void *v = (void *)(uintptr_t)(op == 8 ? 0 : s + 1); hashmap_put2(&m, key, nlen[k], v); has[k] = true; shadow[k] = v; }
    void *g = hashmap_get2(&m, key, nlen[k]);
    CHECK(g == (has[k] ? shadow[k] : 0), "lookup after an operation returns what a finite map would");
    IN_RANGE(int, q, 0, NK - 1);
    for (int j = 0; j < q; j++) if (nlen[j] == nlen[q] && !memcmp(names[j], names[q], nlen[q])) q = j;
    g = hashmap_get2(&m, names[q], nlen[q]);
    CHECK(g == (has[q] ? shadow[q] : 0), "another key's lookup is unaffected");
  }
}
void h_get(void) { history(); } void h_get2(void) { history(); } void h_empty(void) { history(); } void h_put(void) { history(); } void h_put_fills(void) { history(); } void h_first(void) { history(); } void h_delete(void) { history(); } void h_rehash(void) { history(); }
void h_wrap(void) {
  static char s[6] = "abcd"; HashMap m = {0}; int x;
  IN_RANGE(int, n, 0, 4); char t[6]; memcpy(t, s, 6); t[n] = 0; char u[6]; memcpy(u, t, 6);
  hashmap_put(&m, t, &x); CHECK(hashmap_get(&m, u) == &x && hashmap_get2(&m, u, n) == &x, "string form of a key is its bytes up to NUL");
  hashmap_delete(&m, u); CHECK(hashmap_get2(&m, t, n) == 0, "delete by string");
}
void h_match(void) { history(); }
void h_hash(void) { IN_RANGE(int, n, 0, 8); char a[8], b[8]; for (int i = 0; i < n; i++) { SET_IN("c", a[i]); b[i] = a[i]; }
  CHECK(fnv_hash(a, n) == fnv_hash(b, n), "hash depends on the bytes of the key only"); }
#else
#include "hashmap.c"
char *format(char *f, ...) { return 0; }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error reached on a well-formed table"); CUT(); }
// Keys are opaque: a key is a pointer whose bytes are represented by an
// identity CID(), of which the hash is an arbitrary part.  match() and
// fnv_hash() enter by contract (proved by h_match and h_hash).
#ifndef VF_REALHASH
#define CID(k) ((uint64_t)(k) >> 8 & 0xffffffff)
#define HV(k) ((uint64_t)(k) >> 16 & 0xffffff)
#define isk(k) ((uint64_t)(k) >> 40 == 1)
typedef unsigned u;
static bool live(HashEntry *e) { return e->key && e->key != TOMBSTONE; }
static char *K, *Q; static void *V;
static HashMap M; static HashEntry *B; static u cap, mask_; static int used0;
// What the invariant says about one key: if present, at distance dist from its
// home slot with no free slot in between and nowhere else; if absent, nowhere.
typedef struct { char *k; bool in; u dist; } View;
static View VK, VQ;
static u E;             // some free slot (exists because used < capacity)
static u home(char *k) { return HV(k) & mask_; }
static u distof(char *k, u j) { return (j - home(k)) & mask_; }
static u slot(View *v) { return (home(v->k) + v->dist) & mask_; }
static bool hit(HashEntry *e, char *k) { return live(e) && CID(e->key) == CID(k); }
// The invariant at one slot j for one key.
static bool at(HashEntry *t, View *v, u j) {
  if (live(&t[j]) && !isk(t[j].key)) return false;
  if (!v->in) return !hit(&t[j], v->k);
  if (j == slot(v)) return hit(&t[j], v->k);
  return !hit(&t[j], v->k) && (distof(v->k, j) >= v->dist || t[j].key != 0);
}
static u X; static HashEntry X0;  // an arbitrary slot and its initial content
static bool same(HashEntry a, HashEntry b) { return a.key == b.key && a.keylen == b.keylen && a.val == b.val; }
// Instantiate the precondition (a statement about all slots) at slot j.
static void use(u j) { ASSUME(j < cap); ASSUME(at(B, &VK, j) && at(B, &VQ, j)); ASSUME(j != E || B[j].key == 0); }
static bool uniform(View *a, View *b) { return CID(a->k) != CID(b->k) || (a->in == b->in && a->dist == b->dist); }
static void start(void) {
  int lg; ASSUME(lg >= 4 && lg <= MAXLG); cap = 1u << lg; mask_ = cap - 1;
  B = malloc(sizeof(HashEntry) * cap); ASSUME(B != 0);
  int us; used0 = us; M.buckets = B; M.capacity = cap; M.used = us;
  ASSUME(us >= 0 && us < (int)cap && (us * 100) / (int)cap < 90);
  View a, b; VK = a; VQ = b; K = VK.k; Q = VQ.k;
  ASSUME(isk(K) && isk(Q) && VK.in <= 1 && VQ.in <= 1 && VK.dist < cap && VQ.dist < cap && uniform(&VK, &VQ));
  u e, x; E = e; X = x; ASSUME(E < cap && X < cap);
  if (VK.in) use(slot(&VK)); 
  if (VQ.in) use(slot(&VQ)); 
  use(E); use(X); X0 = B[X];
}
static uint64_t fnv_hash(char *s, int len) { CHECK(isk(s), "a key is hashed"); uint64_t hi; return HV(s) | hi << 24; }
static bool rebuilding;
static bool match(HashEntry *ent, char *key, int keylen) {
  CHECK(isk(key), "a key is compared");
  if (!B) return live(ent) && CID(ent->key) == CID(key);
  CHECK(__CPROVER_POINTER_OBJECT(ent) == __CPROVER_POINTER_OBJECT(B) && __CPROVER_POINTER_OFFSET(ent) % sizeof(HashEntry) == 0, "a slot of the table is probed");
  u j = __CPROVER_POINTER_OFFSET(ent) / sizeof(HashEntry);
  CHECK(j < cap, "probe stays inside the table"); use(j);
  return ent->key && ent->key != TOMBSTONE && CID(ent->key) == CID(key);
}
// Loop cut of the probe loops (get_entry, get_or_insert_entry) searching for K.
static int phase;
static bool probe_inv(int i) {
  return i >= 0 && (u)i <= cap && (VK.in ? (u)i <= VK.dist : (u)i <= distof(K, E)) && same(B[X], X0) && M.used == used0 &&
    (distof(K, X) >= (u)i || B[X].key != 0) && M.buckets == B && M.capacity == (int)cap;
}
static bool probe(int *i) {
  if (phase++ == 0) { CHECK(*i == 0, "probing starts at the home slot"); CHECK(probe_inv(*i), "probe invariant holds on entry"); int n; *i = n; ASSUME(probe_inv(n)); }
  else { CHECK(probe_inv(*i), "probe invariant preserved"); CUT(); }
  return true;
}
#ifdef GET_BY_CONTRACT
// Contract of get_entry (proved by h_get).
static HashEntry *get_entry(HashMap *m, char *key, int len) { CHECK(m == &M && key == K, "looks up its key"); return VK.in ? &B[slot(&VK)] : NULL; }
#endif
#ifdef INS_BY_CONTRACT
// Contract of get_or_insert_entry is expressed by h_put.
#endif
#if defined(UNIT_GET)
void h_get(void) {
  start(); int len;
  HashEntry *r = get_entry(&M, K, len);
  if (VK.in) CHECK(r == &B[slot(&VK)], "a present key is found at its slot");
  else CHECK(r == NULL, "an absent key is not found");
  CHECK(same(B[X], X0) && M.buckets == B && M.capacity == (int)cap && M.used == used0, "lookup changes nothing");
  if (VK.in) REACH("found"); else REACH("absent");
}
#endif
void h_get2(void) {
  start(); int len;
  void *v = hashmap_get2(&M, K, len);
  CHECK(v == (VK.in ? B[slot(&VK)].val : NULL), "lookup returns the value stored with the key, or null");
  CHECK(same(B[X], X0) && M.used == used0, "lookup changes nothing");
  REACH("end");
}
void h_empty(void) {
  HashMap m = {0}; char *k; int len; ASSUME(isk(k));
  CHECK(hashmap_get2(&m, k, len) == 0, "nothing is found in an empty map");
  hashmap_delete2(&m, k, len); CHECK(!m.buckets && !m.used, "deleting from an empty map does nothing");
  REACH("end");
}
void h_delete(void) {
  start(); int len;
  bool was = VK.in; u p = slot(&VK);
  hashmap_delete2(&M, K, len);
  CHECK(M.buckets == B && M.capacity == (int)cap && M.used == used0, "delete keeps the table");
  if (!was || X != p) CHECK(same(B[X], X0), "delete touches no other slot");
  VK.in = false; CHECK(at(B, &VK, X), "deleted key is gone, table well formed for it");
  if (CID(K) != CID(Q)) CHECK(at(B, &VQ, X), "table stays well formed for every other key");
  if (VQ.in && CID(K) != CID(Q)) CHECK(hit(&B[slot(&VQ)], Q), "other keys stay");
  CHECK((B[X].key != 0) == (X0.key != 0), "number of occupied slots unchanged");
  REACH("end"); if (was) REACH("was present");
}
#ifdef UNIT_PUT
#ifdef FULL
static u p_, d_; static bool rehashed;
// Contract of rehash (proved by h_rehash): another well-formed table with room
// for the same map.
static void rehash(HashMap *m) {
  CHECK(m == &M && (m->used * 100) / m->capacity >= HIGH_WATERMARK && !rehashed, "rehash only when too full"); ASSUME(m == &M && !rehashed); rehashed = true;
  View k = VK, q = VQ; void *kv = VK.in ? B[slot(&VK)].val : 0, *qv = VQ.in ? B[slot(&VQ)].val : 0; char *k0 = K, *q0 = Q;
  start(); ASSUME(K == k0 && Q == q0 && VK.in == k.in && VQ.in == q.in && M.used * 100 / (int)cap < 80);
  if (VK.in) ASSUME(B[slot(&VK)].val == kv);
  if (VQ.in) ASSUME(B[slot(&VQ)].val == qv);
  u d; ASSUME(d < cap); d_ = d; p_ = (home(K) + d) & mask_; use(p_);
}
#else
static void rehash(HashMap *m) { CHECK(0, "rehash although there is room"); CUT(); }
#endif
void h_put(void) {
  start(); int len; void *v;
#ifdef FULL
  ASSUME(M.used * 100 / M.capacity >= HIGH_WATERMARK);
#else
  ASSUME(M.used * 100 / M.capacity < HIGH_WATERMARK);
#endif
  void *qv = VQ.in ? B[slot(&VQ)].val : 0;
  u d; ASSUME(d < cap); u p = (home(K) + d) & mask_; HashEntry *b0 = B;
#ifndef FULL
  use(p);
#endif
  hashmap_put2(&M, K, len, v);
  CHECK(M.buckets == B && M.capacity == (int)cap, "same table");
  bool was = VK.in;
  if (!was) { // the slot that was filled
  #ifdef FULL
    p = p_; d = d_;
#endif
    if (hit(&B[p], K)) {
      VK.in = true; VK.dist = d;
      CHECK(B[p].val == v && B[p].key == K && B[p].keylen == len, "stored value is found");
      CHECK(at(B, &VK, X), "table well formed for the new key");
      CHECK(M.used == used0 + 1, "occupied-slot count follows");
      if (X != p) CHECK(same(B[X], X0), "insertion touches no other slot"); else CHECK(X0.key == 0, "a free slot is used");
      if (CID(K) != CID(Q)) { CHECK(at(B, &VQ, X), "table stays well formed for every other key");
        if (VQ.in) CHECK(slot(&VQ) != p && hit(&B[slot(&VQ)], Q) && B[slot(&VQ)].val == qv, "other keys keep their values"); }
      CHECK(M.used * 100 / M.capacity < 90 && M.used < M.capacity, "a free slot remains");
      REACH("inserted");
    }
  } else {
    u p = slot(&VK);
    CHECK(hit(&B[p], K) && B[p].val == v, "stored value is found"); CHECK(M.used == used0, "occupied-slot count follows");
    CHECK(at(B, &VK, X), "table well formed for the key");
    if (X != p) CHECK(same(B[X], X0), "overwriting touches no other slot"); else CHECK(B[X].key == X0.key && B[X].keylen == X0.keylen, "overwriting keeps the key");
    REACH("overwritten");
  }
}
// an insertion of an absent key does fill a slot
void h_put_fills(void) {
  start(); int len; void *v; ASSUME(M.used * 100 / M.capacity < HIGH_WATERMARK);
  HashEntry *r = get_or_insert_entry(&M, K, len);
  CHECK(__CPROVER_POINTER_OBJECT(r) == __CPROVER_POINTER_OBJECT(B), "entry lies in the table"); u p = __CPROVER_POINTER_OFFSET(r) / sizeof(HashEntry);
  CHECK(p < cap && hit(&B[p], K), "the entry holds the key");
  REACH("end");
}
void h_first(void) {
  HashMap m = {0}; char *k, *q; int len, len2; void *v; ASSUME(isk(k) && isk(q));
  HashEntry *r = get_or_insert_entry(&m, k, len);
  CHECK(m.capacity == 16 && m.used == 1, "first table"); CHECK(__CPROVER_POINTER_OBJECT(r) == __CPROVER_POINTER_OBJECT(m.buckets), "entry lies in the table");
  u p = __CPROVER_POINTER_OFFSET(r) / sizeof(HashEntry); u x; ASSUME(x < 16);
  CHECK(p == (HV(k) & 15) && m.buckets[p].key == k, "first key goes to its home slot");
  if (x != p) CHECK(m.buckets[x].key == 0, "all other slots are free");
  REACH("end");
}
#endif
#ifdef UNIT_REHASH
// rehash: every live entry is put once into an empty table of a sufficient size.
static u cnt_i, cnt_v; static int nlive; // ghost: number of live entries in slots [0, i)
static HashMap *m2; static bool has2; static void *val2; static char *src_k; static int ph[3];
// number of live entries below i: a function pinned only by its recurrence
int __CPROVER_uninterpreted_cnt(int);
static int cnt(int i) { int r = __CPROVER_uninterpreted_cnt(i); return r; }
static void step(int i) { ASSUME(cnt(0) == 0 && cnt(cap) <= used0 && cnt(cap) >= 0); if (i >= 0 && i < (int)cap) { use(i); ASSUME(cnt(i + 1) == cnt(i) + (live(&B[i]) ? 1 : 0) && cnt(i) >= 0 && cnt(i+1) <= cnt(cap)); } }
static bool cut0(int *i, int *nkeys) {
  if (ph[0]++ == 0) { step(0); CHECK(*i == 0 && *nkeys == cnt(0), "count starts at zero"); int n; *i = n; ASSUME(n >= 0 && n <= (int)cap); step(n); *nkeys = cnt(n); }
  else { CHECK(*i >= 0 && *i <= (int)cap && *nkeys == cnt(*i), "live entries counted"); CUT(); }
  return true;
}
static bool pow2(int c) { return c >= (int)cap && (c & (c - 1)) == 0; }
static bool cut1(int *c, int nkeys) {
  if (ph[1]++ == 0) { CHECK(nkeys == cnt(cap), "all live entries counted"); CHECK(*c == (int)cap, "size starts at the current one"); int n; *c = n; ASSUME(pow2(n) && n <= 2 * (int)cap); }
  else { CHECK(pow2(*c) && *c <= 2 * (int)cap, "size stays a power of two, at most doubled"); CUT(); }
  return true;
}
// view of Q in the new table after the first i slots
static bool cut2inv(int i, HashMap *n) { return i >= 0 && i <= (int)cap && n->used == cnt(i) && has2 == (VQ.in && slot(&VQ) < (u)i) && (!has2 || val2 == B[slot(&VQ)].val) && same(B[X], X0); }
static HashEntry *b2; static int c2;
static bool cut2(int *i, HashMap *n) {
  if (ph[2]++ == 0) { m2 = n; CHECK(n->capacity > 0 && n->used == 0, "new table is empty");
    CHECK(n->capacity >= (int)cap && pow2(n->capacity) && (cnt(cap) * 100) / n->capacity < 80, "new table has room"); b2 = n->buckets; c2 = n->capacity;
    CHECK(__CPROVER_OBJECT_SIZE(b2) >= (size_t)c2 * sizeof(HashEntry) && b2 != B, "new table memory has the new capacity");
    u x; ASSUME(x < (u)c2); CHECK(b2[x].key == 0, "new table starts free");
    step(0); CHECK(cut2inv(*i, n), "copy invariant on entry"); int k; bool h; void *v; has2 = h; val2 = v; *i = k; n->used = 0; ASSUME(k >= 0 && k <= (int)cap); step(k); n->used = cnt(k); ASSUME(cut2inv(k, n)); }
  else { CHECK(n->buckets == b2 && n->capacity == c2, "copying does not resize"); CHECK(cut2inv(*i, n), "copy invariant preserved"); CUT(); }
  return true;
}
// Contract of hashmap_put2 on the new table, seen from key Q; the key put is
// not there yet because live keys are pairwise distinct.
void hashmap_put2(HashMap *m, char *key, int len, void *val) {
  CHECK(m == m2 && m->buckets == b2 && isk(key), "copies into the new table"); ASSUME(m == m2 && isk(key));
  CHECK(m->used * 100 / m->capacity < HIGH_WATERMARK, "no nested rehash");
  m->used++;
  if (CID(key) == CID(Q)) { CHECK(!has2, "each key copied once"); has2 = true; val2 = val; }
}
void h_rehash(void) {
  start(); 
  void *qv = VQ.in ? B[slot(&VQ)].val : 0;
  BODY(rehash)(&M);
  CHECK(M.buckets == b2 && M.capacity == c2, "the new table replaces the old one");
  CHECK(M.used == cnt(cap), "tombstones dropped, every live entry kept"); CHECK(M.used * 100 / M.capacity < 80, "rehash leaves room");
  CHECK(has2 == VQ.in && (!has2 || val2 == qv), "rehash keeps exactly the keys and their values");
  REACH("end"); 
}
#endif
#elif !defined(UNIT_STR)
static char ka[8], kb[8];
void h_hash(void) {
  int n; ASSUME(n >= 0 && n <= 4);
  for (int i = 0; i < 4; i++) if (i < n) { char c; ka[i] = kb[i] = c; }
  CHECK(fnv_hash(&ka[0], n) == fnv_hash(&kb[1] - 1, n), "hash depends on the bytes of the key only");
  REACH("end");
}
void h_match(void) {
  int n, m; ASSUME(n >= 0 && n <= 3 && m >= 0 && m <= 3); bool eq = n == m; HashEntry e; uint8_t kind;
  for (int i = 0; i < 3; i++) { char c, d; ka[i] = c; kb[i] = d; if (i < n && c != d) eq = false; }
  e.key = kind == 0 ? (char *)0 : kind == 1 ? (char *)TOMBSTONE : &ka[0]; e.keylen = n;
  CHECK(match(&e, kb, m) == (kind > 1 && eq), "an entry matches exactly the live key with the same bytes");
  REACH("end");
}
#endif
#ifdef UNIT_STR
static HashMap M; static char *gk; static int gl; static void *gv; static int gop;
void *hashmap_get2(HashMap *m, char *k, int l) { gop = 1; gk = k; gl = l; CHECK(m == &M, "same map"); return gv; }
void hashmap_put2(HashMap *m, char *k, int l, void *v) { gop = 2; gk = k; gl = l; gv = v; CHECK(m == &M, "same map"); }
void hashmap_delete2(HashMap *m, char *k, int l) { gop = 3; gk = k; gl = l; CHECK(m == &M, "same map"); }
void h_wrap(void) {
  static char t[5]; for (int i = 0; i < 4; i++) { char c; t[i] = c; } t[4] = 0;
  int n = !t[0] ? 0 : !t[1] ? 1 : !t[2] ? 2 : !t[3] ? 3 : 4; void *v, *w; gv = v;
  CHECK(hashmap_get(&M, t) == v && gop == 1 && gk == t && gl == n, "string lookup uses the bytes up to NUL");
  hashmap_put(&M, t, w); CHECK(gop == 2 && gk == t && gl == n && gv == w, "string insertion uses the bytes up to NUL");
  hashmap_delete(&M, t); CHECK(gop == 3 && gk == t && gl == n, "string deletion uses the bytes up to NUL");
  REACH("end");
}
#endif
#endif
