// C05: is_compatible against the structural rules, and its symmetry.
#include "vf.h"
#include "type.c"
#include "model_mem.h"

// ---- C05: type compatibility -----------------------------------------------------
#ifndef QUAL
#define QUAL 0
#endif
#ifndef KA
#define KA -1
#endif
#ifndef KB
#define KB -1
#endif
// Types A and B with arbitrary components.  Compatibility of components is an
// arbitrary relation on unqualified types, symmetric and reflexive: the
// contract of is_compatible, which is what each call is proved to establish.
#define NC 3
static Type c0_, c1_, c2_, ori0, ori1; static Obj pr00, pr01, pr02, pr10, pr11, pr12;
static Type *CP(int i) { return i == 0 ? &c0_ : i == 1 ? &c1_ : &c2_; }
static Obj *PR(int w, int i) { return w ? (i == 0 ? &pr10 : i == 1 ? &pr11 : &pr12) : (i == 0 ? &pr00 : i == 1 ? &pr01 : &pr02); }
static uint16_t rel;
static int cix(Type *t) { return t == &c0_ ? 0 : t == &c1_ ? 1 : t == &c2_ ? 2 : -1; }
static bool REL(Type *a, Type *b) { int i = cix(a), j = cix(b); CHECK(i >= 0 && j >= 0, "components are compared with components"); return i == j || (rel >> (i < j ? i * NC + j : j * NC + i) & 1); }
static Type TA_, TB_; static Type *sA, *sB;   // the two types and their unqualified forms
static bool spec_compat(Type *a, Type *b);
bool is_compatible(Type *a, Type *b) {
  Type *x = a->origin ? a->origin : a, *y = b->origin ? b->origin : b;
  if (cix(x) < 0 || cix(y) < 0) { // the pair itself with a qualifier removed
    CHECK(((x == sA && y == sB) || (x == sB && y == sA)) && (a->origin == 0 || b->origin == 0 || 1), "recursion is on the same pair");
    return x == sA ? spec_compat(x, y) : spec_compat(x, y);
  }
  return REL(x, y);
}
static bool quals_eq(Type *a, Type *b) { return a->is_atomic == b->is_atomic && a->is_const == b->is_const && a->is_volatile == b->is_volatile && a->is_restrict == b->is_restrict; }
// C11 6.2.7, 6.7.3p10, 6.7.6
static bool spec_compat(Type *a, Type *b) {
  if (a == b) return true;
  bool aa = a->kind == TY_ARRAY || a->kind == TY_VLA, ab = b->kind == TY_ARRAY || b->kind == TY_VLA;
  if (aa && ab) {
    if (!quals_eq(a->base, b->base) || !REL(a->base, b->base)) return false;
    return a->kind == TY_VLA || b->kind == TY_VLA || a->array_len < 0 || b->array_len < 0 || a->array_len == b->array_len;
  }
  if (a->kind != b->kind) return false;
  switch (a->kind) {
  case TY_PCHAR: case TY_CHAR: case TY_SHORT: case TY_INT: case TY_LONG: case TY_LONGLONG: return a->is_unsigned == b->is_unsigned;
  case TY_FLOAT: case TY_DOUBLE: case TY_LDOUBLE: return true;
  case TY_PTR: return quals_eq(a->base, b->base) && REL(a->base, b->base);
  case TY_FUNC: {
    if (!REL(a->return_ty, b->return_ty) || a->is_variadic != b->is_variadic) return false;
    Obj *p = a->param_list, *q = b->param_list;
    for (int i = 0; i < 3 && p && q; i++, p = p->param_next, q = q->param_next) if (!REL(p->ty, q->ty)) return false;
    return !p && !q; }
  }
  return false; // distinct struct, union, void or bool objects
}
static void mk(Type *t, int w, int bix, int rix, int np, int p0, int p1, int p2) {
  t->base = CP(bix); t->return_ty = CP(rix); t->param_list = np ? PR(w, 0) : 0;
  PR(w, 0)->ty = CP(p0); PR(w, 1)->ty = CP(p1); PR(w, 2)->ty = CP(p2);
  PR(w, 0)->param_next = np > 1 ? PR(w, 1) : 0; PR(w, 1)->param_next = np > 2 ? PR(w, 2) : 0; PR(w, 2)->param_next = 0;
}
static void comp(Type *t, int q) { t->kind = TY_INT; t->is_const = q & 1; t->is_volatile = q & 2; t->is_atomic = q & 4; t->is_restrict = q & 8; }
void h_compat(void) {
  SET_IN(rel_, rel);
  uint64_t q; SET_IN(quals, q); comp(&c0_, q); comp(&c1_, q >> 4); comp(&c2_, q >> 8); // components
#define SIDE(w, T, S, ot, st) \
  IN_RANGE(int, k##w, 0, 31); IN_BOOL(un##w); IN_RANGE(int, b##w, 0, NC - 1); IN_RANGE(int, r##w, 0, NC - 1); IN_RANGE(int, n##w, 0, 3); IN_BOOL(var##w); IN(int64_t, len##w); \
  IN_RANGE(int, p0##w, 0, NC - 1); IN_RANGE(int, p1##w, 0, NC - 1); IN_RANGE(int, p2##w, 0, NC - 1); IN_BOOL(qual##w); \
  { Type *t = &T; t->size = 8; mk(t, w, b##w, r##w, n##w, p0##w, p1##w, p2##w); t->kind = (w ? KB : KA) >= 0 ? (w ? KB : KA) : k##w; t->is_unsigned = un##w; t->is_variadic = var##w; t->array_len = len##w; \
    S = t; if (QUAL >> w & 1) { S = w ? &ori1 : &ori0; *S = T; T.origin = S; T.is_const = qual##w; } }
  SIDE(0, TA_, sA, ta, sa) SIDE(1, TB_, sB, tb, sb)
  ASSUME(TA_.kind != TY_ENUM && TB_.kind != TY_ENUM);
  Type *b = &TB_;
#if QUAL == 4
  b = sB = sA;
#endif
  bool res1 = is_compatible__body(&TA_, b), res2 = is_compatible__body(b, &TA_);
  CHECK(res1 == spec_compat(sA, sB), "type compatibility follows the structural rules");
  CHECK(res1 == res2, "type compatibility is symmetric");
  REACH("compat");
}
