// C09: assign_lvar_offsets.  One scope with arbitrary locals placed from an
// arbitrary frame depth; nested scopes by contract (they use some interval of
// the frame that starts where they are told to and report where it ends).
#include "cg.h"
#ifndef AL
#define AL 8
#endif
#ifndef KIND_
#define KIND_ TY_INT
#endif
#ifndef SZ
#define SZ 0       // size of the local under test is a multiple of its natural unit
#endif
typedef struct { Scope *sc; int from, to; } Sub;
static Sub subs[3]; static int nsub; static Scope S, kid[2];
#ifdef VF_NATIVE
#define SUBFN assign_lvar_offsets_unused
#else
#define SUBFN assign_lvar_offsets
#endif
static int SUBFN(Scope *sc, int bottom) {
  CHECK(nsub < 3, "every nested scope is placed once");
  int r = nd64() & 0xfffffff; ASSUME(r >= bottom);
  subs[nsub].sc = sc; subs[nsub].from = bottom; subs[nsub].to = r; nsub++;
  return r;
}
void h_frame(void) {
  cg_init(true); nsub = 0;
  static Obj v0, v1, v2, vs; static Type t0, t1, t2;
  v0 = v1 = v2 = vs = (Obj){0}; t0 = t1 = t2 = (Type){0}; S = kid[0] = kid[1] = (Scope){0};
  IN_RANGE(int, n0, 0, 0xffffff); IN_RANGE(int, n1, 0, 0xffffff); IN_RANGE(int, n2, 0, 0xff); IN_RANGE(int, bottom, 0, 0xfffffff); IN_RANGE(int, so, 0, 100000);
  t0.kind = TY_CHAR; t0.size = n0; t0.align = 1; v0.ty = &t0; v0.align = 1;
  t1.kind = KIND_; t1.size = n1; t1.align = 1; v1.ty = &t1; v1.align = AL;
  t2.kind = TY_LONG; t2.size = n2; t2.align = 8; v2.ty = &t2; v2.align = 8;
  vs.ty = &t2; vs.pass_by_stack = true; vs.stack_offset = so; vs.align = 8;
  v0.next = &v1; v1.next = &vs; vs.next = &v2; S.locals = &v0;
  IN_RANGE(int, nk, 0, 2); S.children = nk ? &kid[0] : 0; kid[0].sibling_next = nk > 1 ? &kid[1] : 0;
  int end = BODY(assign_lvar_offsets)(&S, bottom);
  int lo0 = -v0.ofs, lo1 = -v1.ofs, lo2 = -v2.ofs; // each object occupies [-lo, -lo + size)
  CHECK(lo0 - n0 >= bottom && lo1 - n1 >= lo0 && lo2 - n2 >= lo1, "locals do not overlap each other or the enclosing scopes' objects");
  CHECK(v1.ofs % AL == 0 && v2.ofs % 8 == 0, "locals are aligned");
  if (KIND_ == TY_ARRAY && n1 >= 16) CHECK(v1.ofs % 16 == 0, "arrays of 16 bytes and more are 16-byte aligned");
  CHECK(vs.ofs == so + 16 && !strcmp(vs.ptr, "%rbp"), "a parameter passed in memory stays in the caller's argument area");
  CHECK(!strcmp(v0.ptr, "%rbp") && !strcmp(v1.ptr, "%rbp"), "locals are addressed from the frame's base");
  CHECK(end >= lo2, "the frame covers every local");
#ifndef VF_NATIVE
  CHECK(nsub == nk, "every nested scope is placed once");
  for (int i = 0; i < 2; i++) if (i < nsub) {
    CHECK(subs[i].sc == &kid[i], "every nested scope is placed once");
    CHECK(subs[i].from >= lo2, "objects of nested scopes do not overlap the live objects around them");
    CHECK(end >= subs[i].to, "the frame covers every nested scope");
  }
  if (nsub > 1 && (!opt_reuse_stack || the_fn.dont_reuse_stk)) CHECK(subs[1].from >= subs[0].to, "without reuse scopes do not share storage");
#endif
  REACH("frame");
}

#ifdef U_ALIGN
// get_lvar_align: the alignment of the frame satisfies every local of every
// scope; nested scopes by contract (some value at least the one passed in).
static int sub_r[2]; static Scope S2, kid2[2]; static bool sub_seen[2];
static int get_lvar_align(Scope *sc, int align) {
  const int k = sc == &kid2[0] ? 0 : 1; CHECK(sc == &kid2[k], "nested scopes are visited");
  sub_seen[k] = true; return align > sub_r[k] ? align : sub_r[k];
}
void h_align(void) {
  static Obj v0, v1, vs; v0 = v1 = vs = (Obj){0}; S2 = kid2[0] = kid2[1] = (Scope){0}; sub_seen[0] = sub_seen[1] = false; IN_RANGE(int, s0, 1, 0xfffffff); IN_RANGE(int, s1, 1, 0xfffffff); sub_r[0] = s0; sub_r[1] = s1;
  IN_RANGE(int, a0, 1, 0xfffffff); IN_RANGE(int, a1, 1, 0xfffffff); IN_RANGE(int, as, 1, 0xfffffff); IN_RANGE(int, nk, 0, 2); IN_RANGE(int, al, 1, 0xfffffff);
  v0.align = a0; v1.align = a1; vs.align = as; vs.pass_by_stack = true; v0.next = &vs; vs.next = &v1; S2.locals = &v0;
  S2.children = nk ? &kid2[0] : 0; kid2[0].sibling_next = nk > 1 ? &kid2[1] : 0;
  int r = BODY(get_lvar_align)(&S2, al);
  CHECK(r >= al && r >= a0 && r >= a1, "the frame is aligned for every local");
  CHECK(sub_seen[0] == (nk > 0) && sub_seen[1] == (nk > 1), "nested scopes are visited");
  for (int i = 0; i < 2; i++) if (i < nk) CHECK(r >= sub_r[i], "the frame is aligned for the locals of nested scopes");
  CHECK(r == al || r == a0 || r == a1 || (nk > 0 && r == sub_r[0]) || (nk > 1 && r == sub_r[1]), "the alignment is one that is asked for");
  REACH("align");
}
#endif
