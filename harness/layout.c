// C07: struct_decl / union_decl on a list of members against the System V
// layout rules (3.1.2 of the psABI plus the packed/aligned attributes of GCC).
// The members before the last two bring the running bit position and the
// running alignment into every state they can have, so the one under test is
// laid out from an arbitrary state.
#include "vf.h"
#include "parse.c"
#include "model_mem.h"
void error_tok(Token *t, char *f, ...) { CHECK(0, "well-formed declaration rejected"); CUT(); }
void verror_at_tok(Token *t, char *f, va_list ap) { CHECK(0, "well-formed declaration rejected"); CUT(); }
void error_ice(char *f, int32_t l) { CHECK(0, "internal error for a well-formed declaration"); CUT(); }
#ifdef VF_NATIVE
char *format(char *fmt, ...) { return "x"; }
#endif
#ifndef S1
#define S1 4        // storage size of the leading bit-field
#endif
#ifndef S2
#define S2 4        // member under test: storage size / alignment
#endif
#ifndef BF2
#define BF2 1
#endif
#ifndef A0
#define A0 0
#endif
#ifndef A2
#define A2 0        // its aligned attribute
#endif
#ifndef AS
#define AS 0        // aligned attribute of the aggregate
#endif
#ifndef PK
#define PK 0
#endif
#ifndef K2
#define K2 TY_ARRAY // kind of a member under test that is not a bit-field
#endif
static Member mb0, mb1, mb2, mb3, *MB[4] = {&mb0, &mb1, &mb2, &mb3}; static Type mt0, mt1, mt2, mt3, st; static Token nm; static int64_t want[4], endp[4];
static int64_t up(int64_t n, int64_t a) { return (n + a - 1) & ~(a - 1); }
static void scalar(Type *t, int sz) { *t = (Type){0}; t->kind = sz == 1 ? TY_CHAR : sz == 2 ? TY_SHORT : sz == 4 ? TY_INT : TY_LONG; t->size = t->align = sz; }
static void build(void) {
  mb0 = mb1 = mb2 = mb3 = (Member){0}; mt0 = mt1 = mt2 = mt3 = (Type){0};
  // m0: object of any size and alignment 1
  IN_RANGE(int, n0, 0, 0x10000000); mt0.kind = TY_ARRAY; mt0.size = n0; mt0.align = 1; mb0.alt_align = A0; mb0.name = &nm;
  // m1: bit-field, possibly unnamed or of width zero
  scalar(&mt1, S1); IN_RANGE(int, w1, 0, S1 * 8); IN_BOOL(named1); mb1.is_bitfield = true; mb1.bit_width = w1; mb1.name = named1 && w1 ? &nm : 0;
  // m2: the member under test
  if (BF2) { scalar(&mt2, S2); IN_RANGE(int, w2, 0, S2 * 8); IN_BOOL(named2); mb2.is_bitfield = true; mb2.bit_width = w2; mb2.name = w2 && (named2 || A2) ? &nm : 0; mb2.alt_align = A2; ASSUME(!A2 || w2); }
  else { IN_RANGE(int, n2, 0, 0x100000); mt2.kind = K2; mt2.align = S2; mt2.size = (int64_t)n2 * S2; mb2.alt_align = A2; IN_BOOL(anon); mb2.name = K2 == TY_STRUCT && anon ? 0 : &nm; }
  // m3: shows where the next member starts
  scalar(&mt3, 1); mb3.is_bitfield = true; mb3.bit_width = 1; mb3.name = &nm;
  mb0.ty = &mt0; mb1.ty = &mt1; mb2.ty = &mt2; mb3.ty = &mt3; mb0.next = &mb1; mb1.next = &mb2; mb2.next = &mb3;
}
void h_struct(void) {
  build();
  st = (Type){0}; st.kind = TY_STRUCT; st.size = -1; st.align = 1; st.is_packed = PK; st.members = &mb0;
  int64_t pos = 0; int al = AS > 1 ? AS : 1;
  for (int i = 0; i < 4; i++) {
    Member *m = MB[i]; int64_t unit = m->ty->size * 8; int expl = m->alt_align;
    if (m->is_bitfield) {
      if (expl) pos = up(pos, expl * 8);
      if (m->bit_width == 0) pos = up(pos, unit);
      else if (!PK && up(pos + 1, unit) < pos + m->bit_width) pos = up(pos, unit); // would cross a storage unit
      want[i] = pos; pos += m->bit_width;
    } else {
      int a = PK ? 1 : m->ty->align; if (expl > a) a = expl;
      pos = up(pos, a * 8); want[i] = pos; pos += m->ty->size * 8;
    }
    endp[i] = pos;
    if (m->name || !m->is_bitfield) { int a = PK ? 1 : m->ty->align; if (expl > a) a = expl; if (a > al) al = a; }
  }
  int64_t size = up(up(pos, 8) / 8, al);
  Type *r = struct_decl(&st, AS);
  CHECK(r->size == size, "the size is the one the ABI prescribes");
  CHECK(r->align == al, "the alignment is the one the ABI prescribes");
  Member *l = r->members; int64_t last = 0;
  for (int i = 0; i < 4; i++) {
    Member *m = MB[i];
    if (m->is_bitfield && !m->name) continue;
    CHECK(l == m, "the members keep their order; unnamed bit-fields are dropped"); l = l ? l->next : 0;
    int64_t at = (int64_t)m->offset * 8 + (m->is_bitfield ? m->bit_offset : 0);
    CHECK(at == want[i], "the member is placed where the ABI prescribes");
    CHECK(at >= last, "no two members share a bit"); last = at + (m->is_bitfield ? m->bit_width : m->ty->size * 8);
    CHECK(last <= r->size * 8, "the member lies inside the aggregate");
    if (m->is_bitfield) CHECK(m->bit_offset >= 0 && m->bit_offset < m->ty->size * 8 && (PK || m->bit_offset + m->bit_width <= m->ty->size * 8), "a bit-field lies inside its storage unit");
    if (m->is_bitfield) CHECK(m->offset % m->ty->size == 0, "storage units are naturally aligned");
  }
  CHECK(l == 0, "no other members");
  REACH("struct");
}
void h_union(void) {
  build();
  st = (Type){0}; st.kind = TY_UNION; st.size = -1; st.align = 1; st.is_packed = PK; st.members = &mb0;
  int64_t size = 0; int al = AS > 1 ? AS : 1;
  for (int i = 0; i < 4; i++) {
    Member *m = MB[i]; int64_t n = m->is_bitfield ? up(m->bit_width, 8) / 8 : m->ty->size; if (n > size) size = n;
    if (m->name || !m->is_bitfield) { int a = PK ? 1 : m->ty->align; if (m->alt_align > a) a = m->alt_align; if (a > al) al = a; }
  }
  Type *r = union_decl(&st, AS);
  CHECK(r->size == up(size, al), "the size is the one the ABI prescribes");
  CHECK(r->align == al, "the alignment is the one the ABI prescribes");
  Member *l = r->members;
  for (int i = 0; i < 4; i++) {
    Member *m = MB[i]; if (m->is_bitfield && !m->name) continue;
    CHECK(l == m, "the members keep their order; unnamed bit-fields are dropped"); l = l ? l->next : 0;
    CHECK(m->offset == 0 && m->bit_offset == 0, "every member of a union starts at its beginning");
  }
  CHECK(l == 0, "no other members");
  REACH("union");
}
