// C18: dispatch of a switch.  gen_stmt(ND_SWITCH) prints its compare-and-branch
// chain for a list of arbitrary, pairwise disjoint ranges; the ghost machine
// executes it on an arbitrary controlling value.
#define VF_OWN_STMT 1
#include "cg.h"
#ifndef NCASE
#define NCASE 3
#endif
#ifndef LAB
#define LAB "ABC"   // label of each range; '-': merged into another range, 'D': the label default has too
#endif
#ifndef DEF
#define DEF 1
#endif
#ifndef TX
#define TX 0
#endif
#ifndef OPT
#define OPT 1
#endif
static Node SW, BODY_; static CaseRange cr[NCASE ? NCASE : 1], dflt;
static char *lname(char c) { return c == 'A' ? ".LA" : c == 'B' ? ".LB" : c == 'C' ? ".LC" : c == 'D' ? ".LD" : NULL; }
static uint64_t lid(char *s) { int p = 0; return label_id(s, &p); }
static bool le(Type *t, int64_t a, int64_t b) { return t->is_unsigned ? (uint64_t)a <= (uint64_t)b : a <= b; }
// Induction over a list of any length.  Invariant at the head of the loop: either
// no earlier range contains the value, control is still here and the value is in
// %rax; or control has already gone to the label of the range that contains it.
static CaseRange one; static int passes; static bool hit; static int64_t V; static uint64_t went; static Type *VT;
static bool rax_v(void) { return VT->size == 8 ? m.r[AX] == (uint64_t)V : (uint32_t)m.r[AX] == (uint32_t)V; }
static bool frame_ok(void) { return m.r[BP] == r0[BP] && m.r[SP] == r0[SP] && m.r[BX] == r0[BX] && ch[1].cnt == 0; }
bool sw_cut(CaseRange **p) {
  if (passes++ == 0) {
    CHECK(m.live && rax_v() && *p == SW.cases && frame_ok(), "the controlling value is in place before the first comparison");
    m.r[CX] = nd64(); m.r[DX] = nd64(); m.zf = ndb(); m.cf = ndb(); m.sf = ndb(); m.of = ndb();
    m.r[AX] = VT->size == 8 ? (uint64_t)V : (nd64() << 32) | (uint32_t)V;
    if (ndb()) { m.live = false; m.target = went; hit = true; m.r[AX] = nd64(); }
    *p = ndb() ? &one : NULL;
    return true;
  }
  bool in = one.label && le(VT, one.lo, V) && le(VT, V, one.hi) && !hit;
  CHECK(frame_ok(), "frame and stack pointers preserved");
  if (hit) CHECK(!m.live && m.target == went, "a jump already taken is final");
  else if (in && !(DEF && one.label == dflt.label)) CHECK(!m.live && m.target == lid(one.label), "control goes to the label of the range that contains the value");
  else CHECK(m.live && rax_v(), "the controlling value is kept while ranges are tried");
  CUT(); return true;
}
#ifndef VF_NATIVE
void h_switch_any(void) {
  cg_init(OPT); child_inputs(0, S_OPQ, TY_(TX), TY_(TX)); regions_disjoint(); sym_addr = 0x1000;
  VT = TY_(TX); V = ch[0].val;
  SW.kind = ND_SWITCH; SW.cond = &ch[0].n; SW.brk_label = ".LX"; SW.then = &BODY_;
  BODY_.kind = ND_EXPR_STMT; BODY_.lhs = &ch[1].n; ch[1].n.kind = ND_STMT_EXPR; ch[1].n.body = &opq_body; ch[1].n.ty = ty_int; ch[1].cnt = 0;
  if (DEF) { dflt.label = lname('D'); SW.default_case = &dflt; }
  IN(int64_t, lo); IN(int64_t, hi); one.lo = lo; one.hi = hi; one.label = lname(LAB[0]);
  ASSUME(normalized(VT, lo) && normalized(VT, hi) && le(VT, lo, hi)); went = lid(".LE");
  SW.cases = &one;
  gen_stmt(&SW);
  CHECK(ch[1].cnt == 0, "the body is entered only through a label");
  if (hit) CHECK(!m.live && m.target == went, "a jump already taken is final");
  else if (DEF) CHECK(!m.live && m.target == lid(dflt.label), "a value without a label goes to default");
  else CHECK(m.live, "a value without a label leaves the switch");
  CHECK(frame_ok(), "frame and stack pointers preserved");
  REACH("switch any");
}
#endif
void h_switch(void) {
  cg_init(OPT); child_inputs(0, S_OPQ, TY_(TX), TY_(TX)); regions_disjoint(); sym_addr = 0x1000;
  Type *ty = TY_(TX); int64_t v = ch[0].val;
  memset(&SW, 0, sizeof SW); memset(&BODY_, 0, sizeof BODY_);
  SW.kind = ND_SWITCH; SW.cond = &ch[0].n; SW.brk_label = ".LX"; SW.then = &BODY_;
  BODY_.kind = ND_EXPR_STMT; BODY_.lhs = &ch[1].n; ch[1].n.kind = ND_STMT_EXPR; ch[1].n.body = &opq_body; ch[1].n.ty = ty_int; ch[1].cnt = 0;
  if (DEF) { dflt.label = lname('D'); SW.default_case = &dflt; }
  char *want = DEF ? lname('D') : SW.brk_label;
  for (int i = 0; i < NCASE; i++) {
    int64_t lo, hi; if (i == 0) { IN(int64_t, lo0); IN(int64_t, hi0); lo = lo0; hi = hi0; } else if (i == 1) { IN(int64_t, lo1); IN(int64_t, hi1); lo = lo1; hi = hi1; } else { IN(int64_t, lo2); IN(int64_t, hi2); lo = lo2; hi = hi2; }
#ifdef VF_NATIVE
    lo = norm(ty, lo); hi = norm(ty, hi); if (le(ty, hi, lo)) { int64_t t = lo; lo = hi; hi = t; }
#endif
    ASSUME(normalized(ty, lo) && normalized(ty, hi) && le(ty, lo, hi));
    for (int j = 0; j < i; j++) if (LAB[i] != '-' && LAB[j] != '-') ASSUME(!le(ty, lo, cr[j].hi) || !le(ty, cr[j].lo, hi));
    cr[i].label = lname(LAB[i]); cr[i].lo = lo; cr[i].hi = hi; cr[i].next = i ? &cr[i - 1] : 0;
    if (LAB[i] != '-' && le(ty, lo, v) && le(ty, v, hi)) want = cr[i].label;
  }
  SW.cases = NCASE ? &cr[NCASE - 1] : 0;
  gen_stmt(&SW);
  CHECK(ch[1].cnt == 0, "the body is entered only through a label");
  CHECK(ch[0].cnt == 1, "the controlling expression is evaluated once");
  if (want == SW.brk_label) CHECK(m.live, "a value without a label leaves the switch");
  else CHECK(!m.live && m.target == lid(want), "control goes to the label of the range that contains the value");
  CHECK(m.r[BP] == r0[BP] && m.r[SP] == r0[SP], "frame and stack pointers preserved");
  REACH("switch");
}
