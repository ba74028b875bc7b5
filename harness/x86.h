// Ghost machine.  Every instruction the code generator prints is executed here
// at the moment it is printed: fprintf/snprintf keep the text they are given,
// except that a number (which may be symbolic) is carried as a 9-byte escape.
// The machine is the part of x86-64 slimcc emits for integer code, written from
// the instruction set manual.
#ifndef X86_H
#define X86_H
#include "x86_keys.h"
enum { AX, CX, DX, BX, SP, BP, SI, DI, R8_, R9_, R10_, R11_, R12_, R13_, R14_, R15_, RIP };
#define NREC 6
#define NREG 4
#define OBJSZ 24
typedef struct {
  uint64_t r[17], x[16];
  bool zf, cf, sf, of;
  bool live; uint64_t target;        // control: not live = jumping forward to target
  int last[17], lastx[16];           // record count at last access of a register
} Mach;
static Mach m;
typedef struct { uint64_t r[17], x[16]; bool live; int64_t low; bool slot; uint64_t addr; int n; uint64_t val; } Rec;
static Rec rec[NREC]; static int nrec;
static int64_t tmp_low, tmp_high; static bool tmp_any; // temp area bytes written since entry
typedef struct { uint64_t base; int size; bool on; uint8_t b[OBJSZ]; bool written; } Region;
static Region reg_[NREG];
static uint64_t sym_addr;
static int err_fault;   // a dynamic error (bad access, division overflow)
static bool saw_call;
#ifdef VF_NATIVE
static uint64_t nd64(void) { return ((uint64_t)rand() << 40) ^ ((uint64_t)rand() << 20) ^ rand(); }
#else
static uint64_t nd64(void) { uint64_t x; return x; }
#endif
static bool ndb(void) { return nd64() & 1; }

#ifdef P19
#define DISC(c, msg) CHECK(c, "registers and temporaries: " msg)
#else
#define DISC(c, msg) ((void)0)
#endif
#define FAULT(c, msg) CHECK(c, msg)

static uint64_t msk(int sz, uint64_t v) { return sz == 8 ? v : sz == 4 ? (uint32_t)v : sz == 2 ? (uint16_t)v : (uint8_t)v; }
static int64_t sx(int sz, uint64_t v) { return sz == 8 ? (int64_t)v : sz == 4 ? (int32_t)v : sz == 2 ? (int16_t)v : (int8_t)v; }

// ---- arithmetic used both by the machine and by the specification ----------
#ifdef VF_NATIVE
#define UF2(n, a, b) uf_##n(a, b)
static uint64_t uf_mul(uint64_t a, uint64_t b) { return a * b; }
static uint64_t uf_udiv(uint64_t a, uint64_t b) { return b ? a / b : 0; }
static uint64_t uf_umod(uint64_t a, uint64_t b) { return b ? a % b : 0; }
static uint64_t uf_sdiv(uint64_t a, uint64_t b) { return !b ? 0 : (int64_t)b == -1 ? -a : (uint64_t)((int64_t)a / (int64_t)b); }
static uint64_t uf_smod(uint64_t a, uint64_t b) { return !b ? 0 : (int64_t)b == -1 ? 0 : (uint64_t)((int64_t)a % (int64_t)b); }
#else
uint64_t __CPROVER_uninterpreted_mul(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_udiv(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_umod(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_sdiv(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_smod(uint64_t, uint64_t);
#define UF2(n, a, b) __CPROVER_uninterpreted_##n(a, b)
#endif
static bool pow2(uint64_t v) { return v && !(v & (v - 1)); }
static int lg2(uint64_t v) { int k = 0;
  if (v >> 32) { k += 32; v >>= 32; } if (v >> 16) { k += 16; v >>= 16; } if (v >> 8) { k += 8; v >>= 8; }
  if (v >> 4) { k += 4; v >>= 4; } if (v >> 2) { k += 2; v >>= 2; } if (v >> 1) k += 1; return k; }
// Laws of arithmetic for the operands a compiler may special-case; the general
// case stays uninterpreted (both sides then need equal operands).
static uint64_t xmul(int sz, uint64_t a, uint64_t b) {
  a = msk(sz, a); b = msk(sz, b);
  if (a == 0 || b == 0) return 0;
  if (pow2(b)) return msk(sz, a << lg2(b));
  if (pow2(a)) return msk(sz, b << lg2(a));
  if (b == msk(sz, -1)) return msk(sz, -a);
  if (a == msk(sz, -1)) return msk(sz, -b);
  uint64_t lo = a < b ? a : b, hi = a < b ? b : a;
  return msk(sz, UF2(mul, lo, hi));
}
static uint64_t xdiv(int sz, bool uns, uint64_t a, uint64_t b) {
  if (uns) {
    a = msk(sz, a); b = msk(sz, b);
    if (pow2(b)) return a >> lg2(b);
    if (b == msk(sz, -1)) return a == b;
    return msk(sz, UF2(udiv, a, b));
  }
  a = sx(sz, a); b = sx(sz, b);
  if (b == 1) return msk(sz, a);
  if (b == -1ull) return msk(sz, -a);
  return msk(sz, UF2(sdiv, a, b));
}
static uint64_t xmod(int sz, bool uns, uint64_t a, uint64_t b) {
  if (uns) {
    a = msk(sz, a); b = msk(sz, b);
    if (pow2(b)) return a & (b - 1);
    if (b == msk(sz, -1)) return a == b ? 0 : a;
    return msk(sz, UF2(umod, a, b));
  }
  a = sx(sz, a); b = sx(sz, b);
  if (b == 1 || b == -1ull) return 0;
  return msk(sz, UF2(smod, a, b));
}

// ---- registers and memory ---------------------------------------------------
static void use(int r) { if (m.live) m.last[r] = nrec; }
static uint64_t getr(int r, int sz) { use(r); if (sz == -1) return (m.r[r] >> 8) & 255; return msk(sz, m.r[r]); }
static void setr(int r, int sz, uint64_t v) {
  if (!m.live) return;
  m.last[r] = nrec;
  if (sz == 8) m.r[r] = v;
  else if (sz == 4) m.r[r] = (uint32_t)v;
  else if (sz == 2) m.r[r] = (m.r[r] & ~0xffffull) | (uint16_t)v;
  else if (sz == -1) m.r[r] = (m.r[r] & ~0xff00ull) | ((v & 255) << 8);
  else m.r[r] = (m.r[r] & ~0xffull) | (uint8_t)v;
}
static bool in_region(Region *g, uint64_t a) { return g->on && a - g->base < (uint64_t)g->size; }
#ifndef VF_TEMPS
#define VF_TEMPS 1
#endif
static uint64_t memget(uint64_t a, int n) {
  if (!m.live) return 0;
#if VF_TEMPS
  for (int k = NREC - 1; k >= 0; k--)
    if (k < nrec && rec[k].slot && a == rec[k].addr && n <= rec[k].n) return msk(n, rec[k].val);
#endif
  bool ok = false; uint64_t v = 0;
  for (int i = 0; i < NREG; i++)
    if (in_region(&reg_[i], a)) {
      uint64_t o = a - reg_[i].base;
      ok = o + n <= (uint64_t)reg_[i].size;
      if (ok) for (int k = 0; k < n; k++) v |= (uint64_t)reg_[i].b[o + k] << 8*k;
    }
  FAULT(ok, "generated code reads memory outside the objects of the expression");
  return v;
}
static void memset_(uint64_t a, int n, uint64_t v) {
  if (!m.live) return;
  bool ok = false;
  for (int i = 0; i < NREG; i++)
    if (in_region(&reg_[i], a)) {
      uint64_t o = a - reg_[i].base;
      ok = o + n <= (uint64_t)reg_[i].size;
      reg_[i].written = true;
      if (ok) for (int k = 0; k < n; k++) reg_[i].b[o + k] = v >> 8*k;
    }
  FAULT(ok, "generated code writes memory outside the object being assigned");
}

// ---- text -------------------------------------------------------------------
#define TXT 160
static int put_num(char *d, int p, uint64_t v) {
  d[p] = 1;
  for (int i = 0; i < 8; i++) d[p + 1 + i] = (char)(uint8_t)(v >> 8*i);
  return p + 9;
}
static uint64_t get_num(const char *s) { // s at the escape byte
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) v |= (uint64_t)(uint8_t)s[1 + i] << 8*i;
  return v;
}
static int put_str(char *d, int p, const char *s) {
  for (int i = 0; s[i]; ) {
    if (s[i] == 1) { for (int k = 0; k < 9; k++) d[p + k] = s[i + k]; p += 9; i += 9; }
    else d[p++] = s[i++];
  }
  return p;
}
static int vf_format(char *d, const char *f, va_list ap) {
  int p = 0;
  for (int i = 0; f[i]; ) {
    if (f[i] == 1) { for (int k = 0; k < 9; k++) d[p + k] = f[i + k]; p += 9; i += 9; continue; }
    if (f[i] != '%') { d[p++] = f[i++]; continue; }
    i++;
    if (f[i] == '%') { d[p++] = '%'; i++; continue; }
    bool l = false;
    while (f[i] == 'l' || f[i] == 'h') { l |= f[i] == 'l'; i++; }
    if (f[i] == 's') p = put_str(d, p, va_arg(ap, char *));
    else if (f[i] == 'd' || f[i] == 'i') { if (l) p = put_num(d, p, va_arg(ap, int64_t)); else p = put_num(d, p, (int64_t)va_arg(ap, int)); }
    else if (f[i] == 'u') { if (l) p = put_num(d, p, va_arg(ap, uint64_t)); else p = put_num(d, p, va_arg(ap, unsigned)); }
    else CHECK(0, "unknown conversion in emitted text");
    i++;
  }
  d[p] = 0;
  return p;
}

// ---- decoding ---------------------------------------------------------------
typedef enum { O_NONE, O_REG, O_IMM, O_MEM, O_XMM, O_LABEL } OK_;
typedef struct { OK_ k; int r, sz; uint64_t v; } Op; // MEM: v = address
static uint64_t pack(uint64_t h, char c) { return ((h << 8) ^ ((h >> 56) * 0x9E3779B97F4A7C15ull) ^ (uint8_t)c); }
static bool isdelim(char c) { return c == ',' || c == ')' || c == ';' || c == '\n' || c == 0 || c == '(' || c == ' '; }
static int g_pos; // decoding cursor; only moves over constant text
// sum of terms: number escapes, decimal, hex, "symbol"
static uint64_t parse_sum(const char *s, int *pp, bool *any) {
  int p = *pp; uint64_t v = 0; bool neg = false; *any = false;
  for (;;) {
    if (s[p] == '+') { p++; continue; }
    if (s[p] == '-') { neg = !neg; p++; continue; }
    uint64_t t;
    if (s[p] == 1) { t = get_num(s + p); p += 9; }
    else if (s[p] == '"') { p++; while (s[p] != '"') p++; p++; t = sym_addr; }
    else if (s[p] == '0' && s[p+1] == 'x') { p += 2; t = 0;
      while ((s[p] >= '0' && s[p] <= '9') || (s[p] >= 'a' && s[p] <= 'f') || (s[p] >= 'A' && s[p] <= 'F')) {
        t = t * 16 + (s[p] <= '9' ? s[p] - '0' : (s[p] | 32) - 'a' + 10); p++; } }
    else if (s[p] >= '0' && s[p] <= '9') { t = 0; while (s[p] >= '0' && s[p] <= '9') { t = t * 10 + (s[p] - '0'); p++; } }
    else break;
    v += neg ? -t : t; neg = false; *any = true;
  }
  *pp = p;
  return v;
}
static uint64_t label_id(const char *s, int *pp) {
  int p = *pp; uint64_t h = 7; bool num = s[p] >= '0' && s[p] <= '9';
  while (!isdelim(s[p]) && s[p] != ':') {
    if (num && s[p] == 'f' && isdelim(s[p + 1])) { p++; break; } // "1f": the next label 1
    if (s[p] == 1) { h = h * 0x100000001b3ull + get_num(s + p) + 1; p += 9; }
    else { h = h * 0x100000001b3ull + (uint8_t)s[p]; p++; }
  }
  *pp = p;
  return h;
}
// The temporaries' names are aliased by fixed-length ones ("%t0q".."%t5d"), so
// that the text stays constant when the chosen temporary is symbolic; the alias
// stands for whatever register the real table names (see alias_temps).
static int tmp_id64[6], tmp_id32[6], tmp_sz64[6], tmp_sz32[6];
static int parse_reg(const char *s, int *pp, int *sz) { // at the char after %
  uint64_t h = 0; int p = *pp;
  if (s[p] == 't') {
    int ix = s[p + 1] - '0'; bool q = s[p + 2] == 'q';
    *pp = p + 3;
    *sz = q ? tmp_sz64[ix] : tmp_sz32[ix];
    return q ? tmp_id64[ix] : tmp_id32[ix];
  }
  if (s[p] == 'x' && s[p + 3] == 1) {
    int ix = (int)get_num(s + p + 3); *pp = p + 12; *sz = 16;
    CHECK(ix >= 0 && ix < 16, "unknown register in emitted text");
    return 32 + ix;
  }
  while (!isdelim(s[p])) { h = pack(h, s[p]); p++; }
  *pp = p;
  return vf_regkey(h, sz);
}
static char *alias64[6] = {"%t0q", "%t1q", "%t2q", "%t3q", "%t4q", "%t5q"}, *alias32[6] = {"%t0d", "%t1d", "%t2d", "%t3d", "%t4d", "%t5d"};
static void alias_temps(char **r64, char **r32) {
  for (int i = 0; i < 6; i++) {
    int p = 1; tmp_id64[i] = parse_reg(r64[i], &p, &tmp_sz64[i]);
    p = 1; tmp_id32[i] = parse_reg(r32[i], &p, &tmp_sz32[i]);
    CHECK(tmp_id64[i] >= 0 && tmp_id64[i] == tmp_id32[i] && tmp_sz64[i] == 8 && tmp_sz32[i] == 4, "temporary register tables agree");
    for (int j = 0; j < i; j++) CHECK(tmp_id64[i] != tmp_id64[j], "temporary registers are distinct");
    CHECK(tmp_id64[i] == SI || tmp_id64[i] == DI || (tmp_id64[i] >= R8_ && tmp_id64[i] <= R11_), "temporaries are caller-saved scratch registers");
    r64[i] = alias64[i]; r32[i] = alias32[i];
  }
}
static uint64_t basereg(int r) { return r == RIP ? 0 : m.r[r]; }
static Op parse_op(const char *s, int *pp, bool is_jump) {
  Op o = {O_NONE, 0, 0, 0}; int p = *pp;
  while (s[p] == ' ') p++;
  if (is_jump) { o.k = O_LABEL; if (s[p] == '*') p++; o.v = label_id(s, &p); *pp = p; return o; }
  if (s[p] == '%') {
    p++; o.r = parse_reg(s, &p, &o.sz);
    CHECK(o.r >= 0, "unknown register in emitted text");
    if (o.r >= 32) { o.k = O_XMM; o.r -= 32; } else o.k = O_REG;
  } else if (s[p] == '$') {
    bool any; p++; o.k = O_IMM; o.v = parse_sum(s, &p, &any);
    CHECK(any, "immediate not understood in emitted text");
  } else {
    bool any; o.k = O_MEM; o.v = parse_sum(s, &p, &any);
    if (s[p] == '(') {
      int sz; p++;
      CHECK(s[p] == '%', "memory operand not understood in emitted text");
      p++; int b = parse_reg(s, &p, &sz);
      CHECK(b >= 0 && b <= RIP && sz == 8, "memory operand not understood in emitted text");
      if (b != RIP) { use(b); o.v += m.r[b]; }
      p++;
    } else CHECK(0, "operand not understood in emitted text");
  }
  *pp = p;
  return o;
}
static uint64_t rd(Op *o, int sz) { return o->k == O_REG ? getr(o->r, o->sz) : o->k == O_IMM ? msk(sz, o->v) : memget(o->v, sz); }
static void wr(Op *o, int sz, uint64_t v) { if (o->k == O_REG) setr(o->r, o->sz, v); else memset_(o->v, sz, v); }
static void setf(int sz, uint64_t res) { if (m.live) { m.zf = msk(sz, res) == 0; m.sf = sx(sz, res) < 0; m.cf = ndb(); m.of = ndb(); } }
static void cmpf(int sz, uint64_t a, uint64_t b) { // flags of a - b
  if (!m.live) return;
  a = msk(sz, a); b = msk(sz, b); uint64_t d = msk(sz, a - b);
  m.zf = a == b; m.cf = a < b; m.sf = sx(sz, d) < 0;
  m.of = (sx(sz, a) < sx(sz, b)) != m.sf;
}
static bool cc(uint64_t h, uint64_t e, uint64_t ne, uint64_t b, uint64_t be, uint64_t a, uint64_t ae, uint64_t l, uint64_t le, uint64_t g, uint64_t ge, uint64_t s_, uint64_t ns, bool *v) {
  if (h == e) *v = m.zf; else if (h == ne) *v = !m.zf; else if (h == b) *v = m.cf; else if (h == be) *v = m.cf || m.zf;
  else if (h == a) *v = !m.cf && !m.zf; else if (h == ae) *v = !m.cf; else if (h == l) *v = m.sf != m.of;
  else if (h == le) *v = m.zf || m.sf != m.of; else if (h == g) *v = !m.zf && m.sf == m.of; else if (h == ge) *v = m.sf == m.of;
  else if (h == s_) *v = m.sf; else if (h == ns) *v = !m.sf; else return false;
  return true;
}
static int opsz(Op *a, Op *b, int suf) {
  if (b->k == O_REG) return b->sz; if (suf) return suf; if (a->k == O_REG) return a->sz;
  CHECK(0, "operand size not determined in emitted text"); return 8;
}
enum { K_ADD, K_SUB, K_AND, K_OR, K_XOR };
static void alu(int k, int suf, Op *a, Op *b) {
  int sz = opsz(a, b, suf);
  CHECK(a->k != O_REG || a->sz == sz, "operand sizes agree in emitted text");
  CHECK(!suf || b->k != O_REG || b->sz == suf, "operand size and suffix agree in emitted text");
  CHECK(a->k != O_IMM || (int64_t)a->v == (int32_t)a->v || (sz < 8 && (a->v >> 32) == 0), "immediate fits the instruction");
  uint64_t x = (k == K_XOR && a->k == O_REG && b->k == O_REG && a->r == b->r) ? 0 : rd(a, sz);
  uint64_t y = rd(b, sz), z;
  if (k == K_XOR && a->k == O_REG && b->k == O_REG && a->r == b->r) y = 0;
  switch (k) { case K_ADD: z = y + x; break; case K_SUB: z = y - x; break; case K_AND: z = y & x; break; case K_OR: z = y | x; break; default: z = y ^ x; }
  wr(b, sz, z); setf(sz, z);
}
static void doext(bool sgn, int from, int to, Op *a, Op *b) {
  CHECK(b->k == O_REG && b->sz == to, "extension target size");
  CHECK(a->k != O_REG || a->sz == from, "extension source size");
  uint64_t v = rd(a, from); wr(b, to, sgn ? (uint64_t)sx(from, v) : v);
}
static void shift(int k, int suf, Op *a, Op *b, int nops) {
  Op *d = nops == 2 ? b : a; int sz = d->k == O_REG ? d->sz : suf;
  uint64_t c = 1;
  if (nops == 2) { CHECK(a->k == O_IMM || (a->k == O_REG && a->r == CX && a->sz == 1), "shift count operand"); c = rd(a, 1) & (sz == 8 ? 63 : 31); }
  uint64_t v = rd(d, sz);
  bool big = c >= (uint64_t)sz * 8;
  uint64_t z = k == 0 ? (big ? 0 : v << c) : k == 1 ? (big ? 0 : v >> c) : (uint64_t)(sx(sz, v) >> (big ? sz*8-1 : c));
  wr(d, sz, z); setf(sz, z);
}
static void vf_call(void);
#ifndef VF_XMM
#define VF_XMM 0
#endif
static void vf_insn(const char *s, int *pp) {
  int p = *pp; uint64_t h = 0;
  // label?
  { int q = p; uint64_t id = label_id(s, &q);
    if (s[q] == ':') {
      if (!m.live && m.target == id) m.live = true;
      *pp = q + 1; return;
    } }
  while (!isdelim(s[p])) { h = pack(h, s[p]); p++; }
  if (h == M_lock) { p++; h = 0; while (!isdelim(s[p])) { h = pack(h, s[p]); p++; } }
  bool isj = h == M_jmp || h == M_call, cj, cs;
  cj = h == M_je || h == M_jne || h == M_jb || h == M_jbe || h == M_ja || h == M_jae || h == M_jl || h == M_jle || h == M_jg || h == M_jge || h == M_js || h == M_jns;
  Op a = {O_NONE}, b = {O_NONE}; int n = 0;
  while (s[p] == ' ') p++;
  if (s[p] != ';' && s[p] != '\n' && s[p] != 0) {
    a = parse_op(s, &p, isj || cj); n = 1;
    while (s[p] == ' ') p++;
    if (s[p] == ',') { p++; b = parse_op(s, &p, false); n = 2; while (s[p] == ' ') p++; }
  }
  *pp = p;
  if (h == M_jmp) { if (m.live) { m.live = false; m.target = a.v; } return; }
  if (cj) {
    bool v; cc(h, M_je, M_jne, M_jb, M_jbe, M_ja, M_jae, M_jl, M_jle, M_jg, M_jge, M_js, M_jns, &v);
    if (m.live && v) { m.live = false; m.target = a.v; }
    return;
  }
  if (cc(h, M_sete, M_setne, M_setb, M_setbe, M_seta, M_setae, M_setl, M_setle, M_setg, M_setge, M_sets, M_setns, &cs)) {
    CHECK(a.k == O_REG && a.sz == 1, "setcc operand"); setr(a.r, 1, cs); return;
  }
#if VF_XMM
  if (vf_xmm(h, &a, &b)) return;
#endif
  int suf = 0;
  switch (h) {
  case M_addq: case M_subq: case M_andq: case M_orq: case M_xorq: case M_cmpq: case M_movq: case M_incq: case M_decq: case M_testq: case M_shlq: case M_shrq: case M_sarq: case M_negq: case M_notq: case M_imulq: case M_divq: case M_idivq: suf = 8; break;
  case M_addl: case M_subl: case M_andl: case M_orl: case M_xorl: case M_cmpl: case M_movl: case M_incl: case M_decl: case M_testl: case M_shll: case M_shrl: case M_sarl: case M_negl: case M_notl: case M_imull: case M_divl: case M_idivl: suf = 4; break;
  case M_addw: case M_subw: case M_andw: case M_orw: case M_xorw: case M_cmpw: case M_movw: suf = 2; break;
  case M_addb: case M_subb: case M_andb: case M_orb: case M_xorb: case M_cmpb: case M_movb: case M_testb: suf = 1; break;
  }
  switch (h) {
  case M_mov: case M_movb: case M_movw: case M_movl: case M_movq: case M_movabsq: {
    int sz = opsz(&a, &b, suf);
    CHECK(a.k != O_REG || a.sz == sz, "operand sizes agree in emitted text");
    CHECK(!suf || b.k != O_REG || b.sz == suf, "operand size and suffix agree in emitted text");
    CHECK(!(a.k == O_IMM && (b.k == O_MEM || h == M_movq)) || (int64_t)a.v == (int32_t)a.v || (sz < 8 && (a.v >> 32) == 0), "immediate fits the instruction");
    CHECK(!(a.k == O_IMM && sz == 4) || (int64_t)a.v == (int32_t)a.v || (a.v >> 32) == 0, "immediate fits the instruction");
    wr(&b, sz, rd(&a, sz)); return; }
  case M_movzbl: doext(false, 1, 4, &a, &b); return;
  case M_movzwl: doext(false, 2, 4, &a, &b); return;
  case M_movsbl: doext(true, 1, 4, &a, &b); return;
  case M_movswl: doext(true, 2, 4, &a, &b); return;
  case M_movzbq: doext(false, 1, 8, &a, &b); return;
  case M_movzwq: doext(false, 2, 8, &a, &b); return;
  case M_movsbq: doext(true, 1, 8, &a, &b); return;
  case M_movswq: doext(true, 2, 8, &a, &b); return;
  case M_movslq: doext(true, 4, 8, &a, &b); return;
  case M_lea: case M_leaq: CHECK(a.k == O_MEM && b.k == O_REG && b.sz == 8, "lea operands"); setr(b.r, 8, a.v); return;
  case M_add: case M_addb: case M_addw: case M_addl: case M_addq: alu(K_ADD, suf, &a, &b); return;
  case M_sub: case M_subb: case M_subw: case M_subl: case M_subq: alu(K_SUB, suf, &a, &b); return;
  case M_and: case M_andb: case M_andw: case M_andl: case M_andq: alu(K_AND, suf, &a, &b); return;
  case M_or: case M_orb: case M_orw: case M_orl: case M_orq: alu(K_OR, suf, &a, &b); return;
  case M_xor: case M_xorb: case M_xorw: case M_xorl: case M_xorq: alu(K_XOR, suf, &a, &b); return;
  case M_imul: case M_imull: case M_imulq: {
    CHECK(n == 2 && b.k == O_REG, "imul operands"); int sz = b.sz;
    CHECK(a.k != O_IMM || (int64_t)a.v == (int32_t)a.v, "immediate fits the instruction");
    CHECK(a.k != O_REG || a.sz == sz, "operand sizes agree in emitted text");
    uint64_t z = xmul(sz, rd(&b, sz), rd(&a, sz)); wr(&b, sz, z); setf(sz, z); return; }
  case M_cmp: case M_cmpb: case M_cmpw: case M_cmpl: case M_cmpq: {
    int sz = opsz(&a, &b, suf);
    CHECK(a.k != O_REG || a.sz == sz, "operand sizes agree in emitted text");
    CHECK(a.k != O_IMM || (int64_t)a.v == (int32_t)a.v || (sz < 8 && (a.v >> 32) == 0), "immediate fits the instruction");
    uint64_t x = rd(&a, sz), y = rd(&b, sz); cmpf(sz, y, x); return; }
  case M_test: case M_testb: case M_testl: case M_testq: {
    int sz = opsz(&a, &b, suf); uint64_t z = rd(&a, sz) & rd(&b, sz); setf(sz, z); if (m.live) m.cf = m.of = false; return; }
  case M_shl: case M_shll: case M_shlq: shift(0, suf, &a, &b, n); return;
  case M_shr: case M_shrl: case M_shrq: shift(1, suf, &a, &b, n); return;
  case M_sar: case M_sarl: case M_sarq: shift(2, suf, &a, &b, n); return;
  case M_neg: case M_negl: case M_negq: { int sz = a.k == O_REG ? a.sz : suf; uint64_t z = -rd(&a, sz); wr(&a, sz, z); setf(sz, z); return; }
  case M_not: case M_notl: case M_notq: { int sz = a.k == O_REG ? a.sz : suf; wr(&a, sz, ~rd(&a, sz)); return; }
  case M_inc: case M_incl: case M_incq: { int sz = a.k == O_REG ? a.sz : suf; uint64_t z = rd(&a, sz) + 1; wr(&a, sz, z); setf(sz, z); return; }
  case M_dec: case M_decl: case M_decq: { int sz = a.k == O_REG ? a.sz : suf; uint64_t z = rd(&a, sz) - 1; wr(&a, sz, z); setf(sz, z); return; }
  case M_cmove: case M_cmovne: {
    CHECK(b.k == O_REG && b.sz >= 2, "cmov operands"); uint64_t x = rd(&a, b.sz), y = rd(&b, b.sz);
    setr(b.r, b.sz, (h == M_cmove) == m.zf ? x : y); return; }
  case M_cqo: case M_cqto: setr(DX, 8, (int64_t)m.r[AX] < 0 ? -1ull : 0); use(AX); return;
  case M_cdq: case M_cltd: setr(DX, 4, (int32_t)m.r[AX] < 0 ? -1u : 0); use(AX); return;
  case M_div: case M_divl: case M_divq: case M_idiv: case M_idivl: case M_idivq: {
    bool uns = h == M_div || h == M_divl || h == M_divq;
    int sz = a.k == O_REG ? a.sz : suf; CHECK(sz == 4 || sz == 8, "division operand size");
    uint64_t x = getr(AX, sz), d = rd(&a, sz), hi = getr(DX, sz);
    if (m.live) {
      FAULT(hi == (uns || sx(sz, x) >= 0 ? 0 : msk(sz, -1)), "the dividend's upper half is the extension of the lower half");
      FAULT(d != 0, "division by zero in generated code");
    }
    setr(AX, sz, xdiv(sz, uns, x, d)); setr(DX, sz, xmod(sz, uns, x, d)); setf(sz, nd64()); return; }
  case M_xchg: {
    int sz = opsz(&a, &b, suf); uint64_t x = rd(&a, sz), y = rd(&b, sz); wr(&a, sz, y); wr(&b, sz, x); return; }
  case M_cmpxchg: {
    int sz = opsz(&a, &b, suf); uint64_t nv = rd(&a, sz), cur = rd(&b, sz), ex = getr(AX, sz);
    cmpf(sz, ex, cur);
    if (m.live) { if (cur == ex) wr(&b, sz, nv); else setr(AX, sz, cur); }
    return; }
  case M_call: vf_call(); return;
  }
  CHECK(0, "instruction not understood in emitted text");
}
static void vf_exec(const char *s) {
  int p = 0;
  while (s[p]) {
    while (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == ';') p++;
    if (!s[p]) break;
    vf_insn(s, &p);
    CHECK(s[p] == 0 || s[p] == ';' || s[p] == '\n', "emitted text understood");
  }
}
int vf_fprintf(FILE *f, const char *fmt, ...) {
  char line[TXT]; va_list ap;
  va_start(ap, fmt); vf_format(line, fmt, ap); va_end(ap);
  vf_exec(line);
  return 0;
}
int vf_snprintf(char *d, size_t n, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); int r = vf_format(d, fmt, ap); va_end(ap);
  return r;
}

// ---- reserved lines: printed now, filled in when the value is popped ---------
static long resrvln(void) {
  CHECK(nrec < NREC, "harness record bound");
  Rec *k = &rec[nrec];
  for (int i = 0; i < 17; i++) k->r[i] = m.r[i];
  for (int i = 0; i < 16; i++) k->x[i] = m.x[i];
  k->live = m.live; k->low = INT64_MAX; k->slot = false;
  nrec++;
  return nrec;
}
// The line reserved as record `loc` gets its text: execute it at that point.
// Its destination must not have been touched between then and now, or the
// saved value would be lost (the pop would read something else).
static void insrtln(char *fmt, long loc, ...) {
  char s[TXT]; va_list ap;
  va_start(ap, loc); vf_format(s, fmt, ap); va_end(ap);
  CHECK(loc >= 1 && loc <= nrec, "line filled in was reserved");
  Rec *k = &rec[loc - 1];
  int p = 0; uint64_t h = 0;
  while (!isdelim(s[p])) { h = pack(h, s[p]); p++; }
  while (s[p] == ' ') p++;
  CHECK(s[p] == '%', "saved operand is a register"); p++;
  int sz, r = parse_reg(s, &p, &sz);
  CHECK(s[p] == ',', "save instruction has two operands"); p++;
  while (s[p] == ' ') p++;
  bool lost = m.live && !k->live;   // a path reaches the pop without the push
  if (s[p] == '%') {
    p++; int dsz, d = parse_reg(s, &p, &dsz);
    CHECK(dsz == sz, "save instruction operand sizes");
    if (d >= 32) {
      CHECK(r >= 32, "save instruction operands");
      lost = lost || m.lastx[d - 32] >= loc;
      DISC(!m.live || !lost, "a saved value is not overwritten before it is used");
      if (m.live) { m.x[d - 32] = lost ? nd64() : k->x[r - 32]; m.lastx[d - 32] = nrec; }
    } else {
      CHECK(r < 16 && h == M_mov, "save instruction operands");
      lost = lost || m.last[d] >= loc;
      DISC(!m.live || !lost, "a saved value is not overwritten before it is used");
      uint64_t v = lost ? nd64() : k->r[r];
      setr(d, dsz, v);
    }
  } else {
    bool any; int64_t ofs = parse_sum(s, &p, &any); int bsz;
    CHECK(any && s[p] == '(' && s[p+1] == '%', "save slot operand"); p += 2;
    int b = parse_reg(s, &p, &bsz);
    CHECK(bsz == 8 && (b == BP || b == BX), "save slot base");
    lost = lost || ofs + 8 > k->low;
    DISC(!m.live || !lost, "a spilled value is not overwritten before it is reloaded");
    DISC(!m.live || k->r[b] == m.r[b], "spill slot base register is stable");
    k->slot = true; k->addr = k->r[b] + ofs; k->n = r >= 32 ? (h == M_movss ? 4 : 8) : sz;
    k->val = lost ? nd64() : r >= 32 ? k->x[r - 32] : k->r[r];
    for (int i = 0; i < NREC; i++) if (i < loc - 1 && i < nrec) { if (ofs < rec[i].low) rec[i].low = ofs; }
    if (!tmp_any || ofs < tmp_low) tmp_low = ofs;
    if (!tmp_any || ofs + 8 > tmp_high) tmp_high = ofs + 8;
    tmp_any = true;
  }
}
#endif
