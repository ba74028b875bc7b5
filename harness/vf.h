// Harness vocabulary shared by the verifier build (CBMC) and the native
// replay build (gcc -DVF_NATIVE).  A harness states a contract of a real
// function of /repo: ASSUME(...) is the requires clause, CHECK(...) an
// ensures clause, REACH(...) an assertion that must FAIL (vacuity guard).
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>

#ifdef VF_NATIVE
#include <setjmp.h>
extern jmp_buf vf_jmp;
uint64_t vf_input(const char *name, int size, uint64_t lo, uint64_t hi, int ranged);
void vf_reject(void) __attribute__((noreturn));
void vf_failed(const char *msg) __attribute__((noreturn));
#define IN(T, name) T name = (T)vf_input(#name, sizeof(T), 0, 0, 0)
#define IN_BOOL(name) bool name = vf_input(#name, 1, 0, 1, 1) & 1
#define IN_RANGE(T, name, lo, hi) \
  T name = (T)vf_input(#name, sizeof(T), (uint64_t)(int64_t)(lo), (uint64_t)(int64_t)(hi), 1)
#define SET_IN(name, lv) ((lv) = (__typeof__(lv))vf_input(#name, sizeof(lv), 0, 0, 0))
#define SET_IN_RANGE(name, lv, lo, hi) ((lv) = (__typeof__(lv))vf_input(#name, sizeof(lv), \
   (uint64_t)(int64_t)(lo), (uint64_t)(int64_t)(hi), 1))
#define ASSUME(c) do { if (!(c)) vf_reject(); } while (0)
#define CHECK(c, msg) do { if (!(c)) vf_failed(msg); } while (0)
#define REACH(msg) ((void)0)
#define CUT() vf_reject()
#define BODY(f) f
#define VF_REQUIRES(c)
#define VF_ENSURES(c)
#define VF_ASSIGNS(...)
#define VF_RESULT 0
#else
void __CPROVER_assert(__CPROVER_bool, const char *);
void __CPROVER_assume(__CPROVER_bool);
// Inputs are recorded as assignments to VFIN_<name>, read back from the trace.
#define IN_BOOL(name) uint8_t vf_b_##name; { uint64_t VFIN_##name = vf_b_##name & 1; } bool name = vf_b_##name & 1
#define IN(T, name) T name; { uint64_t VFIN_##name = (uint64_t)name; }
#define IN_RANGE(T, name, lo, hi) T name; { uint64_t VFIN_##name = (uint64_t)name; } \
  __CPROVER_assume(name >= (T)(lo) && name <= (T)(hi))
#define SET_IN(name, lv) do { __typeof__(lv) vf_t; uint64_t VFIN_##name = (uint64_t)vf_t; (lv) = vf_t; } while (0)
#define SET_IN_RANGE(name, lv, lo, hi) do { __typeof__(lv) vf_t; uint64_t VFIN_##name = (uint64_t)vf_t; \
  __CPROVER_assume(vf_t >= (__typeof__(lv))(lo) && vf_t <= (__typeof__(lv))(hi)); (lv) = vf_t; } while (0)
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define BODY(f) f##__body
#define REACH(msg) __CPROVER_assert(0, "REACH " msg)
#define CUT() __CPROVER_assume(0)
#define VF_REQUIRES(c) __CPROVER_requires(c)
#define VF_ENSURES(c) __CPROVER_ensures(c)
#define VF_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VF_RESULT __CPROVER_return_value
#endif
#endif
