// Specification helpers: C values of integer types on LP64.
#ifndef TYPES_SPEC_H
#define TYPES_SPEC_H
static inline int64_t norm(Type *ty, uint64_t v) {
  if (ty->size == 1) return ty->is_unsigned ? (int64_t)(v & 0xff) : (int64_t)((v & 0xff) ^ 0x80) - 0x80;
  if (ty->size == 2) return ty->is_unsigned ? (int64_t)(v & 0xffff) : (int64_t)((v & 0xffff) ^ 0x8000) - 0x8000;
  if (ty->size == 4) return ty->is_unsigned ? (int64_t)(v & 0xffffffff) : (int64_t)((v & 0xffffffff) ^ 0x80000000) - 0x80000000;
  return (int64_t)v;
}
// v is the representation of a value of type ty
static inline bool normalized(Type *ty, int64_t v) {
  if (ty->kind == TY_BOOL) return v == 0 || v == 1;
  return norm(ty, (uint64_t)v) == v;
}
#endif
