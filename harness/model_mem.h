// Contract of the compiler's region allocator as seen by its callers (proved
// for alloc.c by property C14): every block is fresh, aligned and zero-filled.
#ifndef MODEL_MEM_H
#define MODEL_MEM_H
#ifdef VF_NATIVE
#define vf_calloc_(n) calloc(1, n)
#else
#define vf_calloc_ vf_calloc
static void *vf_calloc(size_t n) { void *p = calloc(1, n); __CPROVER_assume(p != 0); return p; }
void *ast_arena_calloc(size_t n) { return vf_calloc(n); }
void *ast_arena_malloc(size_t n) { return vf_calloc(n); }
void *arena_calloc(Arena *a, size_t n) { return vf_calloc(n); }
void *arena_malloc(Arena *a, size_t n) { return vf_calloc(n); }
#endif
#endif
