from vf import U
LEVEL = 'proof'
def u(n, name, defs={}, inj=None, **k):
    k.setdefault('unwind', 3)
    return U('C14.'+name, 'arena.c', n, defs=defs, inject=inj, timeout=200, fuzz=2000, **k)
UNITS = [
 u('h_alloc', 'allocate', {'UNIT_ALLOC':None,'VF_CLEAR':0}, {'alloc.c': [('split','new_page')]}, funcs=['arena_malloc','allocate']),
 u('h_alloc', 'allocate_clear', {'UNIT_ALLOC':None,'VF_CLEAR':1}, {'alloc.c': [('define','PAGE_SIZE','128'),('split','new_page')]}, unwind=18, funcs=['arena_calloc','allocate'], bounded='page size 128 instead of 4064'),
 u('h_on', 'arena_on', funcs=['arena_on','new_page']),
 u('h_off', 'arena_off', unwind=5, bounded='at most 3 pages', funcs=['arena_off']),
 u('h_ast', 'ast_arena', {'UNIT_AST':None}, {'alloc.c': [('split','allocate')]}, checks=(), funcs=['ast_arena_malloc','ast_arena_calloc']),
 u('h_push', 'push', {'UNIT_PUSH':None}, {'strings.c': [('cut','strarray_push',0,'fcut(&$i)')]}, funcs=['strarray_push']),
 u('h_push_first', 'push_first', unwind=10, funcs=['strarray_push']),
]
ASSUMPTIONS = ['malloc, calloc and realloc return fresh non-null memory (realloc keeps the old contents)',
 'requests are at most one page (every call site passes sizeof of a fixed struct; checked by inspection)',
 'the address-sanitizer variant of alloc.c (USE_ASAN) is not compiled']
