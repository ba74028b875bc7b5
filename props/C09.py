from vf import U
from C10 import inj, FS
LEVEL = 'proof'
UNITS = []
for k in ('INT', 'ARRAY', 'STRUCT', 'VLA'):
    for al in (1, 2, 4, 8, 16, 32, 64):
        if k == 'VLA' and al != 8: continue
        UNITS.append(U('C09.frame_%s%d' % (k.lower(), al), 'frame.c', 'h_frame', defs={'KIND_': 'TY_' + k, 'AL': al}, link=['type.c'], inject={'codegen.c': inj()['codegen.c'] + [('split', 'assign_lvar_offsets')]},
          funcs=['assign_lvar_offsets', 'align_to'], unwind=70, native_inject=False, checks=(), timeout=200, cbmc=FS, solver=('sat', 'z3', 'cvc5')))
UNITS.append(U('C09.frame_alignment', 'frame.c', 'h_align', defs={'U_ALIGN': None}, link=['type.c'], inject={'codegen.c': inj()['codegen.c'] + [('split', 'assign_lvar_offsets'), ('split', 'get_lvar_align')]},
    funcs=['get_lvar_align'], unwind=70, native_inject=False, checks=(), timeout=200, cbmc=FS))
ASSUMPTIONS = ['frames are smaller than 256 MiB', 'a scope holds three locals and two nested scopes of arbitrary size; nested scopes by the contract of assign_lvar_offsets itself (induction over the scope tree)',
 'the prologue code that reserves the frame and aligns its base is outside this check; temporaries and spill slots are C19']
