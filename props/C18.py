from vf import U
from C10 import inj, FS
LEVEL = 'proof'
UNITS = []
G = dict(link=['type.c'], unwind=70, native_inject=True, checks=(), timeout=200, cbmc=FS)
for tn, t in (('int', 0), ('uint', 1), ('long', 2), ('ulong', 3)):
    for df in (0, 1):
        for lab in ('A', 'D', '-'):
            if lab == 'D' and not df: continue
            d = {'TX': t, 'DEF': df, 'LAB': '"%s"' % lab}
            UNITS.append(U('C18.dispatch_any_%s_%s%d' % (tn, {'A': 'live', 'D': 'dflt', '-': 'dead'}[lab], df), 'cg_sw.c', 'h_switch_any', defs=d,
                         inject={'codegen.c': inj(no=('gen_stmt',))['codegen.c'] + [('cut', 'gen_stmt', 0, 'sw_cut(&cr)')]}, funcs=['gen_stmt', 'imm_cmp', 'imm_sub'], **dict(G, native_inject=False, fuzz=None)))
        for lab in ('ABC', 'ADB', '-AA'):
            if 'D' in lab and not df: continue
            d = {'TX': t, 'DEF': df, 'LAB': '"%s"' % lab}
            UNITS.append(U('C18.dispatch_%s_%s%d' % (tn, lab.replace('-', 'x').lower(), df), 'cg_sw.c', 'h_switch', defs=d, inject=inj(no=('gen_stmt',)),
                         funcs=['gen_stmt', 'imm_cmp', 'imm_sub'], bounded='lists of three ranges (any length: dispatch_any units)', **G))
for tn, t in (('int', 0), ('uint', 1), ('long', 2), ('ulong', 3)):
    for n, toks in (('one', 'case a : ;'), ('range', 'case a ... b : ;'), ('two', 'case a : case b : ;'), ('two_ranges', 'case a ... b : case c ... d : ;'),
                    ('three', 'case a : case b : case c : ;'), ('mix', 'case a ... b : default : case c : case d : ;'), ('default', 'default : ;')):
      for nold, opt in ((2, 1), (2, 0), (1, 1), (0, 1)):
        if (opt == 0 and n not in ('two', 'range')) or (nold == 2 and n in ('two_ranges', 'three', 'mix')): continue
        UNITS.append(U('C18.labels_%s_%s_%d%s' % (tn, n, nold, '' if opt else '_plain'), 'switch.c', 'h_label', defs={'U_LABEL': None, 'TX': t, 'TOKS': '"%s"' % toks, 'NOLD': nold, 'OPT': opt}, link=['type.c'],
                     inject={'parse.c': [('split', 'const_expr'), ('split', 'new_unique_name')]}, funcs=['label_stmt', 'less_eq'], unwind=48, solver=('sat', 'z3', 'cvc5'), tier='thorough' if n == 'two' and nold == 2 and opt else 'quick', checks=(), timeout=200, native_inject=True,
                     bounded='at most two ranges recorded before the statement, at most three labels on one statement'))
for i, tn in enumerate(['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'pchar']):
  for bf in (0, 1):
    UNITS.append(U('C18.promotion_' + tn + ('_bf' if bf else ''), 'switch.c', 'h_switch_ty', defs={'U_SWITCH': None, 'TXK': i, 'BFF': bf}, link=['type.c'],
             inject={'parse.c': [('split', f) for f in ('primary', 'secondary_block')]}, funcs=['stmt', 'cond_declaration', 'add_type', 'int_promotion'], unwind=26, checks=(), timeout=200, native_inject=True))
ASSUMPTIONS = ['the controlling expression is replaced by the gen_expr contract (C10), the statements of the body by theirs',
 'label values are replaced by the contract of const_expr: any 64-bit value (C01)',
 'the ghost machine in harness/x86.h is the semantics of the instructions printed']
