from vf import U
LEVEL = 'proof'
SPLIT = ['gen_expr', 'gen_addr', 'gen_cond', 'gen_void_expr', 'gen_stmt', 'gen_funcall', 'gen_defr', 'gen_asm', 'resrvln', 'insrtln']
def inj(x=(), no=()): return {'codegen.c': [('split', f) for f in SPLIT if f not in no] + list(x)}
F = ['gen_expr2', 'gen_expr_opt', 'gen_gp_opt', 'gen_arith_opt_gp', 'gen_arith_opt_gp2', 'imm_arith', 'imm_arith2', 'pop_gp', 'push_tmpstack', 'pop_tmpstack', 'is_memop', 'eval_memop', 'skip_gp_cast']
T = dict(int=0, uint=1, long=2, ulong=3, ptr=4, bool=5, char=6, uchar=7, short=8, ushort=9)
def u(name, file, entry, prop='C10', **k):
    d = dict(link=['type.c'], inject=inj(), funcs=F, unwind=70, native_inject=True, checks=(), timeout=200); d.update(k)
    d['defs'] = dict(d.get('defs') or {}, **({'P19': None} if prop == 'C19' else {}))
    return U(prop+'.'+name, file, entry, **d)
FS = ('--max-field-sensitivity-array-size', '256', '--object-bits', '10')
ARITH = ['ADD', 'SUB', 'MUL', 'BITAND', 'BITOR', 'BITXOR']
SH = dict(o=0, n=1, l=2, g=3, c=4, k=5, q=6)  # opaque, number, local, global, cast of opaque / local / global
CMP = ['EQ', 'NE', 'LT', 'LE', 'GT', 'GE']
ITY = ['int', 'uint', 'long', 'ulong']
SH = dict(o=0, n=1, l=2, g=3, c=4, k=5, q=6)  # opaque, number, local, global, cast of opaque / local / global
def entries():
    """(name, C arguments, tier, in C19) of every operator unit."""
    L = []
    def b(k, t, tag, s0='o', s1='o', i0='int', i1='int', t1=None, opt=True, tier='quick', c19=False):
        L.append(('%s_%s_%s' % (k.lower(), t, tag), 'ND_%s, %d, %d, %d, %d, %d, %d, %d' % (k, T[t], T[t1 or t], SH[s0], T[i0], SH[s1], T[i1], opt), tier, c19))
    full = {'ADD', 'SUB', 'LT'}
    for k in ARITH + CMP + ['DIV', 'MOD']:
        for t in ITY:
            b(k, t, 'plain', opt=False, c19=t in ('uint', 'long'))
            b(k, t, 'on', 'o', 'n')
            if k in ('DIV', 'MOD'): b(k, t, 'oo', 'o', 'o', tier='quick' if t == 'long' else 'thorough'); continue
            q = lambda *ts: 'quick' if k in full or (t in ts and (k != 'MUL' or 1)) else 'thorough'
            b(k, t, 'no', 'n', 'o', tier=q('long', 'uint'))
            b(k, t, 'oo', 'o', 'o', tier=q(), c19=k in full)
            b(k, t, 'lo', 'l', 'o', tier=q('int'), c19=k in full and t == 'int')
            b(k, t, 'ol', 'o', 'l', tier=q('ulong', 'int') if k != 'NE' else 'thorough')
            b(k, t, 'ln', 'l', 'n', tier=q('long') if k in CMP or k in full else 'thorough')
            b(k, t, 'nl', 'n', 'l', tier=q() if k == 'LT' else 'thorough')
            b(k, t, 'go', 'g', 'o', tier='quick' if k == 'LT' and t == 'long' else 'thorough')
            b(k, t, 'og', 'o', 'g', tier='quick' if k == 'SUB' and t == 'int' else 'thorough')
            big = t in ('long', 'ulong')
            for it in (['int', 'uint', 'short', 'uchar', 'bool'] if big else ['long', 'short', 'uchar', 'bool']) + [{'int': 'uint', 'uint': 'int', 'long': 'ulong', 'ulong': 'long'}[t]]:
                some = (k == 'SUB') or (k == 'ADD' and it in ('int', 'short', 'long')) or (k == 'BITAND' and it in ('uint', 'uchar') and big)
                b(k, t, 'ok_'+it, 'o', 'k', 'int', it, tier='quick' if some else 'thorough')
                b(k, t, 'ko_'+it, 'k', 'o', it, 'int', tier='quick' if k == 'ADD' and it in ('short', 'uint') else 'thorough')
    for k in ('SHL', 'SHR', 'SAR'):
        for t in (ITY if k == 'SHL' else ['uint', 'ulong'] if k == 'SHR' else ['int', 'long']):
            for t1 in ('int', 'long', 'uchar', 'short'):
                b(k, t, 'plain_'+t1, opt=False, t1=t1, tier='quick' if t1 == 'int' else 'thorough', c19=t1 == 'int' and t == 'long')
                for x in ('on', 'oo', 'ol'): b(k, t, x+'_'+t1, x[0], x[1], t1=t1, tier='quick' if t1 in ('int',) or (t1 == 'uchar' and x == 'ol') else 'thorough')
    return L
ALLT = ['bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'ptr']
def misc():
    """(macro, name, C arguments, tier, properties)"""
    L = []
    def a(mac, name, *args, tier='quick', p=('C10',)):
        L.append((mac, name, ', '.join(str(x).lower() if isinstance(x, bool) else str(x) for x in args), tier, p))
    for t in ITY:
        for k in ('NEG', 'BITNOT'):
            a('UN', '%s_%s' % (k.lower(), t), 'ND_'+k, T[t], 0, 0, True); a('UN', '%s_%s_plain' % (k.lower(), t), 'ND_'+k, T[t], 0, 0, False, p=('C10', 'C19') if t == 'int' else ('C10',))
        a('UN', 'pos_%s' % t, 'ND_POS', T[t], 0, 0, True)
    for o in (True, False): a('UN', 'not_%d' % o, 'ND_NOT', 5, 0, 0, o)
    for f in ALLT:
        for t in ALLT:
            a('CA', 'cast_%s_%s_plain' % (f, t), T[t], 0, T[f], False, p=('C06',))
            a('CA', 'cast_%s_%s_mem' % (f, t), T[t], SH['l'], T[f], True, p=('C06',))
            a('CA', 'cast_%s_%s_opt' % (f, t), T[t], 0, T[f], True, p=('C06',), tier='quick' if t == 'bool' or f in ('bool', 'int', 'ulong') else 'thorough')
        a('LF', 'num_%s' % f, T[f], SH['n'], True); a('LF', 'num_%s_plain' % f, T[f], SH['n'], False, tier='thorough')
        a('LF', 'var_%s' % f, T[f], SH['l'], True); a('LF', 'gvar_%s' % f, T[f], SH['g'], True, tier='quick' if f in ('short', 'ulong') else 'thorough')
    for k in ('ADD', 'SUB', 'MUL', 'BITAND', 'BITXOR'):
        for t in ('int', 'uint'):
            q = dict(tier='quick' if k in ('ADD', 'SUB') or t == 'int' else 'thorough', p=('C10',))
            a('CO', 'trunc_%s_%s_on' % (k.lower(), t), 'ND_'+k, T[t], 2, 0, 0, 1, 0, **q)
            a('CO', 'trunc_%s_%s_ol' % (k.lower(), t), 'ND_'+k, T[t], 2, 0, 0, 2, 0, **q)
            for it in ('short', 'int', 'uchar'): a('CO', 'trunc_%s_%s_ok%s' % (k.lower(), t, it), 'ND_'+k, T[t], 2, 0, 0, SH['k'], T[it], tier='quick' if k == 'SUB' else 'thorough')
    for t in ('int', 'ulong', 'ptr', 'short'):
        a('CD', 'cond_%s' % t, T[t], True, 0, p=('C10', 'C19')); a('CD', 'cond_%s_plain' % t, T[t], False, 0, tier='quick' if t == 'int' else 'thorough')
        a('CM', 'comma_%s' % t, 'ND_COMMA', T[t], True); a('CM', 'chain_%s' % t, 'ND_CHAIN', T[t], False, tier='quick' if t == 'int' else 'thorough')
    a('CD', 'cond_const', 0, True, SH['n'])
    for k in ('LOGAND', 'LOGOR'):
        a('LG', k.lower(), 'ND_'+k, True, 0, p=('C10', 'C19')); a('LG', k.lower()+'_plain', 'ND_'+k, False, 0); a('LG', 'not_'+k.lower(), 'ND_'+k, True, 1)
    for k in CMP:
        a('CH', 'not_%s' % k.lower(), 'X_CMP', 'ND_'+k, T['int'], 100, -1, -1)
        a('CH', 'notnot_%s' % k.lower(), 'X_CMP', 'ND_'+k, T['ulong'], 100, 100, -1)
        a('CH', 'cast_not_%s' % k.lower(), 'X_CMP', 'ND_'+k, T['long'], 100, T['long'], -1)
        a('CH', 'not_cast_%s' % k.lower(), 'X_CMP', 'ND_'+k, T['uint'], T['long'], 100, -1, tier='thorough')
    for t in ('int', 'long', 'uchar', 'ptr'):
        a('CH', 'not_int_%s' % t, 'X_INT', 0, T[t], 100, -1, -1); a('CH', 'notnot_int_%s' % t, 'X_INT', 0, T[t], 100, 100, -1)
        a('CH', 'notcast_int_%s' % t, 'X_INT', 0, T[t], 100, T['char'], 100); a('CH', 'bool_int_%s' % t, 'X_BCAST', 0, T[t], T['int'], -1, -1); a('CH', 'bool_int_long_%s' % t, 'X_BCAST', 0, T[t], T['long'], 100, -1)
    a('CH', 'not_bool', 'X_BOOL', 0, T['bool'], 100, -1, -1); a('CH', 'cast_not_bool', 'X_BOOL', 0, T['bool'], 100, T['ulong'], -1); a('CH', 'notcast_bool', 'X_BOOL', 0, T['bool'], T['short'], 100, T['ulong'])
    return L
BT = [('uchar', 8), ('char', 8), ('ushort', 16), ('short', 16), ('uint', 32), ('int', 32), ('ulong', 64), ('long', 64), ('bool', 1)]
def asg():
    """(macro, name, C arguments, tier, properties)"""
    L = []
    def a(name, what, k, form, t, bw=-1, mofs=8, rs='o', rt=None, rit='int', void=False, opt=True, tier='quick', p=('C10',)):
        L.append(('AS', name, ', '.join(map(str, ['M_'+what, k, 'L_'+form, T[t], bw, 0, mofs, SH[rs], T[rt or t], T[rit], str(void).lower(), str(opt).lower()])), tier, p))
    Q = lambda c: 'quick' if c else 'thorough'
    for t in ALLT:
        for f in ('DEREF', 'MEM', 'MVAR', 'MGLB', 'OFS', 'MOFS', 'LOC', 'GLB'):
            a('read_%s_%s' % (f.lower(), t), 'READ', 0, f, t, tier=Q(t in ('char', 'ushort', 'int', 'long') and f != 'MGLB'), p=('C20', 'C10') if f[-3:] == 'OFS' else ('C10', 'C11') if f == 'MEM' and t == 'int' else ('C10',))
            if f in ('DEREF', 'MEM', 'LOC'): a('read_%s_%s_plain' % (f.lower(), t), 'READ', 0, f, t, opt=False, tier=Q(t in ('short', 'ulong') and f != 'LOC'))
            for v in (False, True):
                vs = '_void' if v else ''
                for rs, it in (('o', 'int'), ('n', 'int'), ('l', 'int'), ('k', 'long'), ('k', 'uchar'), ('k', 'int')):
                    if f in ('OFS', 'MGLB', 'GLB') and rs in 'k': continue
                    if rs == 'k' and t == it: continue
                    a('asg_%s_%s_%s%s' % (f.lower(), t, rs + (it if rs == 'k' else ''), vs), 'ASSIGN', 0, f, t, rs=rs, rit=it, void=v,
                      tier=Q((t in ('short', 'long') and f in ('DEREF', 'LOC') and rs != 'k') or (t in ('bool', 'char', 'int') and v and f in ('LOC', 'DEREF', 'MEM') and rs in 'knl') or (f == 'MOFS' and t == 'int' and rs in 'on')), p=('C10', 'C20') if f == 'MOFS' else ('C10',))
            if f in ('DEREF', 'LOC', 'MEM'): a('asg_%s_%s_plain' % (f.lower(), t), 'ASSIGN', 0, f, t, opt=False, tier=Q(t in ('uchar', 'int', 'ptr') and f == 'DEREF'), p=('C10', 'C19') if t == 'int' and f == 'DEREF' else ('C10',))
    for t in ('char', 'uchar', 'short', 'int', 'uint', 'long', 'ulong', 'ptr', 'bool'):
        for k in ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'BITAND', 'BITOR', 'BITXOR', 'SHL', 'SHR'):
            if t == 'ptr' and k not in ('ADD', 'SUB'): continue
            sg = t in ('char', 'short', 'int', 'long', 'bool', 'uchar')
            kk = 'ND_' + ('SAR' if k == 'SHR' and sg else k)
            for f in ('DEREF', 'LOC', 'MEM'):
                for rs in 'onl':
                    for rt in ('int', 'long', 'uint'):
                        if t == 'ptr' and rt != 'long': continue
                        for v in (True, False):
                            q = (f == 'LOC' and rs == 'n' and rt == 'int' and v and k in ('ADD', 'BITAND', 'SUB') and t in ('char', 'uint', 'long', 'ulong')) or (f == 'DEREF' and rs == 'o' and rt == 'int' and t in ('short', 'uint', 'long') and k in ('ADD', 'SUB', 'DIV', 'SHL', 'SHR', 'BITXOR') and v == (k in ('ADD', 'DIV', 'SHL'))) or (f == 'LOC' and rs == 'l' and rt == 'long' and t in ('int', 'uchar') and k in ('MUL', 'MOD', 'SUB')) or (t == 'ptr' and rs in 'on' and f == 'LOC') or (t == 'bool' and k in ('ADD', 'SHR') and f == 'LOC' and rt == 'int')
                            if rt == 'uint' and not (rs == 'n' and f == 'LOC'): continue
                            a('ar_%s_%s_%s_%s%s%s' % (k.lower(), t, f.lower(), rs, rt, '_void' if v else ''), 'ARITH', kk, f, t, rs=rs, rt=rt, void=v, tier=Q(q), p=('C10', 'C19') if q and t == 'long' else ('C10',))
            if t in ('int', 'uchar', 'ulong'): a('ar_%s_%s_plain' % (k.lower(), t), 'ARITH', kk, 'DEREF', t, rt='int', opt=False, tier=Q(t == 'int' and k in ('ADD', 'DIV', 'SHL')), p=('C10', 'C19') if t == 'int' else ('C10',))
        for f in ('DEREF', 'LOC', 'MEM'):
            for v in (True, False):
                a('post_%s_%s%s' % (t, f.lower(), '_void' if v else ''), 'POST', 0, f, t, rs='n', rt='long' if t == 'ptr' else 'int', void=v, tier=Q(f != 'MEM' and t in ('char', 'uint', 'long', 'ptr')), p=('C10', 'C19') if t == 'long' else ('C10',))
    # bit-fields
    for t, n in BT:
        for w in range(1, n + 1):
            q = w in (1, 5, 8, 13, 16, 24, 31, 32, 33, 47, 63, 64)
            u_ = t in ('uchar', 'ushort', 'uint', 'ulong')
            for f in ('MEM', 'MVAR'):
                for opt in (True, False):
                    sf = '%s_%d_%s%s' % (t, w, f.lower(), '' if opt else '_plain')
                    a('bfr_'+sf, 'READ', 0, f, t, bw=w, opt=opt, tier=Q(q and opt and f == 'MEM' or (w in (3, n) and opt)), p=('C11',))
                    for v in (True, False):
                        vs = '_void' if v else ''
                        a('bfw_'+sf+vs, 'ASSIGN', 0, f, t, bw=w, opt=opt, void=v, tier=Q(q and opt and f == 'MEM' and v != (w % 3 == 0) or (w in (7, n) and opt and f == 'MEM')), p=('C11',))
            if w in (1, 7, 8, 12, 16, 20, 31, 32, 40, 64):
                for k in ('ADD', 'SUB', 'DIV', 'MOD', 'SHR', 'BITOR', 'MUL'):
                    pu = w == n and t in ('uint', 'ulong') or (t == 'ulong' and w > 32)
                    kk = 'ND_' + ('SAR' if k == 'SHR' and not pu else k)
                    for rs, rt in (('n', 'int'), ('o', 'int'), ('o', 'long')):
                        for v in (True, False):
                            a('bfa_%s_%s_%d_%s%s%s' % (k.lower(), t, w, rs, rt, '_void' if v else ''), 'ARITH', kk, 'MEM', t, bw=w, rs=rs, rt=rt, void=v, tier=Q((w in (20, 40, 12, 7) and k in ('ADD', 'DIV', 'SHR') and rs == 'o' and rt == 'int' and v == (t in ('uint', 'ulong')) and t in ('uint', 'long', 'ushort', 'char', 'ulong'))), p=('C11',))
                for v in (True, False): a('bfp_%s_%d%s' % (t, w, '_void' if v else ''), 'POST', 0, 'MEM', t, bw=w, rs='n', rt='int', void=v, tier=Q(w in (1, 20, 40) and not v), p=('C11',))
    for t in ('int', 'uint', 'long', 'ulong'):
        for to in ('char', 'int', 'long'):
            L.append(('DI', 'dint_%s_%s' % (t, to), '%d, %d, false' % (T[t], T[to]), Q(to == 'char'), ('C20',)))
        L.append(('DI', 'dinta_%s' % t, '%d, 2, true' % T[t], 'quick', ('C20',)))
    for t in ALLT:
        L.append(('EX', 'exch_%s' % t, '%d, S_OPQ' % T[t], Q(t in ('bool', 'char', 'ushort', 'int', 'long')), ('C10',)))
        for c1 in range(8): # 7: the operand contains a call; the register chosen for the address depends on max(c1, c2 + 1)
            for c2 in range(8):
                L.append(('CS', 'cas_%s_%d%d' % (t, c1, c2), '%d, %d, %d' % (T[t], c1, c2), Q(t == 'long' and (c1 in (0, 7) or (c1, c2) in ((3, 0), (6, 2))) or t in ('uchar', 'short', 'int') and (c1, c2) in ((0, 0), (6, 6))), ('C10',)))
    return L
FA = ['gen_expr2', 'gen_expr_opt', 'gen_void_expr', 'gen_void_assign', 'gen_void_arith_assign', 'memop_arith', 'imm_tmpl', 'gen_expr_null_lhs', 'gen_deref_opt', 'gen_member_opt', 'gen_addr_opt', 'gen_bitfield_load', 'gen_bitfield_store', 'load', 'load2', 'load3', 'store', 'store2', 'store3', 'gen_mem_copy2', 'eval_memop', 'is_memop', 'push_by_ty', 'pop_by_ty']
def units(prop):
    L = []
    for n, a, tier, c19 in entries():
        if not (prop == 'C10' or (prop == 'C19' and c19)): continue
        L.append(u(n, 'cg_ops.c', 'h_'+n, prop, cbmc=FS, tier=tier))
    for mac, n, a, tier, p in misc():
        if prop in p: L.append(u(n, 'cg_misc.c', 'h_'+n, prop, cbmc=FS, tier=tier, funcs=['gen_expr2', 'gen_expr_opt', 'gen_cast', 'gen_bool_opt', 'bool_expr_opt', 'gen_logical', 'gen_cmp_zero', 'gen_load_opt_gp', 'load3', 'load_val2', 'cast_table']))
    for mac, n, a, tier, p in asg():
        if prop in p: L.append(u(n, 'cg_asg.c', 'h_'+n, prop, cbmc=FS, tier=tier, funcs=FA, inject=inj(no=('gen_void_expr',)), defs={'VF_OWN_VOID': None}))
    return L
UNITS = units('C10')
ASSUMPTIONS = [
 'gen_expr, gen_addr, gen_cond, gen_void_expr are replaced by their contract when called on a sub-expression; each case of the contract is itself a unit of this check (induction over the expression tree)',
 'sub-expression contract: the value arrives in %rax (64 bits for 8-byte, pointer and truth values; the upper half is arbitrary otherwise); it may overwrite every caller-saved register it accounts to the enclosing temporary slot, and spill below the enclosing slot; it keeps rbp, rbx, rsp, r12-r15',
 'opaque operands do not modify the variable operands of the same operator (C leaves that unsequenced)',
 'the ghost machine in harness/x86.h is the semantics of the instructions used (written from the Intel manual); fprintf/snprintf are modelled as exact text formatting with numbers kept symbolic',
 'general multiplication and division are uninterpreted functions shared by the machine and the specification, with closed forms for 0, 1, -1 and powers of two',
 'is_const_expr and eval_var_opt are replaced by their contracts (C01 covers the first)',
 'floating-point operands are outside this check',
 'operand types and shapes are enumerated; values, offsets, immediates, flags and temporary-stack states are symbolic']
if __name__ == '__main__':
    open('/verif/harness/cg_ops_gen.h', 'w').write('// generated by props/C10.py\n' + ''.join('B(%s, %s)\n' % (n, a) for n, a, _, _ in entries()))
    open('/verif/harness/cg_misc_gen.h', 'w').write('// generated by props/C10.py\n' + ''.join('%s(%s, %s)\n' % (m, n, a) for m, n, a, _, _ in misc()))
    open('/verif/harness/cg_asg_gen.h', 'w').write('// generated by props/C10.py\n' + ''.join('%s(%s, %s)\n' % (m, n, a) for m, n, a, _, _ in asg()))
    import collections; print({(p, t): sum(1 for x in asg() if p in x[4] and x[3] == t) for p in ('C10', 'C11', 'C20', 'C19') for t in ('quick', 'thorough')})
