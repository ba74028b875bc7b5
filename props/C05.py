from vf import U
LEVEL = 'proof'
INJ = {'parse.c': [('split', f) for f in ('primary', 'is_const_expr', 'is_const_double')]}
F = ['conditional', 'log_or', 'log_and', 'bit_or', 'bit_xor', 'bit_and', 'equality', 'relational', 'shift', 'add', 'mul', 'cast', 'unary', 'postfix', 'assign', 'expr',
     'new_add', 'new_sub', 'new_cast', 'cond_cast', 'to_assign', 'new_inc_dec', 'atomic_op', 'add_type', 'usual_arith_conv', 'get_common_type', 'int_promotion', 'is_bitfield2', 'is_redundant_cast', 'int_rank']
def u(name, entry, prop='C05', file='typing.c', **k):
    d = dict(link=['type.c'], inject=INJ, funcs=F, unwind=26, checks=(), native_inject=True, timeout=200); d.update(k)
    return U(prop + '.' + name, file, entry, **d)
OPS = [('+', 'ADD'), ('-', 'SUB'), ('*', 'MUL'), ('/', 'DIV'), ('%', 'MOD'), ('&', 'BITAND'), ('|', 'BITOR'), ('^', 'BITXOR'), ('<<', 'SHL'), ('>>', 'SHR'),
       ('<', 'LT'), ('<=', 'LE'), ('>', 'GT'), ('>=', 'GE'), ('==', 'EQ'), ('!=', 'NE')]
UNITS = []
TN = ['int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'bool', 'char', 'uchar', 'short', 'ushort', 'pchar', 'float', 'double', 'ldouble']
def per(n, entry, defs, types=range(12), quick=(0, 1, 2, 3, 6, 8, 9), **k):
    for i in types: UNITS.append(u('%s_%s' % (n, TN[i]), entry, defs=dict(defs, TA=i), **dict(dict(tier='quick' if i in quick else 'thorough'), **k)))
def d(toks, kind, fa=None, fb=None, **k):
    r = {'TOKS': '"%s"' % toks, 'KIND': 'ND_' + kind}
    if fa: r['FA'] = 'LF_' + fa
    if fb: r['FB'] = 'LF_' + fb
    r.update(k); return r
for o, k in OPS:
    if k == 'SHR': per('bin_shr', 'h_bin', d('a >> b', k)); continue
    UNITS.append(u('bin_%s' % k.lower(), 'h_bin', defs=d('a %s b' % o, k)))
for o, k in OPS:
    if k == 'SHR':
        per('bin_shr_bf', 'h_bin', d('a >> b', k, 'BF', HI=11)); continue
    for fa, fb in (('BF', 'RV'), ('RV', 'BF'), ('BF', 'BF')):
        UNITS.append(u('bin_%s_%s_%s' % (k.lower(), fa.lower(), fb.lower()), 'h_bin', defs=d('a %s b' % o, k, fa, fb, HI=11), tier='quick' if k in ('ADD', 'LT', 'SHR', 'DIV') else 'thorough'))
for o, k in (('+', 'POS'), ('-', 'NEG'), ('~', 'BITNOT'), ('!', 'NOT')):
    UNITS.append(u('un_%s' % k.lower(), 'h_un', defs=d(o + ' a', k)))
    if k != 'NOT': per('un_%s_bf' % k.lower(), 'h_un', d(o + ' a', k, 'BF', HI=11))
    else: UNITS.append(u('un_%s_bf' % k.lower(), 'h_un', defs=d(o + ' a', k, 'BF', HI=11)))
for o, k in (('&&', 'LOGAND'), ('||', 'LOGOR')):
    UNITS.append(u('log_%s' % k.lower(), 'h_log', defs=d('a %s b' % o, k)))
    UNITS.append(u('log_%s_bf' % k.lower(), 'h_log', defs=d('a %s b' % o, k, 'BF', 'BF', HI=11)))
UNITS.append(u('cond', 'h_cond', defs=d('c ? a : b', 'COND')))
UNITS.append(u('cond_bf', 'h_cond', defs=d('c ? a : b', 'COND', 'BF', 'RV', HI=11)))
UNITS.append(u('cond_short', 'h_cond', defs=d('c ? : b', 'CHAIN')))
ASG = [('=', 'ASSIGN')] + [(o + '=', k) for o, k in OPS[:10]]
for o, k in ASG:
    UNITS.append(u('asg_%s' % k.lower(), 'h_asg', defs=d('a %s b' % o, k, 'VAR', HI=11, OLD=0)))
    UNITS.append(u('asg_%s_bf' % k.lower(), 'h_asg', defs=d('a %s b' % o, k, 'BF', HI=11, OLD=0)))
    UNITS.append(u('asg_%s_bfrhs' % k.lower(), 'h_asg', defs=d('a %s b' % o, k, 'VAR', 'BF', HI=11, OLD=0), tier='quick' if k in ('ASSIGN', 'ADD') else 'thorough'))
    per('asg_%s_atomic' % k.lower(), 'h_asg', d('a %s b' % o, k, 'VAR', 'VAR', HI=11, OLD=0, ATOM=1), quick=(0, 3, 8) if k in ('ADD', 'SUB', 'SHR', 'ASSIGN') else (1,))
for n, t, old, v in (('preinc', '++ a', 0, 1), ('predec', '-- a', 0, -1), ('postinc', 'a ++', 1, 1), ('postdec', 'a --', 1, -1)):
    for f in ('VAR', 'BF'):
      for op in (0, 1): per('%s_%s%s' % (n, f.lower(), '' if op else '_plain'), 'h_asg', d(t, 'POST_INCDEC', f, HI=11, OLD=old, POST='(%d)' % v, OPT=op), quick=(0, 3, 6, 8, 9) if op else (1, 6, 7))
    per('%s_atomic' % n, 'h_asg', d(t, 'POST_INCDEC', 'VAR', HI=11, OLD=old, POST='(%d)' % v, ATOM=1), quick=(0, 3, 8))
for o, k in OPS[10:]: UNITS.append(u('ptr_%s' % k.lower(), 'h_ptr', defs={'PF': 'P_PTR', 'WHAT': 'A_CMP', 'TOKS': '"a %s b"' % o, 'KIND': 'ND_' + k}))
for ka in ('PTR', 'FUNC', 'ARRAY', 'VLA', 'STRUCT', 'INT', 'LONG', 'BOOL', 'DOUBLE', 'CHAR'):
    kw = dict(bounded='function types with at most 3 parameters') if ka == 'FUNC' else {}
    for q in ((0, 1, 2, 3, 4) if ka in ('PTR', 'STRUCT') else (0,)):
      UNITS.append(u('compatible_%s%s' % (ka.lower(), q or ''), 'h_compat', defs=dict({'QUAL': q, 'KA': 'TY_' + ka}, **({'KB': 'TY_FUNC'} if ka == 'FUNC' else {})),
                   file='compat.c', link=[], inject={'type.c': [('split', 'is_compatible')]}, funcs=['is_compatible', 'is_compatible2'], unwind=5, timeout=100, **kw))
ASSUMPTIONS = [
 'primary() is replaced by its contract: it consumes the operand token and yields an operand (opaque value, variable or bit-field) of any scalar type',
 'is_const_expr / is_const_double are replaced by their contracts for operands that are not constant (C01 covers folding)']
