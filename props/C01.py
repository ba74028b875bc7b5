from vf import U
LEVEL = 'proof'
F = ['eval2', 'eval', 'eval_sign_extend', 'eval_error']
def u(n, name=None, **k):
    d = dict(link=['type.c'], inject={'parse.c': [('split', 'eval2')]}, funcs=F, unwind=2); d.update(k)
    return U('C01.'+(name or n), 'eval.c', 'h_'+n, **d)
UNITS = []
for i, o in enumerate(['add', 'sub', 'mul', 'and', 'or', 'xor']):
    UNITS.append(u('arith', o, defs={'VF_OP': i}))
UNITS.append(u('arith', 'mul_value', defs={'VF_OP': 2, 'VF_CONSTS': None}, solver=('z3', 'cvc5'), timeout=100))
for i, o in enumerate(['div', 'mod']):
    UNITS.append(u('divmod', '%s_refusal' % o, defs={'VF_OP': i}))
    for t, tn in enumerate(['int', 'uint', 'long', 'ulong', 'llong', 'ullong']):
        UNITS.append(u('divmod', '%s_%s' % (o, tn), defs={'VF_OP': i, 'VF_TYIX': t, 'VF_CONSTS': None}, solver=('z3', 'cvc5'), timeout=100))
for i, o in enumerate(['logand', 'logor', 'cond', 'comma']):
    UNITS.append(u('logic', o, defs={'VF_OP': i}))
UNITS += [u('shift'), u('cmp'), u('unary'), u('cast'), u('num'), u('sticky'), u('sign_extend'), u('is_const', funcs=['is_const_expr', 'eval_ctx'])]

for sh in range(3):
  for t, tn in enumerate(['int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'bool', 'char', 'uchar', 'short', 'ushort']):
    if tn in ('llong', 'ullong') or (sh == 2 and tn not in ('int', 'ulong', 'short')): continue
    for bf in ([0, 1] if sh and tn in ('long', 'ulong') else [None]):
      UNITS.append(u('data', 'const_object_read%d_%s%s' % (sh, tn, {None: '', 0: '_plain', 1: '_bitfield'}[bf]),
        defs=dict({'VF_DATA': None, 'VF_SHAPE': sh, 'VF_TYIX': t}, **({} if bf is None else {'VF_BF': bf})), inject=None, unwind=25, weight=3, solver=('sat','z3') if bf is None else ('sat', 'cvc5'),
        funcs=['eval_constexpr_data', 'eval_var', 'eval_var_ofs', 'is_static_const_var', 'is_const_var', 'read_buf', 'eval2']))

# Whole expressions: parser + typing + folding, tokens concrete, values symbolic.
PF = ['conditional', 'log_or', 'log_and', 'bit_or', 'bit_xor', 'bit_and', 'equality', 'relational', 'shift', 'add', 'mul', 'cast',
      'unary', 'primary', 'new_add', 'new_sub', 'new_cast', 'cond_cast', 'add_type', 'usual_arith_conv', 'get_common_type', 'const_expr2', 'eval2']
def e(name, toks, entry='h_iiii', pre='1', **k):
    d = {'TOKS': '"%s"' % toks, 'CEXPR': '(%s)' % toks, 'PRE': '(%s)' % pre}
    hard = any(x in toks.split() for x in '*/%')
    if any(x in toks.split() for x in ['/', '%']): d['OPT'] = 0
    return U('C01.expr:'+name, 'exprs.c', entry, link=['type.c'], defs=d, unwind=26, checks=(), funcs=PF,
             solver=('cvc5', 'z3') if '*' in toks.split() else ('z3', 'cvc5') if hard else ('sat', 'z3'), timeout=100, **k)
def pre(toks, w=(32, 32)):
    t = toks.split(); p = []
    for i, x in enumerate(t):
        if x in ('/', '%'):
            r = t[i+1]; p.append('%s != 0' % r)
            p.append('%s != -1' % r)
    return ' && '.join(p) or '1'
LV = [['*', '/', '%'], ['+', '-'], ['<<', '>>'], ['<', '<=', '>', '>='], ['==', '!='], ['&'], ['^'], ['|'], ['&&'], ['||']]
SH = '(c) >= 0 && (c) < 32 && (b) >= 0 && (b) < 32'
PAIRS = [('*', '+'), ('-', '*'), ('+', '<<'), ('>>', '-'), ('<<', '<'), ('<=', '>>'), ('<', '=='), ('!=', '>='), ('==', '&'), ('&', '!='), ('&', '^'), ('^', '&'),
         ('^', '|'), ('|', '^'), ('|', '&&'), ('&&', '|'), ('&&', '||'), ('||', '&&'), ('-', '-'), ('-', '+'), ('+', '-'), ('<<', '>>'), ('>>', '<<'), ('<', '>'), ('==', '!='),
         ('>', '<='), ('&&', '&&'), ('||', '||'), ('==', '<'), ('&', '=='), ('|', '&'), ('&&', '=='), ('+', '&'), ('>=', '|')]
def shiftpre(toks):
    t = toks.split(); p = []
    if '<<' in t or '>>' in t:
        # the shift count is the maximal right operand; only leaf or additive counts occur
        for i, x in enumerate(t):
            if x in ('<<', '>>'):
                if i+2 < len(t) and t[i+2] in ('+', '-'): p.append('(%s) >= 0 && (%s) < 32' % (' '.join(t[i+1:i+4]), ' '.join(t[i+1:i+4])))
                else: p.append('%s >= 0 && %s < 32' % (t[i+1], t[i+1]))
    return ' && '.join(p) or '1'
for a, b in PAIRS:
    toks = 'a %s b %s c' % (a, b)
    UNITS.append(e('a%sb%sc' % (a, b), toks, pre=shiftpre(toks)))
for toks in ['a ? b : c ? d : a', 'a || b ? c : d', 'a ? b , c : d', '- a + b', '! a == b', '~ a & b', '- - a', '+ a - - b', '( a | b ) & c', 'a - ( b - c )', '( a , b ) + c', '! ! a', 'a ? : b', 'a ? b ? c : d : a']:
    x = e(toks.replace(' ', ''), toks)
    if '? :' in toks: x.defs['CEXPR'] = '(a ? a : b)'
    UNITS.append(x)
W = {'i': 32, 'u': 32, 'l': 64, 'w': 64}
for op in ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '?', '&&', '||']:
    for s in 'iulw':
        for t in 'iulw':
            toks = 'a %s b' % op if op != '?' else 'a ? a : b'
            p = '1'
            if op in ('<<', '>>'): p = 'b >= 0 && b < %d' % W[s]
            if op in '/%': p = 'b != 0 && b != -1'
            x = e('%s_%s%s' % (op, s, t), toks, 'h_%s%s' % (s, t), p)
            if s+t not in ('ii', 'uu', 'iu', 'lu', 'ul', 'iw', 'wl') and op not in ('<', '/'): x.tier = 'thorough'
            if op in '*/%': x.defs['VEXPR'] = 'OP64(%s)' % op
            UNITS.append(x)
ASSUMPTIONS = [
 'signed overflow inside the compiler itself wraps (slimcc is built with gcc -O0/-O1 style two\'s complement arithmetic; CBMC models it so)',
 'shift counts outside [0,width) and INT_MIN/-1 are undefined in C and excluded',
 'expression shapes of the whole-expression units are concrete token sequences (every adjacent pair of grammar levels, every operator x operand type); deeper trees follow by the eval2 contract, whose sub-expressions are arbitrary',
 'region allocator returns fresh zeroed memory (proved for alloc.c under C14)',
 'token helpers equal/skip/consume behave as their contract (harness/tok_model.h)',
 'floating operands of comparisons, casts and ?: are outside the contract (CBMC does not model x87 long double)']
