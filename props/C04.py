from vf import U
LEVEL = 'proof'
def u(n, entry, defs, extra=(), uni=(), **k):
    k.setdefault('fuzz', 200000)
    return U('C04.'+n, 'lex.c', entry, defs=defs, inject={'tokenize.c': [('split', f) for f in ('error_at','error_tok')+tuple(extra)], 'unicode.c': [('split', f) for f in uni]}, link=['type.c'], **k)
UNITS = [u('punctuators', 'h_punct', {'UNIT_PUNCT':None}, unwind=60, funcs=['read_punct']),
 u('ident_start', 'h_xid', {'UNIT_XID':None,'FIRST':None}, unwind=1000, funcs=['is_ident1','in_range']),
 u('ident_continue', 'h_xid', {'UNIT_XID':None}, unwind=1000, funcs=['is_ident2','in_range']),
 u('identifier', 'h_ident', {'UNIT_IDENT':None}, uni=('is_ident1','is_ident2'), unwind=10, funcs=['read_ident'], bounded='at most 6 bytes'),
 u('pp_number', 'h_ppnum', {'UNIT_IDENT':None}, uni=('is_ident1','is_ident2'), unwind=10, funcs=['new_pp_number'], bounded='at most 6 bytes')]
RD = ['read_string_literal','read_utf16_string_literal','read_utf32_string_literal','read_char_literal','read_ident','new_pp_number','read_punct','new_token','add_line_numbers','error_at','error_tok']
for n, d in (('token_step', {}), ('space_step', {'SPACE':None})):
    UNITS.append(U('C04.'+n, 'lex.c', 'h_step', defs=dict(d, UNIT_STEP=None), inject={'tokenize.c': [('split', f) for f in RD] + ([('cut','tokenize',3,'inner(2,&q)'),('cut','tokenize',2,'inner(1,&p)'),('cut','tokenize',1,'inner(0,&p)')] if d else []) + [('cut','tokenize',0,'step(&p, &cur)')]}, link=['type.c'], unwind=30, fuzz=300000, funcs=['tokenize']))
ASSUMPTIONS = ['text shorter than 10^6 bytes', 'the Unicode table used as reference is Python unicodedata 15.0 plus the four characters 15.1 added; code points unassigned in it are not claimed']
