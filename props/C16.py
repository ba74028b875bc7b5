from vf import U
LEVEL = 'proof'
def u(n, entry, defs, cuts=(), **k):
    k.setdefault('fuzz', 200000)
    return U('C16.'+n, 'lex.c', entry, defs=dict(defs, UNIT_NL=None), inject={'tokenize.c': [('split', f) for f in ('error_at','error_tok')] + [('cut',)+c for c in cuts]}, link=['type.c'], **k)
UNITS = [u('splice', 'h_splice', {}, unwind=10, funcs=['remove_backslash_newline'], bounded='texts of at most 7 bytes'),
 u('newline', 'h_crlf', {}, unwind=10, funcs=['canonicalize_newline'], bounded='texts of at most 7 bytes'),
 u('lines', 'h_lines', {}, unwind=10, funcs=['add_line_numbers'], bounded='texts of 7 bytes with three tokens'),
 u('splice_any', 'h_cut', {'UNIT_CUT':None}, cuts=[('remove_backslash_newline',0,'cut(&p,&q,&n)'),('remove_backslash_newline',1,'cut2(&q,&n)')], unwind=3, fuzz=None, funcs=['remove_backslash_newline']),
 u('newline_any', 'h_cut', {'UNIT_CUT':None,'CRLF':None}, cuts=[('canonicalize_newline',0,'cutc(&p,&q)')], unwind=3, fuzz=None, funcs=['canonicalize_newline'])]
ASSUMPTIONS = ['text shorter than 10^6 bytes in the loop proofs', 'strchr finds the first occurrence (C library contract)']
