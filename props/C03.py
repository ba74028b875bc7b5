from vf import U
LEVEL = 'proof'
INJ = {'tokenize.c': [('split','error_at'),('split','error_tok')]}
def inj(*x): return {'tokenize.c': INJ['tokenize.c'] + [('split', f) for f in x]}
def u(n, entry, defs, extra=(), **k):
    k.setdefault('unwind', 14); k.setdefault('fuzz', 100000)
    return U('C03.'+n, 'lex.c', entry, defs=defs, inject=inj(*extra), link=['type.c'], **k)
UNITS = [u('encode_utf8', 'h_utf', {'UNIT_UTF':None}, funcs=['encode_utf8','decode_utf8']),
 u('decode_utf8', 'h_utfbad', {'UNIT_UTF':None}, funcs=['decode_utf8']),
 u('escape', 'h_esc', {'UNIT_ESC':None}, funcs=['read_escaped_char','from_hex']),
 u('string_end', 'h_strend', {'UNIT_ESC':None}, funcs=['string_literal_end'], bounded='literals of at most 6 characters'),
 U('C03.string_end_any', 'lex.c', 'h_endcut', defs={'UNIT_ESC':None}, inject={'tokenize.c': INJ['tokenize.c'] + [('cut','string_literal_end',0,'endcut(&p)')]}, unwind=3, link=['type.c'], fuzz=None, funcs=['string_literal_end']),
 u('ucn', 'h_ucn', {'UNIT_UCN':None}, unwind=20, funcs=['convert_universal_chars','read_universal_char'], bounded='one name in a text of at most 14 characters')]
RD = {1:'read_string_literal', 2:'read_utf16_string_literal', 4:'read_utf32_string_literal'}
for w in (1, 2, 4):
    UNITS.append(U('C03.string_%d' % (w*8), 'lex.c', 'h_scut', defs={'UNIT_SCUT':None,'WIDTH':w}, inject={'tokenize.c': INJ['tokenize.c'] + [('cut', RD[w], 0, 'scut(&p,&len)')] +
        [('split', f) for f in list(RD.values()) + ['string_literal_end','read_escaped_char','new_token']], 'unicode.c': [('split','decode_utf8')]}, unwind=3, funcs=[RD[w]], fuzz=100000))
UNITS.append(U('C03.char', 'lex.c', 'h_chr', defs={'UNIT_CHR':None}, inject={'tokenize.c': INJ['tokenize.c'] + [('split','read_escaped_char')], 'unicode.c': [('split','decode_utf8')]}, link=['type.c'], unwind=34, funcs=['read_char_literal'], fuzz=100000))
JP = [((0,k,0),(2,1,2),3) for k in range(1,5)] + [((k,0,k),(1,2,0),3) for k in range(1,5)] + [((k,k,0),(2,2,0),2) for k in range(5)] + [((0,0,k),(1,0,2),3) for k in range(5)] + \
     [((a,b,0),(1,1,0),2) for a in range(1,5) for b in range(1,5) if a != b] + [((0,2,3),(1,1,1),3),((4,0,1),(1,1,1),3)]
for ps, cs, n in JP:
    good = len(set(ps[:n]) - {0}) < 2
    UNITS.append(U('C03.join_%s_%d' % (''.join(map(str, ps)), n), 'join.c', 'h_join', defs=dict({'P0':ps[0],'P1':ps[1],'P2':ps[2],'C0':cs[0],'C1':cs[1],'C2':cs[2],'NN':n}, **({'GOOD':None} if good else {})), link=['type.c'], inject={'tokenize.c':[]},
        unwind=14, funcs=['join_adjacent_string_literals','getStringKind'], fuzz=300, expect_reach=good, bounded='two or three literals of at most two units'))
ASSUMPTIONS = ['calloc returns fresh zeroed memory', 'strchr, memcpy (CBMC library models)', 'literals shorter than 10^6 bytes in the loop proofs', 'without -fenable-universal-char universal character names in literals are not processed; C03 is about texts read with it']
