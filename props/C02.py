from vf import U
LEVEL = 'proof'
INJ = {'tokenize.c': [('split','error_at'),('split','error_tok')]}
def inj(*x): return {'tokenize.c': INJ['tokenize.c'] + [('split', f) for f in x]}
UNITS = [U('C02.convert_pp_int', 'lex.c', 'h_int', defs={'UNIT_INT':None}, inject=inj(), link=['type.c'], unwind=10, funcs=['convert_pp_int']),
 U('C02.convert_pp_number', 'lex.c', 'h_sep', defs={'UNIT_SEP':None}, inject=inj('convert_pp_int'), link=['type.c'], unwind=20, funcs=['convert_pp_number'], bounded="literals of at most 10 characters", fuzz=40000)]
ASSUMPTIONS = ['strtoul reads the longest run of digits of the given base and returns its value (C library)',
 'strtold enters by contract: any consumed prefix', 'decimal literals without u above 2^63-1 have no type in C and are excluded; literals above 2^64-1 are excluded',
 'the digit run is represented by its value and length: runs of 1..3 digits followed by any suffix of up to 4 characters']
