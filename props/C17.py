from vf import U
LEVEL = 'proof'
D = dict(checks=('--bounds-check',), timeout=200, native_inject=False, solver=('sat', 'z3'))
UNITS = []
for n in range(6):
    UNITS.append(U('C17.escape%d' % n, 'quote.c', 'h_escape', defs={'U_ESC': None, 'N': n}, unwind=14, funcs=['escape_string'], bounded='names up to 5 bytes', **D))
    UNITS.append(U('C17.makefile%d' % n, 'quote.c', 'h_make', defs={'U_MAKE': None, 'N': n}, unwind=22, funcs=['quote_makefile'], bounded='names up to 5 bytes', **D))
for esc in (0, 1):
    for k0 in range(4):
        for k1 in range(4):
            for l0, l1 in ((2, 2), (1, 3)):
                UNITS.append(U('C17.join%d_%d%d_%d%d' % (esc, k0, k1, l0, l1), 'quote.c', 'h_join', defs={'U_JOIN': None, 'ESC': esc, 'K0': k0, 'K1': k1, 'L0': l0, 'L1': l1}, unwind=18, funcs=['join_tokens'], bounded='two tokens of up to 3 bytes', tier='quick' if k0 % 2 == 0 and (esc or l0 == 2) else 'thorough', **D))
J = {'U_JOIN': None, 'ESC': 1, 'K0': 0, 'K1': 0, 'L0': 1, 'L1': 1}
UNITS.append(U('C17.stringize', 'quote.c', 'h_stringize', defs=J, unwind=22, funcs=['stringize', 'new_str_token', 'quote_string', 'join_tokens'], bounded='three tokens', **D))
for n in range(4): UNITS.append(U('C17.file_name%d' % n, 'quote.c', 'h_name', defs=dict(J, N=n, REALESC=None), unwind=14, funcs=['file_macro', 'base_file_macro', 'new_str_token', 'quote_string', 'escape_string'], bounded='names up to 3 bytes', **D))
ASSUMPTIONS = ['tokenize() is replaced by its contract (C03, C04): it receives the quoted text', 'newlines in file names are outside the property']
