from vf import U
LEVEL = 'proof'
UNITS = []
def u(n, entry, tier='quick', **d):
    UNITS.append(U('C07.' + n, 'layout.c', entry, defs=d, link=['type.c', 'codegen.c'], inject={}, unwind=8, checks=(), timeout=200, native_inject=True, tier=tier,
                   funcs=['struct_decl', 'union_decl', 'align_down', 'align_to'], solver=('sat', 'z3', 'cvc5')))
A = (1, 2, 4, 8, 16)
for pk in (0, 1):
    p = 'packed_' if pk else ''
    for s2 in (1, 2, 4, 8):
        for s1 in (1, 2, 4, 8):
            for a2 in (0, 1, 2, 8, 32):
                q = (s1 == 4 and a2 in (0, 8)) or (s1 == 8 and a2 == 0) or (s1 == 2 and a2 == 2 and s2 == 4)
                u('%sbf%d_after_bf%d%s' % (p, s2 * 8, s1 * 8, '_al%d' % a2 if a2 else ''), 'h_struct', 'quick' if q else 'thorough', S1=s1, S2=s2, A2=a2, PK=pk)
    for s2 in A:
        for s1 in (1, 4, 8):
            for a2 in (0, 1, 2, 4, 16, 64):
                q = (s1 == 4 and a2 in (0, 4, 16)) or (s1 == 8 and a2 == 0)
                u('%sobj%d_after_bf%d%s' % (p, s2, s1 * 8, '_al%d' % a2 if a2 else ''), 'h_struct', 'quick' if q else 'thorough', BF2=0, S1=s1, S2=s2, A2=a2, PK=pk)
        for a2 in (0, 2, 4, 16):
            u('%ssub%d%s' % (p, s2, '_al%d' % a2 if a2 else ''), 'h_struct', 'quick' if a2 in (0, 4) else 'thorough', BF2=0, S2=s2, A2=a2, PK=pk, K2='TY_STRUCT')
    for a in (1, 2, 4, 8, 16, 64):
        u('%sattr%d' % (p, a), 'h_struct', AS=a, PK=pk, S1=1, S2=2)
        u('%smember_attr%d' % (p, a), 'h_struct', A0=a, PK=pk, S1=4, S2=1)
        u('%sunion_attr%d' % (p, a), 'h_union', AS=a, PK=pk, S1=1, S2=2)
        u('%sunion_member_attr%d' % (p, a), 'h_union', A2=a, PK=pk, S1=2, S2=4)
    for s2 in A: u('%sunion_obj%d' % (p, s2), 'h_union', BF2=0, S2=s2, PK=pk)
ASSUMPTIONS = ['the list of members under test is an object of any size and alignment 1, any bit-field, the member under test and a bit: the first two bring the running position and alignment into every state the rest of the layout depends on',
 'types, attributes and packing are enumerated; widths, sizes and namedness are symbolic', 'aggregates up to 2 GiB (Member.offset is an int)',
 'members arrive as struct_members builds them; the rules were compared with GCC and Clang on random declarations during development']
