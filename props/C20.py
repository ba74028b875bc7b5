import C10, C05
LEVEL = 'proof'
UNITS = C10.units('C20')
CASES = [('add', 'a + b', 'ADD'), ('radd', 'b + a', 'RADD'), ('sub', 'a - b', 'SUB'), ('diff', 'a - b', 'DIFF'), ('idx', 'a [ b ]', 'IDX'), ('ridx', 'b [ a ]', 'IDX'), ('deref', '* ( a + b )', 'IDX'),
         ('addr', '& a [ b ]', 'ADDR'), ('asgadd', 'a += b', 'ASGADD'), ('asgsub', 'a -= b', 'ASGSUB'),
         ('preinc', '++ a', 'PRE', 1), ('predec', '-- a', 'PRE', -1), ('postinc', 'a ++', 'POST', 1), ('postdec', 'a --', 'POST', -1)]
for pf in ('PTR', 'VLA', 'ARR', 'FN'):
    for c in CASES:
        if pf in ('ARR', 'FN') and c[2] in ('ASGADD', 'ASGSUB', 'PRE', 'POST'): continue
        if pf == 'FN' and c[2] not in ('ADD', 'RADD', 'SUB'): continue
        df = dict({'PF': 'P_' + pf, 'WHAT': 'A_' + c[2], 'TOKS': '"%s"' % c[1], 'KIND': 'ND_ADD'}, **({'POST': '(%d)' % c[3]} if len(c) > 3 else {}))
        if c[2] in ('ASGADD', 'ASGSUB', 'PRE', 'POST'): UNITS.append(C05.u('ptr_%s_%s_atomic' % (pf.lower(), c[0]), 'h_ptr', 'C20', defs=dict(df, ATOM=1, **({'TB': 0} if c[2] == 'ASGADD' else {})), tier='quick' if pf == 'PTR' or c[2] == 'POST' else 'thorough'))
        def add(sfx='', tier='quick', **k): UNITS.append(C05.u('ptr_%s_%s%s' % (pf.lower(), c[0], sfx), 'h_ptr', 'C20', tier=tier, defs=dict(df, **k)))
        if c[2] == 'POST': add('_plain', OPT=0); add(OPT=1)
        elif c[2] in ('PRE', 'DIFF'): add()
        elif c[2] in ('SUB', 'ASGSUB'): add(); add('_bf', 'quick' if pf == 'PTR' else 'thorough', FB='LF_BF')
        else:
            for i in range(12):
                q = c[0] in ('add', 'idx', 'asgadd') and pf == 'PTR' and i in (0, 1, 2, 3, 6, 8, 9) or i in (1, 2) and c[0] in ('radd', 'addr', 'deref', 'ridx') or i == 0
                add('_' + C05.TN[i], 'quick' if q else 'thorough', TB=i)
                if pf == 'PTR': add('_bf_' + C05.TN[i], 'quick' if c[0] == 'add' and i in (1, 2) else 'thorough', TB=i, FB='LF_BF')
ASSUMPTIONS = C10.ASSUMPTIONS + C05.ASSUMPTIONS
