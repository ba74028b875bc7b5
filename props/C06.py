import C10, C05
LEVEL = 'proof'
UNITS = C10.units('C06')
for f in ('RV', 'BF'):
    for i in range(12): UNITS.append(C05.u('chain_%s_%s' % (f.lower(), C05.TN[i]), 'h_cast', 'C06', defs={'TA': i, 'FA': 'LF_' + f}, funcs=['new_cast', 'is_redundant_cast', 'is_integer', 'unqual']))
ASSUMPTIONS = C10.ASSUMPTIONS + C05.ASSUMPTIONS
