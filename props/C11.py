import C10
LEVEL = 'proof'
UNITS = C10.units('C11')
ASSUMPTIONS = C10.ASSUMPTIONS
