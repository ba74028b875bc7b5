import C10
LEVEL = 'proof'
UNITS = C10.units('C19')
ASSUMPTIONS = C10.ASSUMPTIONS
