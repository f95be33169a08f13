from api import *
CONTRACTS = ['CheckInput', 'EventCtor', 'YieldsCtor']
HARNESS = ['api']
CASES = 420
TRUSTED = ['constructors and samplers below the event constructor (FissionFragments) do not change the admission decision']
