from api import *
from cascade import *
CONTRACTS = ['EventCtor', 'RecordParticles', 'MainFission', 'Initialization']
HARNESS = ['event']
CASES = 120
TRUSTED = ['generateInitialFissionFragmentHistories: at most 3 pre-fission neutrons',
           'mass tables: positive masses', 'boost: proved under C04']
