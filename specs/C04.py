from kin import *
CONTRACTS = ['NeutronEmissionBoost', 'Boost']
HARNESS = ['kin']
CASES = 3000
TRUSTED = ['getMassExcess / mass_excess: a function of (Z,A) giving positive nuclear masses']
