from kin import *
CONTRACTS = ['NeutronEmissionBoost', 'BoostPfn']
HARNESS = ['kin']
CASES = 3000
TRUSTED = ['getMassExcess: a function of (Z,A) giving positive nuclear masses']
