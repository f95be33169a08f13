from dens import *
CONTRACTS = ['SetupPar', 'SetupDensity0', 'SetupDensity1', 'LevDens', 'DensPar', 'SpinDist', 'ParityDist', 'LevelCutoff', 'TGconnect', 'Textrapolate', 'Shell', 'Fermi', 'Cutoff', 'ConstT', 'KckData',
             'SetupGdr', 'SetupGdrDeformed', 'GammaE1', 'GammaM1', 'GammaE2', 'StrengthGL', 'StrengthSL', 'StrengthSL2']
HARNESS = ['dens']
CASES = 2000
TRUSTED = ['exp, pow, log: uninterpreted functions with sign and monotonicity rules', 'the level density parameter is positive for the tabulated shell corrections (every table entry is checked by the replay)',
           'std::string: abstract values']
