from cascade import *
CONTRACTS = ['GammaCascade', 'FindNext']
HARNESS = ['event']
CASES = 120
TRUSTED = ['level schemes as delivered by getDiscreteLevels (C13): every branch leads to a lower level', 'the probability of a branch is checked by the bounded replay only (12 levels, 20000 samples each, fixed seed)']
