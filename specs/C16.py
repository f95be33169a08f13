from driver import *
CONTRACTS = ['PrintEventDelayed', 'PrintEvent', 'RecordEvent', 'PrintSummary', 'ReadUserInput', 'Main']
HARNESS = ['driver']
CASES = 60
TRUSTED = ['getopt/atoi/atof', 'UniformRNG::set_seed + set_rng: the generator used for an event is determined by the seed set last', 'printf family']
