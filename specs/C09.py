from cascade import *
from api import *
CONTRACTS = ['GammaCascade', 'HistoryLoop', 'RecordParticles', 'EventCtor', 'Initialization']
HARNESS = ['event']
CASES = 250
TRUSTED = ['log(x) <= 0 for x < 1', 'callees of the cascade as listed under C08', 'level half-lives are those of the level scheme (C13)']
