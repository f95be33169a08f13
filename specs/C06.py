from api import *
CONTRACTS = ['CppAccessors', 'CAccessors']
HARNESS = ['api']
CASES = 300
TRUSTED = []
