from levels import *
CONTRACTS = ['Normalize', 'FixTransition', 'GroundState', 'GetLevels', 'Levels']
HARNESS = ['scheme']
CASES = 150
TRUSTED = ['parsing of the level file (readDiscreteLevelData: stream and string operations) is checked by bounded replay only', 'the level file is ordered: levels by energy from a ground state at zero, branches to lower levels, spins known (assumed by contract Levels)', 'the first level of every nucleus is at energy zero before the look-up']
