from grid import *
CONTRACTS = ['TotalNeutrons', 'InitSystem', 'EnergyBin']
HARNESS = ['grid']
CASES = 1500
TRUSTED = ['mass table (mass_excess) is a function of Z and A', 'level energies are not negative (C13)']
