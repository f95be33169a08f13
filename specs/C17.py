from tables import *
CONTRACTS = ['MassExcessTable', 'MassExcessFile', 'Deformation', 'FindIndex', 'Temperature', 'LevelDensPar', 'SpinPar', 'SpinScaling', 'SpinStrength', 'Angular', 'Options', 'Setup']
HARNESS = ['tables']
CASES = 1
TRUSTED = ['the readers of the data files (iostream): every entry of every table is compared with the file by the replay', 'one entry for a nucleus in the mass table, one row for a target in the anisotropy table: checked by the replay',
           'FissionFragments::init writes yields and tables only (frame assumed)', 'pow: uninterpreted function', 'std::string: abstract values']
